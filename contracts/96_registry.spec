# Node registry and handler table of a server.
spec std1(m) = put(put(put(m, 1, func(funcReadCoils)), 2, func(funcReadDiscreteInputs)), 3, func(funcReadHoldingRegisters))
spec std2(m) = put(put(put(m, 4, func(funcReadInputRegisters)), 5, func(funcWriteSingleCoil)), 6, func(funcWriteSingleRegister))
spec std3(m) = put(put(put(put(m, 15, func(funcWriteMultiCoils)), 16, func(funcWriteMultiHoldingRegisters)), 22, func(funcMaskWriteRegisters)), 23, func(funcReadWriteMultiHoldingRegisters))

func newServerCommon() (res)
  nopanic [C27]
  frame [C27]
  [C27] fresh(res)
  [C27] new(res.function) =~ std3(std2(std1(emptymap())))
  [C27] new(res.node) =~ emptymap()

func (*serverCommon).RegisterFunctionHandler(sf, fc, f)
  nopanic [C27]
  frame [C27]
  requires !isnil(sf.function)
  modifies sf.function[]
  case ignored: isnil(f)
    [C27] new(sf.function) =~ sf.function
  case taken: otherwise
    [C27] new(sf.function) =~ put(sf.function, fc, f)

func (*serverCommon).GetNode(sf, id) (node, err)
  nopanic [C27]
  frame [C27]
  case found: has(sf.node, id)
    [C27] err == nil && node == sf.node[id]
  case missing: otherwise
    [C27] err != nil && isnil(node)

func (*serverCommon).DeleteNode(sf, id)
  nopanic [C27]
  frame [C27]
  modifies sf.node
  [C27] new(sf.node) =~ del(sf.node, id)

# AddNodes, for calls with up to three nodes (longer calls: bounded, by the harness)
func lemmaAdd0(sf)
  requires !isnil(sf)
  nopanic [C27]
  frame [C27]
  modifies sf.node
  [C27] new(sf.node) =~ sf.node

func lemmaAdd1(sf, a)
  requires !isnil(sf) && !isnil(a)
  nopanic [C27]
  takes a.rw
  frame [C27]
  modifies sf.node
  [C27] new(sf.node) =~ put(sf.node, a.slaveID, a)

func lemmaAdd2(sf, a, b)
  requires !isnil(sf) && !isnil(a) && !isnil(b)
  nopanic [C27]
  takes a.rw
  takes b.rw
  frame [C27]
  modifies sf.node
  [C27] new(sf.node) =~ put(put(sf.node, a.slaveID, a), b.slaveID, b)

func lemmaAdd3(sf, a, b, c)
  requires !isnil(sf) && !isnil(a) && !isnil(b) && !isnil(c)
  nopanic [C27]
  takes a.rw
  takes b.rw
  takes c.rw
  frame [C27]
  modifies sf.node
  [C27] new(sf.node) =~ put(put(put(sf.node, a.slaveID, a), b.slaveID, b), c.slaveID, c)

func (*serverCommon).DeleteAllNode(sf)
  nopanic [C27]
  frame [C27]
  modifies sf.node
  [C27] new(sf.node) =~ emptymap()
