# generated by tools/gen_e2e.py
# End to end: a client operation against the node it addresses.
func (*lemmaLoop).Send(p, id, req) (res, err)
  inline

func lemmaE2EReadCoils(node, id, addr, q) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 2000
  unfold (*client).ReadCoils
  unfold funcReadCoils
  unfold readBits
  takes node.rw
  nopanic [C26]
  frame [C26]
  case there: inr(addr, q, node.coilsAddrStart, node.coilsQuantity)
    [C26] err == nil
    [C26] res =~ getbits(node.coils, addr - node.coilsAddrStart, q)
  case outside: otherwise
    [C26] exc(err, 2)

func lemmaE2EReadDiscreteInputs(node, id, addr, q) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 2000
  unfold (*client).ReadDiscreteInputs
  unfold funcReadDiscreteInputs
  unfold readBits
  takes node.rw
  nopanic [C26]
  frame [C26]
  case there: inr(addr, q, node.discreteAddrStart, node.discreteQuantity)
    [C26] err == nil
    [C26] res =~ getbits(node.discrete, addr - node.discreteAddrStart, q)
  case outside: otherwise
    [C26] exc(err, 2)

func lemmaE2EReadInputRegistersBytes(node, id, addr, q) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 125
  unfold (*client).ReadInputRegistersBytes
  unfold funcReadInputRegisters
  unfold readRegisters
  takes node.rw
  nopanic [C26]
  frame [C26]
  case there: inr(addr, q, node.inputAddrStart, len(node.input))
    [C26] err == nil
    [C26] res =~ bebytes(node.input[addr - node.inputAddrStart:addr - node.inputAddrStart + q])
  case outside: otherwise
    [C26] exc(err, 2)

func lemmaE2EReadInputRegisters(node, id, addr, q) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 125
  unfold (*client).ReadInputRegisters
  unfold funcReadInputRegisters
  unfold readRegisters
  unfold (*client).ReadInputRegistersBytes
  takes node.rw
  nopanic [C26]
  frame [C26]
  case there: inr(addr, q, node.inputAddrStart, len(node.input))
    [C26] err == nil
    [C26] res =~ node.input[addr - node.inputAddrStart:addr - node.inputAddrStart + q]
  case outside: otherwise
    [C26] exc(err, 2)

func lemmaE2EReadHoldingRegistersBytes(node, id, addr, q) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 125
  unfold (*client).ReadHoldingRegistersBytes
  unfold funcReadHoldingRegisters
  unfold readRegisters
  takes node.rw
  nopanic [C26]
  frame [C26]
  case there: inr(addr, q, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] res =~ bebytes(node.holding[addr - node.holdingAddrStart:addr - node.holdingAddrStart + q])
  case outside: otherwise
    [C26] exc(err, 2)

func lemmaE2EReadHoldingRegisters(node, id, addr, q) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 125
  unfold (*client).ReadHoldingRegisters
  unfold funcReadHoldingRegisters
  unfold readRegisters
  unfold (*client).ReadHoldingRegistersBytes
  takes node.rw
  nopanic [C26]
  frame [C26]
  case there: inr(addr, q, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] res =~ node.holding[addr - node.holdingAddrStart:addr - node.holdingAddrStart + q]
  case outside: otherwise
    [C26] exc(err, 2)

func lemmaE2EWriteSingleCoil(node, id, addr, on) (err)
  requires !isnil(node) && id >= 1 && id <= 247
  unfold (*client).WriteSingleCoil
  unfold funcWriteSingleCoil
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.coils[]
  case there: inr(addr, 1, node.coilsAddrStart, node.coilsQuantity)
    [C26] err == nil
    [C26] new(node.coils) =~ setbits(node.coils, addr - node.coilsAddrStart, 1, bytes(on ? 1 : 0))
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.coils) =~ node.coils

func lemmaE2EWriteMultipleCoils(node, id, addr, q, val) (err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 1968 && len(val) * 8 >= q
  unfold (*client).WriteMultipleCoils
  unfold funcWriteMultiCoils
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.coils[]
  case there: inr(addr, q, node.coilsAddrStart, node.coilsQuantity)
    [C26] err == nil
    [C26] new(node.coils) =~ setbits(node.coils, addr - node.coilsAddrStart, q, val)
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.coils) =~ node.coils

func lemmaE2EWriteSingleRegister(node, id, addr, v) (err)
  requires !isnil(node) && id >= 1 && id <= 247
  unfold (*client).WriteSingleRegister
  unfold funcWriteSingleRegister
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.holding[]
  case there: inr(addr, 1, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] new(node.holding) =~ upd(node.holding, addr - node.holdingAddrStart, mk16(1, j => v))
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.holding) =~ node.holding

func lemmaE2EWriteMultipleRegistersBytes(node, id, addr, q, val) (err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 123 && len(val) == 2 * q
  unfold (*client).WriteMultipleRegistersBytes
  unfold funcWriteMultiHoldingRegisters
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.holding[]
  case there: inr(addr, q, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] new(node.holding) =~ upd(node.holding, addr - node.holdingAddrStart, words(val))
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.holding) =~ node.holding

func lemmaE2EWriteMultipleRegisters(node, id, addr, q, val) (err)
  requires !isnil(node) && id >= 1 && id <= 247 && q >= 1 && q <= 123 && len(val) == q
  unfold (*client).WriteMultipleRegisters
  unfold funcWriteMultiHoldingRegisters
  unfold (*client).WriteMultipleRegistersBytes
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.holding[]
  case there: inr(addr, q, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] new(node.holding) =~ upd(node.holding, addr - node.holdingAddrStart, val)
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.holding) =~ node.holding

func lemmaE2EMaskWriteRegister(node, id, addr, and, or) (err)
  requires !isnil(node) && id >= 1 && id <= 247
  unfold (*client).MaskWriteRegister
  unfold funcMaskWriteRegisters
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.holding[]
  case there: inr(addr, 1, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] new(node.holding) =~ upd(node.holding, addr - node.holdingAddrStart, mk16(1, j => (node.holding[addr - node.holdingAddrStart] & and) | (or & ~and)))
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.holding) =~ node.holding

func lemmaE2EReadWriteMultipleRegistersBytes(node, id, ra, rq, wa, wq, val) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && rq >= 1 && rq <= 125 && wq >= 1 && wq <= 121 && len(val) == 2 * wq
  unfold (*client).ReadWriteMultipleRegistersBytes
  unfold funcReadWriteMultiHoldingRegisters
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.holding[]
  case there: inr(ra, rq, node.holdingAddrStart, len(node.holding)) && inr(wa, wq, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] new(node.holding) =~ upd(node.holding, wa - node.holdingAddrStart, words(val))
    [C26] res =~ bebytes(new(node.holding)[ra - node.holdingAddrStart:ra - node.holdingAddrStart + rq])
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.holding) =~ node.holding

func lemmaE2EReadWriteMultipleRegisters(node, id, ra, rq, wa, wq, val) (res, err)
  requires !isnil(node) && id >= 1 && id <= 247 && rq >= 1 && rq <= 125 && wq >= 1 && wq <= 121 && len(val) == 2 * wq
  unfold (*client).ReadWriteMultipleRegisters
  unfold funcReadWriteMultiHoldingRegisters
  unfold (*client).ReadWriteMultipleRegistersBytes
  takes node.rw
  nopanic [C26]
  frame [C26]
  modifies node.holding[]
  case there: inr(ra, rq, node.holdingAddrStart, len(node.holding)) && inr(wa, wq, node.holdingAddrStart, len(node.holding))
    [C26] err == nil
    [C26] new(node.holding) =~ upd(node.holding, wa - node.holdingAddrStart, words(val))
    [C26] res =~ new(node.holding)[ra - node.holdingAddrStart:ra - node.holdingAddrStart + rq]
  case outside: otherwise
    [C26] exc(err, 2)
    [C26] new(node.holding) =~ node.holding
