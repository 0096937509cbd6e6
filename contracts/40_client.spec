# What a client hands to its provider, and what the provider answers.
ghost sends int
ghost sentSlave int
ghost sentFunc int
ghost sentData bytes
ghost rspErr err
ghost rspData bytes

spec sent1(id, fc) = new(g.sends) == g.sends + 1 && new(g.sentSlave) == id && new(g.sentFunc) == fc
spec rspOK() = isnil(new(g.rspErr))
spec rlen() = len(new(g.rspData))
spec r16(i) = u16(new(g.rspData), i)
spec r8(i) = new(g.rspData)[i]

# A provider transmits the request and reports the answer. The three
# providers in this repository are verified against the same clauses
# (65_rtusend.spec, 75_asciisend.spec, 80_tcpclient.spec).
iface ClientProvider.Send(slaveID, request) (response, err)
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  new(g.sends) == g.sends + 1
  new(g.sentSlave) == slaveID
  new(g.sentFunc) == request.FuncCode
  new(g.sentData) =~ request.Data
  new(g.rspErr) == err
  new(g.rspData) =~ response.Data
  err == nil ==> len(response.Data) >= 1 && response.FuncCode == request.FuncCode

func uint162Bytes(value) (res)
  nopanic [C01]
  frame [C01]
  [C01] res =~ bebytes(value)

func bytes2Uint16(buf) (res)
  nopanic [C03]
  frame [C03]
  [C03] res =~ words(buf)

func pduDataBlockSuffix(suffix, value) (res)
  requires len(suffix) <= 65535 && len(value) <= 65535
  nopanic [C01]
  frame [C01]
  [C01] res =~ cat(bebytes(value), bytes(trunc8(len(suffix))), suffix)

func responseError(response) (err)
  nopanic [C05,C06]
  frame [C05,C06]
  [C05,C06] exc(err, len(response.Data) > 0 ? response.Data[0] : 0)

func (*client).ReadCoils(sf, id, addr, q) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && q >= 1 && q <= 2000)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 1)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q))
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == (q + 7) / 8 ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == (q + 7) / 8 ==> res =~ new(g.rspData)[1:]
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == (q + 7) / 8) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).ReadDiscreteInputs(sf, id, addr, q) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && q >= 1 && q <= 2000)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 2)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q))
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == (q + 7) / 8 ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == (q + 7) / 8 ==> res =~ new(g.rspData)[1:]
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == (q + 7) / 8) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).ReadInputRegistersBytes(sf, id, addr, q) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && q >= 1 && q <= 125)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 4)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q))
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> res =~ new(g.rspData)[1:]
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).ReadInputRegisters(sf, id, addr, q) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && q >= 1 && q <= 125)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 4)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q))
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> res =~ words(new(g.rspData)[1:])
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).ReadHoldingRegistersBytes(sf, id, addr, q) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && q >= 1 && q <= 125)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 3)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q))
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> res =~ new(g.rspData)[1:]
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).ReadHoldingRegisters(sf, id, addr, q) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && q >= 1 && q <= 125)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 3)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q))
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q ==> res =~ words(new(g.rspData)[1:])
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * q) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).WriteSingleCoil(sf, id, addr, on) (err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id <= sf.addressMax)
    [C02] err != nil && new(g.sends) == g.sends
  case sent: otherwise
    [C01,C02] sent1(id, 5)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(on ? 0xFF00 : 0))
    [C04] (err == nil) == (rspOK() && rlen() == 4 && r16(0) == addr && r16(2) == (on ? 0xFF00 : 0))

func (*client).WriteSingleRegister(sf, id, addr, v) (err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id <= sf.addressMax)
    [C02] err != nil && new(g.sends) == g.sends
  case sent: otherwise
    [C01,C02] sent1(id, 6)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(v))
    [C04] (err == nil) == (rspOK() && rlen() == 4 && r16(0) == addr && r16(2) == v)

func (*client).WriteMultipleCoils(sf, id, addr, q, val) (err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id <= sf.addressMax && q >= 1 && q <= 1968 && len(val) * 8 >= q)
    [C02] err != nil && new(g.sends) == g.sends
  case sent: otherwise
    [C01,C02] sent1(id, 15)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q), bytes((q + 7) / 8), val[:(q + 7) / 8])
    [C04] (err == nil) == (rspOK() && rlen() == 4 && r16(0) == addr && r16(2) == q)

func (*client).WriteMultipleRegistersBytes(sf, id, addr, q, val) (err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id <= sf.addressMax && q >= 1 && q <= 123 && len(val) == 2 * q)
    [C02] err != nil && new(g.sends) == g.sends
  case sent: otherwise
    [C01,C02] sent1(id, 16)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q), bytes(2 * q), val)
    [C04] (err == nil) == (rspOK() && rlen() == 4 && r16(0) == addr && r16(2) == q)

func (*client).WriteMultipleRegisters(sf, id, addr, q, val) (err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id <= sf.addressMax && q >= 1 && q <= 123 && len(val) == q)
    [C02] err != nil && new(g.sends) == g.sends
  case sent: otherwise
    [C01,C02] sent1(id, 16)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(q), bytes(2 * q), bebytes(val))
    [C04] (err == nil) == (rspOK() && rlen() == 4 && r16(0) == addr && r16(2) == q)

func (*client).MaskWriteRegister(sf, id, addr, and, or) (err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id <= sf.addressMax)
    [C02] err != nil && new(g.sends) == g.sends
  case sent: otherwise
    [C01,C02] sent1(id, 22)
    [C01] new(g.sentData) =~ cat(be16(addr), be16(and), be16(or))
    [C04] (err == nil) == (rspOK() && rlen() == 6 && r16(0) == addr && r16(2) == and && r16(4) == or)

func (*client).ReadWriteMultipleRegistersBytes(sf, id, ra, rq, wa, wq, val) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && rq >= 1 && rq <= 125 && wq >= 1 && wq <= 121 && len(val) == 2 * wq)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 23)
    [C01] new(g.sentData) =~ cat(be16(ra), be16(rq), be16(wa), be16(wq), bytes(2 * wq), val)
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * rq ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * rq ==> res =~ new(g.rspData)[1:]
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * rq) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).ReadWriteMultipleRegisters(sf, id, ra, rq, wa, wq, val) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax && rq >= 1 && rq <= 125 && wq >= 1 && wq <= 121 && len(val) == 2 * wq)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 23)
    [C01] new(g.sentData) =~ cat(be16(ra), be16(rq), be16(wa), be16(wq), bytes(2 * wq), val)
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * rq ==> err == nil
    [C03] rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * rq ==> res =~ words(new(g.rspData)[1:])
    [C03] !(rspOK() && rlen() - 1 == r8(0) && r8(0) == 2 * rq) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

func (*client).ReadFIFOQueue(sf, id, addr) (res, err)
  requires !isnil(sf.ClientProvider)
  nopanic [C02,C03,C04]
  frame [C02]
  modifies g.sends, g.sentSlave, g.sentFunc, g.sentData, g.rspErr, g.rspData
  case refused: !(id >= sf.addressMin && id <= sf.addressMax)
    [C02] err != nil && new(g.sends) == g.sends && isnil(res)
  case sent: otherwise
    [C01,C02] sent1(id, 24)
    [C01] new(g.sentData) =~ be16(addr)
    [C03] rspOK() && rlen() >= 4 && r16(0) == rlen() - 2 && r16(2) <= 31 && rlen() - 4 == 2 * r16(2) ==> err == nil
    [C03] rspOK() && rlen() >= 4 && r16(0) == rlen() - 2 && r16(2) <= 31 && rlen() - 4 == 2 * r16(2) ==> res =~ new(g.rspData)[4:]
    [C03] !(rspOK() && rlen() >= 4 && r16(0) == rlen() - 2 && r16(2) <= 31 && rlen() - 4 == 2 * r16(2)) ==> err != nil && isnil(res)
    [C03] !rspOK() ==> err == new(g.rspErr)

