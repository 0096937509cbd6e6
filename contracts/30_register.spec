# generated by tools/gen_register_spec.py
spec inr(a, q, s, n) = a >= s && a + q <= s + n

type NodeRegister
  inv len(self.coils) == (self.coilsQuantity + 7) / 8
  inv len(self.discrete) == (self.discreteQuantity + 7) / 8
  inv len(self.input) <= 65535
  inv len(self.holding) <= 65535
  guard rw: slaveID
  guardelems rw: coils, discrete, input, holding

func NewNodeRegister(id, cs, cq, ds, dq, is, iq, hs, hq) (res)
  nopanic [C21]
  frame [C21]
  typeinv [C21]
  [C21] !isnil(res) && new(res.slaveID) == id
  [C21] new(res.coilsAddrStart) == cs && new(res.coilsQuantity) == cq && len(new(res.coils)) == (cq + 7) / 8
  [C21] new(res.discreteAddrStart) == ds && new(res.discreteQuantity) == dq && len(new(res.discrete)) == (dq + 7) / 8
  [C21] new(res.inputAddrStart) == is && len(new(res.input)) == iq
  [C21] new(res.holdingAddrStart) == hs && len(new(res.holding)) == hq
  [C21] new(res.coils) =~ rep((cq + 7) / 8, 0)
  [C21] new(res.discrete) =~ rep((dq + 7) / 8, 0)
  [C21] new(res.input) =~ rep16(iq, 0)
  [C21] new(res.holding) =~ rep16(hq, 0)
  [C21] disjoint(new(res.coils), new(res.discrete)) && disjoint(new(res.input), new(res.holding))
  [C21] fresh(res)

func (*NodeRegister).SlaveID(sf) (res)
  nopanic [C20]
  frame [C20]
  locks [C20] sf.rw
  guard [C20]
  [C20,C21] res == sf.slaveID

func (*NodeRegister).SetSlaveID(sf, id) (res)
  nopanic [C20]
  frame [C20]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.slaveID
  [C20] new(sf.slaveID) == id
  [C20] res == sf

func (*NodeRegister).CoilsAddrParam(sf) (start, quantity)
  nopanic [C21]
  frame [C21]
  [C21] start == sf.coilsAddrStart && quantity == sf.coilsQuantity

func (*NodeRegister).DiscreteParam(sf) (start, quantity)
  nopanic [C21]
  frame [C21]
  [C21] start == sf.discreteAddrStart && quantity == sf.discreteQuantity

func (*NodeRegister).InputAddrParam(sf) (start, quantity)
  nopanic [C21]
  frame [C21]
  [C21] start == sf.inputAddrStart && quantity == len(sf.input)

func (*NodeRegister).HoldingAddrParam(sf) (start, quantity)
  nopanic [C21]
  frame [C21]
  [C21] start == sf.holdingAddrStart && quantity == len(sf.holding)

func getBits(buf, start, n) (res)
  requires n >= 1 && n <= 8 && start + n <= len(buf) * 8
  nopanic [C16]
  frame [C16]
  loop $w16 == getbits(buf, start, $k)[0]
  [C16] res == getbits(buf, start, n)[0]

func setBits(buf, start, n, value) ()
  requires n >= 1 && n <= 8 && start + n <= len(buf) * 8
  nopanic [C16]
  frame [C16]
  modifies buf[]
  loop new(buf) =~ setbits(buf, start, $k, bytes(value))
  [C16] new(buf) =~ setbits(buf, start, n, bytes(value))

func (*NodeRegister).WriteCoils(sf, address, q, val) (err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.coils[]
  loop new(sf.coils) =~ setbits(sf.coils, address - sf.coilsAddrStart, min(8 * $k, q), val)
  loop new(sf.coils) =~ setbits(sf.coils, address - sf.coilsAddrStart, $k, val)
  case in: inr(address, q, sf.coilsAddrStart, sf.coilsQuantity) && len(val) * 8 >= q
    [C16,C19] err == nil
    [C16] new(sf.coils) =~ setbits(sf.coils, address - sf.coilsAddrStart, q, val)
  case outside: !inr(address, q, sf.coilsAddrStart, sf.coilsQuantity)
    [C19] exc(err, 2)
    [C19] new(sf.coils) =~ sf.coils
  case short: otherwise
    exc(err, 2)
    new(sf.coils) =~ sf.coils

func (*NodeRegister).ReadCoils(sf, address, q) (res, err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: inr(address, q, sf.coilsAddrStart, sf.coilsQuantity)
    [C16,C19] err == nil
    [C16] res =~ getbits(sf.coils, address - sf.coilsAddrStart, q)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).WriteSingleCoil(sf, address, val) (err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.coils[]
  case in: inr(address, 1, sf.coilsAddrStart, sf.coilsQuantity)
    [C16,C19] err == nil
    [C16] new(sf.coils) =~ setbits(sf.coils, address - sf.coilsAddrStart, 1, bytes(val ? 1 : 0))
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] new(sf.coils) =~ sf.coils

func (*NodeRegister).ReadSingleCoil(sf, address) (res, err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  case in: inr(address, 1, sf.coilsAddrStart, sf.coilsQuantity)
    [C16,C19] err == nil
    [C16] res == (bit(sf.coils, address - sf.coilsAddrStart) == 1)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] !res

func (*NodeRegister).WriteDiscretes(sf, address, q, val) (err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.discrete[]
  loop new(sf.discrete) =~ setbits(sf.discrete, address - sf.discreteAddrStart, min(8 * $k, q), val)
  loop new(sf.discrete) =~ setbits(sf.discrete, address - sf.discreteAddrStart, $k, val)
  case in: inr(address, q, sf.discreteAddrStart, sf.discreteQuantity) && len(val) * 8 >= q
    [C16,C19] err == nil
    [C16] new(sf.discrete) =~ setbits(sf.discrete, address - sf.discreteAddrStart, q, val)
  case outside: !inr(address, q, sf.discreteAddrStart, sf.discreteQuantity)
    [C19] exc(err, 2)
    [C19] new(sf.discrete) =~ sf.discrete
  case short: otherwise
    exc(err, 2)
    new(sf.discrete) =~ sf.discrete

func (*NodeRegister).ReadDiscretes(sf, address, q) (res, err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: inr(address, q, sf.discreteAddrStart, sf.discreteQuantity)
    [C16,C19] err == nil
    [C16] res =~ getbits(sf.discrete, address - sf.discreteAddrStart, q)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).WriteSingleDiscrete(sf, address, val) (err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.discrete[]
  case in: inr(address, 1, sf.discreteAddrStart, sf.discreteQuantity)
    [C16,C19] err == nil
    [C16] new(sf.discrete) =~ setbits(sf.discrete, address - sf.discreteAddrStart, 1, bytes(val ? 1 : 0))
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] new(sf.discrete) =~ sf.discrete

func (*NodeRegister).ReadSingleDiscrete(sf, address) (res, err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  case in: inr(address, 1, sf.discreteAddrStart, sf.discreteQuantity)
    [C16,C19] err == nil
    [C16] res == (bit(sf.discrete, address - sf.discreteAddrStart) == 1)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] !res

func (*NodeRegister).WriteHoldingsBytes(sf, address, q, val) (err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.holding[]
  case in: inr(address, q, sf.holdingAddrStart, len(sf.holding)) && len(val) == q * 2
    [C17,C19] err == nil
    [C17] new(sf.holding) =~ upd(sf.holding, address - sf.holdingAddrStart, words(val))
  case outside: !inr(address, q, sf.holdingAddrStart, len(sf.holding))
    [C19] exc(err, 2)
    [C19] new(sf.holding) =~ sf.holding
  case size: otherwise
    [C17] exc(err)
    [C17] new(sf.holding) =~ sf.holding

func (*NodeRegister).WriteHoldings(sf, address, val) (err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.holding[]
  case in: inr(address, len(val), sf.holdingAddrStart, len(sf.holding))
    [C17,C19] err == nil
    [C17] new(sf.holding) =~ upd(sf.holding, address - sf.holdingAddrStart, val)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] new(sf.holding) =~ sf.holding

func (*NodeRegister).ReadHoldingsBytes(sf, address, q) (res, err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: inr(address, q, sf.holdingAddrStart, len(sf.holding))
    [C17,C19] err == nil
    [C17] res =~ bebytes(sf.holding[address - sf.holdingAddrStart:address - sf.holdingAddrStart + q])
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).ReadHoldings(sf, address, q) (res, err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: inr(address, q, sf.holdingAddrStart, len(sf.holding))
    [C17,C19] err == nil
    [C17] res =~ sf.holding[address - sf.holdingAddrStart:address - sf.holdingAddrStart + q]
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).WriteInputsBytes(sf, address, q, val) (err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.input[]
  case in: inr(address, q, sf.inputAddrStart, len(sf.input)) && len(val) == q * 2
    [C17,C19] err == nil
    [C17] new(sf.input) =~ upd(sf.input, address - sf.inputAddrStart, words(val))
  case outside: !inr(address, q, sf.inputAddrStart, len(sf.input))
    [C19] exc(err, 2)
    [C19] new(sf.input) =~ sf.input
  case size: otherwise
    [C17] exc(err)
    [C17] new(sf.input) =~ sf.input

func (*NodeRegister).WriteInputs(sf, address, val) (err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.input[]
  case in: inr(address, len(val), sf.inputAddrStart, len(sf.input))
    [C17,C19] err == nil
    [C17] new(sf.input) =~ upd(sf.input, address - sf.inputAddrStart, val)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] new(sf.input) =~ sf.input

func (*NodeRegister).ReadInputsBytes(sf, address, q) (res, err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: inr(address, q, sf.inputAddrStart, len(sf.input))
    [C17,C19] err == nil
    [C17] res =~ bebytes(sf.input[address - sf.inputAddrStart:address - sf.inputAddrStart + q])
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).ReadInputs(sf, address, q) (res, err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: inr(address, q, sf.inputAddrStart, len(sf.input))
    [C17,C19] err == nil
    [C17] res =~ sf.input[address - sf.inputAddrStart:address - sf.inputAddrStart + q]
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).MaskWriteHolding(sf, address, and, or) (err)
  nopanic [C18,C19]
  frame [C18,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.holding[]
  let i = address - sf.holdingAddrStart
  case in: inr(address, 1, sf.holdingAddrStart, len(sf.holding))
    [C18,C19] err == nil
    [C18] new(sf.holding) =~ upd(sf.holding, i, mk16(1, j => (sf.holding[i] & and) | (or & ~and)))
  case outside: otherwise
    [C18,C19] exc(err, 2)
    [C18,C19] new(sf.holding) =~ sf.holding
