#!/usr/bin/env python3
"""Writes contracts/30_register.spec (the eighteen table operations have one shape)."""
o = []
w = o.append
w('''# generated by tools/gen_register_spec.py
spec inr(a, q, s, n) = a >= s && a + q <= s + n

type NodeRegister
  inv len(self.coils) == (self.coilsQuantity + 7) / 8
  inv len(self.discrete) == (self.discreteQuantity + 7) / 8
  inv len(self.input) <= 65535
  inv len(self.holding) <= 65535
  guard rw: slaveID
  guardelems rw: coils, discrete, input, holding

func NewNodeRegister(id, cs, cq, ds, dq, is, iq, hs, hq) (res)
  nopanic [C21]
  frame [C21]
  typeinv [C21]
  [C21] !isnil(res) && new(res.slaveID) == id
  [C21] new(res.coilsAddrStart) == cs && new(res.coilsQuantity) == cq && len(new(res.coils)) == (cq + 7) / 8
  [C21] new(res.discreteAddrStart) == ds && new(res.discreteQuantity) == dq && len(new(res.discrete)) == (dq + 7) / 8
  [C21] new(res.inputAddrStart) == is && len(new(res.input)) == iq
  [C21] new(res.holdingAddrStart) == hs && len(new(res.holding)) == hq
  [C21] new(res.coils) =~ rep((cq + 7) / 8, 0)
  [C21] new(res.discrete) =~ rep((dq + 7) / 8, 0)
  [C21] new(res.input) =~ rep16(iq, 0)
  [C21] new(res.holding) =~ rep16(hq, 0)
  [C21] disjoint(new(res.coils), new(res.discrete)) && disjoint(new(res.input), new(res.holding))
  [C21] fresh(res)

func (*NodeRegister).SlaveID(sf) (res)
  nopanic [C20]
  frame [C20]
  locks [C20] sf.rw
  guard [C20]
  [C20,C21] res == sf.slaveID

func (*NodeRegister).SetSlaveID(sf, id) (res)
  nopanic [C20]
  frame [C20]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.slaveID
  [C20] new(sf.slaveID) == id
  [C20] res == sf
''')
for fn, s, q in (('CoilsAddrParam', 'coilsAddrStart', 'sf.coilsQuantity'), ('DiscreteParam', 'discreteAddrStart', 'sf.discreteQuantity'),
                 ('InputAddrParam', 'inputAddrStart', 'len(sf.input)'), ('HoldingAddrParam', 'holdingAddrStart', 'len(sf.holding)')):
    w(f'''func (*NodeRegister).{fn}(sf) (start, quantity)
  nopanic [C21]
  frame [C21]
  [C21] start == sf.{s} && quantity == {q}
''')
w('''func getBits(buf, start, n) (res)
  requires n >= 1 && n <= 8 && start + n <= len(buf) * 8
  nopanic [C16]
  frame [C16]
  loop $w16 == getbits(buf, start, $k)[0]
  [C16] res == getbits(buf, start, n)[0]

func setBits(buf, start, n, value) ()
  requires n >= 1 && n <= 8 && start + n <= len(buf) * 8
  nopanic [C16]
  frame [C16]
  modifies buf[]
  loop new(buf) =~ setbits(buf, start, $k, bytes(value))
  [C16] new(buf) =~ setbits(buf, start, n, bytes(value))
''')
for one, many, f, s, q in (('Coil', 'Coils', 'coils', 'coilsAddrStart', 'coilsQuantity'), ('Discrete', 'Discretes', 'discrete', 'discreteAddrStart', 'discreteQuantity')):
    IN = f'inr(address, q, sf.{s}, sf.{q})'
    IN1 = f'inr(address, 1, sf.{s}, sf.{q})'
    w(f'''func (*NodeRegister).Write{many}(sf, address, q, val) (err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.{f}[]
  loop new(sf.{f}) =~ setbits(sf.{f}, address - sf.{s}, min(8 * $k, q), val)
  loop new(sf.{f}) =~ setbits(sf.{f}, address - sf.{s}, $k, val)
  case in: {IN} && len(val) * 8 >= q
    [C16,C19] err == nil
    [C16] new(sf.{f}) =~ setbits(sf.{f}, address - sf.{s}, q, val)
  case outside: !{IN}
    [C19] exc(err, 2)
    [C19] new(sf.{f}) =~ sf.{f}
  case short: otherwise
    exc(err, 2)
    new(sf.{f}) =~ sf.{f}

func (*NodeRegister).Read{many}(sf, address, q) (res, err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: {IN}
    [C16,C19] err == nil
    [C16] res =~ getbits(sf.{f}, address - sf.{s}, q)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).WriteSingle{one}(sf, address, val) (err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.{f}[]
  case in: {IN1}
    [C16,C19] err == nil
    [C16] new(sf.{f}) =~ setbits(sf.{f}, address - sf.{s}, 1, bytes(val ? 1 : 0))
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] new(sf.{f}) =~ sf.{f}

func (*NodeRegister).ReadSingle{one}(sf, address) (res, err)
  nopanic [C16,C19]
  frame [C16,C19]
  locks [C20] sf.rw
  guard [C20]
  case in: {IN1}
    [C16,C19] err == nil
    [C16] res == (bit(sf.{f}, address - sf.{s}) == 1)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] !res
''')
for many, f, s in (('Holdings', 'holding', 'holdingAddrStart'), ('Inputs', 'input', 'inputAddrStart')):
    IN = f'inr(address, q, sf.{s}, len(sf.{f}))'
    o_ = f'address - sf.{s}'
    w(f'''func (*NodeRegister).Write{many}Bytes(sf, address, q, val) (err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.{f}[]
  case in: {IN} && len(val) == q * 2
    [C17,C19] err == nil
    [C17] new(sf.{f}) =~ upd(sf.{f}, {o_}, words(val))
  case outside: !{IN}
    [C19] exc(err, 2)
    [C19] new(sf.{f}) =~ sf.{f}
  case size: otherwise
    [C17] exc(err)
    [C17] new(sf.{f}) =~ sf.{f}

func (*NodeRegister).Write{many}(sf, address, val) (err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.{f}[]
  case in: inr(address, len(val), sf.{s}, len(sf.{f}))
    [C17,C19] err == nil
    [C17] new(sf.{f}) =~ upd(sf.{f}, {o_}, val)
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] new(sf.{f}) =~ sf.{f}

func (*NodeRegister).Read{many}Bytes(sf, address, q) (res, err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: {IN}
    [C17,C19] err == nil
    [C17] res =~ bebytes(sf.{f}[{o_}:{o_} + q])
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)

func (*NodeRegister).Read{many}(sf, address, q) (res, err)
  nopanic [C17,C19]
  frame [C17,C19]
  locks [C20] sf.rw
  guard [C20]
  [C20] noshare(res)
  case in: {IN}
    [C17,C19] err == nil
    [C17] res =~ sf.{f}[{o_}:{o_} + q]
  case outside: otherwise
    [C19] exc(err, 2)
    [C19] isnil(res)
''')
w('''func (*NodeRegister).MaskWriteHolding(sf, address, and, or) (err)
  nopanic [C18,C19]
  frame [C18,C19]
  locks [C20] sf.rw
  guard [C20]
  modifies sf.holding[]
  let i = address - sf.holdingAddrStart
  case in: inr(address, 1, sf.holdingAddrStart, len(sf.holding))
    [C18,C19] err == nil
    [C18] new(sf.holding) =~ upd(sf.holding, i, mk16(1, j => (sf.holding[i] & and) | (or & ~and)))
  case outside: otherwise
    [C18,C19] exc(err, 2)
    [C18,C19] new(sf.holding) =~ sf.holding
''')
open('/verif/contracts/30_register.spec', 'w').write('\n'.join(o))
