#!/usr/bin/env python3
"""Writes contracts/90_handlers.spec (the ten request handlers)."""
o = []
w = o.append
w('''# generated by tools/gen_handlers_spec.py
# The handlers of the ten function codes: data is the request without its function code.
''')
COILS = ("coils", "reg.coilsAddrStart", "reg.coilsQuantity")
DISC = ("discrete", "reg.discreteAddrStart", "reg.discreteQuantity")
INP = ("input", "reg.inputAddrStart", "len(reg.input)")
HOLD = ("holding", "reg.holdingAddrStart", "len(reg.holding)")
def head(fn, writes=None):
    w(f'''func {fn}(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data''')
    if writes:
        w(f'  modifies reg.{writes}[]')
def kept(t):
    return f'    [C22] new(reg.{t}) =~ reg.{t}' if t else None
def cases(bad, outside, tab, good, writes):
    w(f'  case malformed: {bad}')
    w('    [C22] exc(err, 3)')
    if writes: w(kept(writes))
    w(f'  case outside: !({bad}) && !({outside})')
    w('    [C22] exc(err, 2)')
    if writes: w(kept(writes))
    w('  case good: otherwise')
    w('    [C22,C23] err == nil')
    for g in good: w('    [C23] ' + g)
    w('    [C24] len(res) <= 252')
    w('')
def read(fn, tab, bits):
    t, s, n = tab
    head(fn)
    w('  let a = u16(data, 0)\n  let q = u16(data, 2)')
    mx = 2000 if bits else 125
    res = f'cat(bytes((q + 7) / 8), getbits(reg.{t}, a - {s}, q))' if bits else f'cat(bytes(2 * q), bebytes(reg.{t}[a - {s}:a - {s} + q]))'
    cases(f'len(data) != 4 || q < 1 || q > {mx}', f'inr(a, q, {s}, {n})', tab, [f'res =~ {res}'], None)
read('funcReadCoils', COILS, True)
read('funcReadDiscreteInputs', DISC, True)
read('funcReadHoldingRegisters', HOLD, False)
read('funcReadInputRegisters', INP, False)
t, s, n = COILS
head('funcWriteSingleCoil', t)
w('  let a = u16(data, 0)\n  let v = u16(data, 2)')
cases('len(data) != 4 || v != 0xFF00 && v != 0', f'inr(a, 1, {s}, {n})', COILS,
      [f'new(reg.coils) =~ setbits(reg.coils, a - {s}, 1, bytes(v == 0xFF00 ? 1 : 0))', 'res =~ data[0:4]'], t)
head('funcWriteMultiCoils', t)
w('  let a = u16(data, 0)\n  let q = u16(data, 2)')
cases('len(data) < 5 || q < 1 || q > 1968 || data[4] != (q + 7) / 8 || data[4] != len(data) - 5', f'inr(a, q, {s}, {n})', COILS,
      [f'new(reg.coils) =~ setbits(reg.coils, a - {s}, q, data[5:])', 'res =~ data[0:4]'], t)
t, s, n = HOLD
head('funcWriteSingleRegister', t)
w('  let a = u16(data, 0)')
cases('len(data) != 4', f'inr(a, 1, {s}, {n})', HOLD,
      [f'new(reg.holding) =~ upd(reg.holding, a - {s}, words(data[2:4]))', 'res =~ data[0:4]'], t)
head('funcWriteMultiHoldingRegisters', t)
w('  let a = u16(data, 0)\n  let q = u16(data, 2)')
cases('len(data) < 5 || q < 1 || q > 123 || data[4] != 2 * q || data[4] != len(data) - 5', f'inr(a, q, {s}, {n})', HOLD,
      [f'new(reg.holding) =~ upd(reg.holding, a - {s}, words(data[5:]))', 'res =~ data[0:4]'], t)
head('funcMaskWriteRegisters', t)
w('  let a = u16(data, 0)\n  let and = u16(data, 2)\n  let or = u16(data, 4)\n  let i = a - reg.holdingAddrStart')
cases('len(data) != 6', f'inr(a, 1, {s}, {n})', HOLD,
      ['new(reg.holding) =~ upd(reg.holding, i, mk16(1, j => (reg.holding[i] & and) | (or & ~and)))', 'res =~ data[0:6]'], t)
head('funcReadWriteMultiHoldingRegisters', t)
w('  let ra = u16(data, 0)\n  let rq = u16(data, 2)\n  let wa = u16(data, 4)\n  let wq = u16(data, 6)')
cases('len(data) < 9 || rq < 1 || rq > 125 || wq < 1 || wq > 121 || data[8] != 2 * wq || data[8] != len(data) - 9',
      f'inr(ra, rq, {s}, {n}) && inr(wa, wq, {s}, {n})', HOLD,
      [f'new(reg.holding) =~ upd(reg.holding, wa - {s}, words(data[9:]))', f'res =~ cat(bytes(2 * rq), bebytes(new(reg.holding)[ra - {s}:ra - {s} + rq]))'], t)
open("/verif/contracts/90_handlers.spec", "w").write("\n".join(o))
