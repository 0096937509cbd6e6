# generated by tools/gen_handlers_spec.py
# The handlers of the ten function codes: data is the request without its function code.

func funcReadCoils(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  let a = u16(data, 0)
  let q = u16(data, 2)
  case malformed: len(data) != 4 || q < 1 || q > 2000
    [C22] exc(err, 3)
  case outside: !(len(data) != 4 || q < 1 || q > 2000) && !(inr(a, q, reg.coilsAddrStart, reg.coilsQuantity))
    [C22] exc(err, 2)
  case good: otherwise
    [C22,C23] err == nil
    [C23] res =~ cat(bytes((q + 7) / 8), getbits(reg.coils, a - reg.coilsAddrStart, q))
    [C24] len(res) <= 252

func funcReadDiscreteInputs(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  let a = u16(data, 0)
  let q = u16(data, 2)
  case malformed: len(data) != 4 || q < 1 || q > 2000
    [C22] exc(err, 3)
  case outside: !(len(data) != 4 || q < 1 || q > 2000) && !(inr(a, q, reg.discreteAddrStart, reg.discreteQuantity))
    [C22] exc(err, 2)
  case good: otherwise
    [C22,C23] err == nil
    [C23] res =~ cat(bytes((q + 7) / 8), getbits(reg.discrete, a - reg.discreteAddrStart, q))
    [C24] len(res) <= 252

func funcReadHoldingRegisters(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  let a = u16(data, 0)
  let q = u16(data, 2)
  case malformed: len(data) != 4 || q < 1 || q > 125
    [C22] exc(err, 3)
  case outside: !(len(data) != 4 || q < 1 || q > 125) && !(inr(a, q, reg.holdingAddrStart, len(reg.holding)))
    [C22] exc(err, 2)
  case good: otherwise
    [C22,C23] err == nil
    [C23] res =~ cat(bytes(2 * q), bebytes(reg.holding[a - reg.holdingAddrStart:a - reg.holdingAddrStart + q]))
    [C24] len(res) <= 252

func funcReadInputRegisters(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  let a = u16(data, 0)
  let q = u16(data, 2)
  case malformed: len(data) != 4 || q < 1 || q > 125
    [C22] exc(err, 3)
  case outside: !(len(data) != 4 || q < 1 || q > 125) && !(inr(a, q, reg.inputAddrStart, len(reg.input)))
    [C22] exc(err, 2)
  case good: otherwise
    [C22,C23] err == nil
    [C23] res =~ cat(bytes(2 * q), bebytes(reg.input[a - reg.inputAddrStart:a - reg.inputAddrStart + q]))
    [C24] len(res) <= 252

func funcWriteSingleCoil(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  modifies reg.coils[]
  let a = u16(data, 0)
  let v = u16(data, 2)
  case malformed: len(data) != 4 || v != 0xFF00 && v != 0
    [C22] exc(err, 3)
    [C22] new(reg.coils) =~ reg.coils
  case outside: !(len(data) != 4 || v != 0xFF00 && v != 0) && !(inr(a, 1, reg.coilsAddrStart, reg.coilsQuantity))
    [C22] exc(err, 2)
    [C22] new(reg.coils) =~ reg.coils
  case good: otherwise
    [C22,C23] err == nil
    [C23] new(reg.coils) =~ setbits(reg.coils, a - reg.coilsAddrStart, 1, bytes(v == 0xFF00 ? 1 : 0))
    [C23] res =~ data[0:4]
    [C24] len(res) <= 252

func funcWriteMultiCoils(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  modifies reg.coils[]
  let a = u16(data, 0)
  let q = u16(data, 2)
  case malformed: len(data) < 5 || q < 1 || q > 1968 || data[4] != (q + 7) / 8 || data[4] != len(data) - 5
    [C22] exc(err, 3)
    [C22] new(reg.coils) =~ reg.coils
  case outside: !(len(data) < 5 || q < 1 || q > 1968 || data[4] != (q + 7) / 8 || data[4] != len(data) - 5) && !(inr(a, q, reg.coilsAddrStart, reg.coilsQuantity))
    [C22] exc(err, 2)
    [C22] new(reg.coils) =~ reg.coils
  case good: otherwise
    [C22,C23] err == nil
    [C23] new(reg.coils) =~ setbits(reg.coils, a - reg.coilsAddrStart, q, data[5:])
    [C23] res =~ data[0:4]
    [C24] len(res) <= 252

func funcWriteSingleRegister(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  modifies reg.holding[]
  let a = u16(data, 0)
  case malformed: len(data) != 4
    [C22] exc(err, 3)
    [C22] new(reg.holding) =~ reg.holding
  case outside: !(len(data) != 4) && !(inr(a, 1, reg.holdingAddrStart, len(reg.holding)))
    [C22] exc(err, 2)
    [C22] new(reg.holding) =~ reg.holding
  case good: otherwise
    [C22,C23] err == nil
    [C23] new(reg.holding) =~ upd(reg.holding, a - reg.holdingAddrStart, words(data[2:4]))
    [C23] res =~ data[0:4]
    [C24] len(res) <= 252

func funcWriteMultiHoldingRegisters(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  modifies reg.holding[]
  let a = u16(data, 0)
  let q = u16(data, 2)
  case malformed: len(data) < 5 || q < 1 || q > 123 || data[4] != 2 * q || data[4] != len(data) - 5
    [C22] exc(err, 3)
    [C22] new(reg.holding) =~ reg.holding
  case outside: !(len(data) < 5 || q < 1 || q > 123 || data[4] != 2 * q || data[4] != len(data) - 5) && !(inr(a, q, reg.holdingAddrStart, len(reg.holding)))
    [C22] exc(err, 2)
    [C22] new(reg.holding) =~ reg.holding
  case good: otherwise
    [C22,C23] err == nil
    [C23] new(reg.holding) =~ upd(reg.holding, a - reg.holdingAddrStart, words(data[5:]))
    [C23] res =~ data[0:4]
    [C24] len(res) <= 252

func funcMaskWriteRegisters(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22,C18]
  mayalias res: data
  modifies reg.holding[]
  let a = u16(data, 0)
  let and = u16(data, 2)
  let or = u16(data, 4)
  let i = a - reg.holdingAddrStart
  case malformed: len(data) != 6
    [C22] exc(err, 3)
    [C22] new(reg.holding) =~ reg.holding
  case outside: !(len(data) != 6) && !(inr(a, 1, reg.holdingAddrStart, len(reg.holding)))
    [C22,C18] exc(err, 2)
    [C22,C18] new(reg.holding) =~ reg.holding
  case good: otherwise
    [C22,C23,C18] err == nil
    [C23,C18] new(reg.holding) =~ upd(reg.holding, i, mk16(1, j => (reg.holding[i] & and) | (or & ~and)))
    [C23] res =~ data[0:6]
    [C24] len(res) <= 252

func funcReadWriteMultiHoldingRegisters(reg, data) (res, err)
  requires !isnil(reg)
  nopanic [C22]
  takes reg.rw
  frame [C22]
  mayalias res: data
  modifies reg.holding[]
  let ra = u16(data, 0)
  let rq = u16(data, 2)
  let wa = u16(data, 4)
  let wq = u16(data, 6)
  case malformed: len(data) < 9 || rq < 1 || rq > 125 || wq < 1 || wq > 121 || data[8] != 2 * wq || data[8] != len(data) - 9
    [C22] exc(err, 3)
    [C22] new(reg.holding) =~ reg.holding
  case outside: !(len(data) < 9 || rq < 1 || rq > 125 || wq < 1 || wq > 121 || data[8] != 2 * wq || data[8] != len(data) - 9) && !(inr(ra, rq, reg.holdingAddrStart, len(reg.holding)) && inr(wa, wq, reg.holdingAddrStart, len(reg.holding)))
    [C22] exc(err, 2)
    [C22] new(reg.holding) =~ reg.holding
  case good: otherwise
    [C22,C23] err == nil
    [C23] new(reg.holding) =~ upd(reg.holding, wa - reg.holdingAddrStart, words(data[9:]))
    [C23] res =~ cat(bytes(2 * rq), bebytes(new(reg.holding)[ra - reg.holdingAddrStart:ra - reg.holdingAddrStart + rq]))
    [C24] len(res) <= 252
