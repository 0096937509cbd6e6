# Send and SendPdu of the RTU provider.
# what was written is the request frame, or a part of it when the write failed
spec rtuok(s) = len(s) >= 4 && u16le(s, len(s) - 2) == crc(0xFFFF, s[:len(s) - 2])
spec wrote() = len(new(g.out)) - len(g.out)

func (*RTUClientProvider).Send(sf, id, req) (rsp, err)
  locks [C29] sf.mu
  guard [C29]
  pool [C28]
  nopanic [C05,C08]
  frame [C28]
  modifies sf.port, io, caches
  io [C29] any held(sf.mu)
  [C28] noshare(rsp.Data)
  let n = new(g.inpos) - g.inpos
  let got = g.in[g.inpos:new(g.inpos)]
  let body = cat(bytes(id, req.FuncCode), req.Data)
  [C08] wrote() >= 0 && wrote() <= len(req.Data) + 4
  [C08] err == nil ==> wrote() == len(req.Data) + 4
  [C08] new(g.out) =~ cat(g.out, rtuframe(body)[:wrote()])
  case fits: len(req.Data) <= 252
    [C05] err == nil ==> rsp.FuncCode == req.FuncCode && len(rsp.Data) >= 1
    [C05] err == nil ==> got[0] == id && got[1] == rsp.FuncCode && rsp.Data =~ got[2:n - 2]
    [C05] err == nil ==> u16le(got, n - 2) == crc(0xFFFF, got[:n - 2])
    [C05] new(g.fails) == g.fails && rtuok(got) && got[0] == id && got[1] == req.FuncCode && n >= 5 ==> err == nil
    [C05] new(g.fails) == g.fails && rtuok(got) && got[0] == id && req.FuncCode < 0x80 && got[1] == (req.FuncCode | 0x80) ==> exc(err, n >= 5 ? got[2] : 0)
  case big: otherwise
    [C08,C30] err != nil && new(g.out) =~ g.out && new(g.inpos) == g.inpos

func (*RTUClientProvider).SendPdu(sf, id, req) (rsp, err)
  locks [C29] sf.mu
  guard [C29]
  pool [C28]
  nopanic [C05,C30]
  frame [C28]
  modifies sf.port, io, caches
  io [C29] any held(sf.mu)
  [C28] noshare(rsp)
  let n = new(g.inpos) - g.inpos
  let got = g.in[g.inpos:new(g.inpos)]
  let body = cat(bytes(id), req)
  [C30] wrote() >= 0 && wrote() <= len(req) + 3
  [C30] err == nil ==> wrote() == len(req) + 3
  [C30] new(g.out) =~ cat(g.out, rtuframe(body)[:wrote()])
  case fits: len(req) >= 1 && len(req) <= 253
    [C05] err == nil ==> len(rsp) >= 2 && rsp[0] == req[0]
    [C05,C30] err == nil ==> got[0] == id && rsp =~ got[1:n - 2]
    [C05] err == nil ==> u16le(got, n - 2) == crc(0xFFFF, got[:n - 2])
    [C05] new(g.fails) == g.fails && rtuok(got) && got[0] == id && got[1] == req[0] && n >= 5 ==> err == nil
    [C05] new(g.fails) == g.fails && rtuok(got) && got[0] == id && req[0] < 0x80 && got[1] == (req[0] | 0x80) ==> exc(err, n >= 5 ? got[2] : 0)
  case outside: otherwise
    [C30] err != nil && isnil(rsp) && new(g.out) =~ g.out && new(g.inpos) == g.inpos
