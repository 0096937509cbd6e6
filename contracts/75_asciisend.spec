# Send and SendPdu of the ASCII provider.
spec asciibody(s) = unhex(s[1:len(s) - 2])
spec asciishape(s) = len(s) >= 9 && (len(s) & 1) == 1 && s[0] == 0x3A && s[len(s) - 2] == 13 && s[len(s) - 1] == 10
spec lrcok(b) = b[len(b) - 1] == lrc(b[:len(b) - 1])

func (*ASCIIClientProvider).Send(sf, id, req) (rsp, err)
  locks [C29] sf.mu
  guard [C29]
  pool [C28]
  nopanic [C05,C10]
  frame [C28]
  modifies sf.port, io
  io [C29] any held(sf.mu)
  [C28] noshare(rsp.Data)
  let n = new(g.inpos) - g.inpos
  let got = g.in[g.inpos:new(g.inpos)]
  let raw = asciibody(got)
  let m = (n - 3) / 2
  let body = cat(bytes(id, req.FuncCode), req.Data)
  [C10] wrote() >= 0 && wrote() <= 2 * len(req.Data) + 9
  [C10] err == nil ==> wrote() == 2 * len(req.Data) + 9
  [C10] new(g.out) =~ cat(g.out, asciiframe(body)[:wrote()])
  case fits: len(req.Data) <= 252
    [C05] err == nil ==> rsp.FuncCode == req.FuncCode && len(rsp.Data) >= 1
    [C05] err == nil ==> asciishape(got) && lrcok(raw)
    [C05] err == nil ==> all i in 1..n - 2: ishex(got[i])
    [C05] err == nil ==> raw[0] == id && raw[1] == rsp.FuncCode && rsp.Data =~ raw[2:m - 1]
    [C05] (new(g.fails) == g.fails && asciishape(got) && (all i in 1..n - 2: ishex(got[i])) && lrcok(raw) && raw[0] == id && raw[1] == req.FuncCode && m >= 4) ==> err == nil
    [C05] (new(g.fails) == g.fails && asciishape(got) && (all i in 1..n - 2: ishex(got[i])) && lrcok(raw) && raw[0] == id && req.FuncCode < 0x80 && raw[1] == (req.FuncCode | 0x80)) ==> exc(err, m >= 4 ? raw[2] : 0)
  case big: otherwise
    [C10,C30] err != nil && new(g.out) =~ g.out && new(g.inpos) == g.inpos

func (*ASCIIClientProvider).SendPdu(sf, id, req) (rsp, err)
  locks [C29] sf.mu
  guard [C29]
  pool [C28]
  nopanic [C05,C30]
  frame [C28]
  modifies sf.port, io
  io [C29] any held(sf.mu)
  [C28] noshare(rsp)
  let n = new(g.inpos) - g.inpos
  let got = g.in[g.inpos:new(g.inpos)]
  let raw = asciibody(got)
  let m = (n - 3) / 2
  let body = cat(bytes(id), req)
  [C30] wrote() >= 0 && wrote() <= 2 * len(req) + 7
  [C30] err == nil ==> wrote() == 2 * len(req) + 7
  [C30] new(g.out) =~ cat(g.out, asciiframe(body)[:wrote()])
  case fits: len(req) >= 1 && len(req) <= 253
    [C05] err == nil ==> len(rsp) >= 2 && rsp[0] == req[0]
    [C05] err == nil ==> asciishape(got) && lrcok(raw)
    [C05] err == nil ==> all i in 1..n - 2: ishex(got[i])
    [C05,C30] err == nil ==> raw[0] == id && rsp =~ raw[1:m - 1]
    [C05] (new(g.fails) == g.fails && asciishape(got) && (all i in 1..n - 2: ishex(got[i])) && lrcok(raw) && raw[0] == id && raw[1] == req[0] && m >= 4) ==> err == nil
    [C05] (new(g.fails) == g.fails && asciishape(got) && (all i in 1..n - 2: ishex(got[i])) && lrcok(raw) && raw[0] == id && req[0] < 0x80 && raw[1] == (req[0] | 0x80)) ==> exc(err, m >= 4 ? raw[2] : 0)
  case outside: otherwise
    [C30] err != nil && isnil(rsp) && new(g.out) =~ g.out && new(g.inpos) == g.inpos
