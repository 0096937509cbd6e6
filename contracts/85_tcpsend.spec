# Send and SendPdu of the TCP provider.
spec tcpframe(tid, body) = cat(bytes(tid >> 8, tid & 255, 0, 0, len(body) >> 8, len(body) & 255), body)
spec tcpok(s) = len(s) >= 8 && u16(s, 4) == len(s) - 6

func (*TCPClientProvider).Send(sf, id, req) (rsp, err)
  locks [C29]
  takes sf.mu
  guard [C29]
  atomic [C07]
  pool [C28]
  nopanic [C06,C12]
  frame [C28]
  modifies sf.conn, sf.transactionID, io
  io [C29] any held(sf.mu)
  [C28] noshare(rsp.Data)
  let n = new(g.inpos) - g.inpos
  let got = g.in[g.inpos:new(g.inpos)]
  let body = cat(bytes(id, req.FuncCode), req.Data)
  let tid = (sf.transactionID + 1) & 65535
  [C07] new(g.atomops) == g.atomops + 1
  [C07] new(sf.transactionID) == ((sf.transactionID + 1) & 0xFFFFFFFF)
  [C12] wrote() >= 0 && wrote() <= len(req.Data) + 8
  [C12] err == nil ==> wrote() == len(req.Data) + 8
  [C07,C12] new(g.out) =~ cat(g.out, tcpframe(tid, body)[:wrote()])
  case fits: len(req.Data) <= 252
    [C06] err == nil ==> rsp.FuncCode == req.FuncCode && len(rsp.Data) >= 1
    [C06] err == nil ==> tcpok(got) && u16(got, 0) == tid && u16(got, 2) == 0 && got[6] == id
    [C06] err == nil ==> got[7] == rsp.FuncCode && rsp.Data =~ got[8:n]
    [C06] new(g.fails) == g.fails && tcpok(got) && u16(got, 0) == tid && u16(got, 2) == 0 && got[6] == id && got[7] == req.FuncCode && n >= 9 && n <= 260 ==> err == nil
    [C06] new(g.fails) == g.fails && tcpok(got) && n <= 260 && u16(got, 0) == tid && u16(got, 2) == 0 && got[6] == id && req.FuncCode < 0x80 && got[7] == (req.FuncCode | 0x80) ==> exc(err, n >= 9 ? got[8] : 0)
    [C35] isnil(new(sf.conn)) || n >= 8 && n == u16(got, 4) + 6 && u16(got, 0) == tid
  case big: otherwise
    [C12,C30] err != nil && new(g.out) =~ g.out && new(g.inpos) == g.inpos

func (*TCPClientProvider).SendPdu(sf, id, req) (rsp, err)
  locks [C29]
  takes sf.mu
  guard [C29]
  atomic [C07]
  pool [C28]
  nopanic [C06,C30]
  frame [C28]
  modifies sf.conn, sf.transactionID, io
  io [C29] any held(sf.mu)
  [C28] noshare(rsp)
  let n = new(g.inpos) - g.inpos
  let got = g.in[g.inpos:new(g.inpos)]
  let body = cat(bytes(id), req)
  let tid = (sf.transactionID + 1) & 65535
  [C30] wrote() >= 0 && wrote() <= len(req) + 7
  [C30] err == nil ==> wrote() == len(req) + 7
  case fits: len(req) >= 1 && len(req) <= 253
    [C07] new(g.atomops) == g.atomops + 1
    [C07] new(sf.transactionID) == ((sf.transactionID + 1) & 0xFFFFFFFF)
    [C07,C30] new(g.out) =~ cat(g.out, tcpframe(tid, body)[:wrote()])
    [C06] err == nil ==> len(rsp) >= 2 && rsp[0] == req[0]
    [C06] err == nil ==> tcpok(got) && u16(got, 0) == tid && u16(got, 2) == 0 && got[6] == id
    [C06,C30] err == nil ==> rsp =~ got[7:n]
    [C06] new(g.fails) == g.fails && tcpok(got) && u16(got, 0) == tid && u16(got, 2) == 0 && got[6] == id && got[7] == req[0] && n >= 9 && n <= 260 ==> err == nil
    [C06] new(g.fails) == g.fails && tcpok(got) && n <= 260 && u16(got, 0) == tid && u16(got, 2) == 0 && got[6] == id && req[0] < 0x80 && got[7] == (req[0] | 0x80) ==> exc(err, n >= 9 ? got[8] : 0)
    [C35] isnil(new(sf.conn)) || n >= 8 && n == u16(got, 4) + 6 && u16(got, 0) == tid
  case outside: otherwise
    [C30] err != nil && isnil(rsp) && new(g.out) =~ g.out && new(g.inpos) == g.inpos
