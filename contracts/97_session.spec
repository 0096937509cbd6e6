# Sessions of a server.
type serverCommon
  inv !isnil(self.function)
  inv all k in 0..256: has(self.function, k) ==> !isnil(self.function[k])

spec fresh2(d, t) = d - t >= g.lastio && d - t >= old(g.clock) && d - t <= g.clock
spec wr(s) = new(g.out) =~ cat(g.out, s[:wrote()]) && wrote() >= 0 && wrote() <= len(s)

func (*ServerSession).frameHandler(sf, req) (err)
  requires !isnil(sf.conn) && !isnil(sf.serverCommon)
  requires [C25] len(req) >= 8 && len(req) <= 260
  loop wrote() == $w64
  loop $w64 >= 0 && $w64 <= len($s8)
  loop new(g.out) =~ cat(g.out, $s8[:$w64])
  obliges [C25] unit(g.inpos - len(req)) && nth(g.inpos - len(req)) == g.frames
  obliges [C25] req =~ g.in[g.inpos - len(req):g.inpos]
  obliges [C25] u16(req, 2) == 0 && u16(req, 4) + 6 == len(req)
  tick g.frames
  nopanic [C25]
  frame [C24]
  delegate [C24]
  modifies io, req[], g.calls, g.cfn, g.cnode, g.cdata, g.hpan, g.herr, g.hres
  let id = req[6]
  let fc = req[7]
  io [C31] write fresh2(g.wdl, sf.writeTimeout)
  [C24] new(g.inpos) == g.inpos
  case unknown: !has(sf.node, id)
    [C24] err == nil && new(g.out) =~ g.out && new(g.calls) == g.calls
  case nohandler: !has(sf.function, fc)
    [C24] new(g.calls) == g.calls
    [C24] wr(cat(req[:4], bytes(0, 3, id, fc | 0x80, 1)))
    [C24] err == nil ==> wrote() == 9
  case handled: otherwise
    [C24] new(g.calls) == g.calls + 1 && new(g.cfn) == sf.function[fc] && new(g.cnode) == sf.node[id]
    [C24] new(g.cdata) =~ req[8:]
    [C24] new(g.hpan) == 1 ==> err == nil && new(g.out) =~ g.out
    [C24] new(g.hpan) == 0 && isnil(new(g.herr)) ==> wr(cat(req[:4], be16(len(new(g.hres)) + 2), bytes(id, fc), new(g.hres)))
    [C24] new(g.hpan) == 0 && isnil(new(g.herr)) && err == nil ==> wrote() == 8 + len(new(g.hres))
    [C24] new(g.hpan) == 0 && !isnil(new(g.herr)) ==> wr(cat(req[:4], bytes(0, 3, id, fc | 0x80, exc(new(g.herr)) ? exccode(new(g.herr)) : 4)))
    [C24] new(g.hpan) == 0 && !isnil(new(g.herr)) && err == nil ==> wrote() == 9
