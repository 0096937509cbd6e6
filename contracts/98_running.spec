# The frames of a session's byte stream: unit(i): a unit (frame or skipped
# header) starts at position i; nth(i): how many frames start before it.
spec unit(i) = uf(unit, i)
spec nth(i) = ufn(nth, i)
spec pid(i) = u16(g.in, i + 2)
spec ulen(i) = u16(g.in, i + 4) + 6
spec lenok(n) = n >= 8 && n <= 260
ghost frames nat

func (*ServerSession).running(sf, ctx)
  requires !isnil(sf.conn) && !isnil(sf.serverCommon) && !isnil(ctx)
  define unit(g.inpos) && nth(g.inpos) == g.frames
  define all i in 0..1099511627776: unit(i) && pid(i) != 0 ==> unit(i + 7) && nth(i + 7) == nth(i)
  define all i in 0..1099511627776: unit(i) && pid(i) == 0 && lenok(ulen(i)) ==> unit(i + ulen(i)) && nth(i + ulen(i)) == nth(i) + 1
  loop unit(new(g.inpos)) && nth(new(g.inpos)) == new(g.frames) && new(g.inpos) >= g.inpos
  loop $w64b > 0 && $w64a >= 0 && $w64a <= $w64b && $w64b <= 260 && new(g.inpos) >= g.inpos + $w64a && ($w64a >= $w64b ==> unit(new(g.inpos)) && nth(new(g.inpos)) == new(g.frames)) && ($w64a < $w64b ==> unit(new(g.inpos) - $w64a) && nth(new(g.inpos) - $w64a) == new(g.frames)) && ($w64a < $w64b && $w64b != 7 ==> $w64a >= 7 && pid(new(g.inpos) - $w64a) == 0 && $w64b == ulen(new(g.inpos) - $w64a) && lenok($w64b)) && ($w64a < $w64b ==> $a8[:$w64a] =~ g.in[new(g.inpos) - $w64a:new(g.inpos)])
  nopanic [C25]
  modifies io, g.calls, g.cfn, g.cnode, g.cdata, g.hpan, g.herr, g.hres, g.frames, g.cclosed, g.live
  new(g.cclosed) == g.cclosed + 1
  delegate [C25]
  io [C31] read fresh2(g.rdl, sf.readTimeout)
  tick g.ended
