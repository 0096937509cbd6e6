# The listening server. A session is counted (WaitGroup) before it starts and,
# under the lock, only while the server is not closed; it counts itself out
# after running has returned; Close, having marked the server closed under the
# lock, waits for the count to come down.
ghost wgadd nat
ghost wgdone nat
ghost waits nat
ghost lclosed nat
ghost cancels nat
ghost ended nat

callback CancelFunc()
  tick g.cancels

type TCPServer
  inv !isnil(self.serverCommon)
  inv !isnil(self.listen) ==> !isnil(self.cancel)
  guard mu: listen, cancel

func (*TCPServer).Close(sf) (err)
  locks [C33] sf.mu
  guard [C33]
  nopanic [C33]
  frame [C33]
  modifies sf.listen, g.waits, g.lclosed, g.cancels
  io [C33] wait isnil(sf.listen)
  [C33] err == nil
  [C33] isnil(new(sf.listen))
  [C33] new(g.waits) == g.waits + 1
  case open: !isnil(sf.listen)
    [C33] new(g.lclosed) == g.lclosed + 1 && new(g.cancels) == g.cancels + 1
  case not: otherwise
    [C33] new(g.lclosed) == g.lclosed && new(g.cancels) == g.cancels

func (*TCPServer).ListenAndServe(sf, addr) (err)
  takes sf.mu
  locks [C33]
  guard [C33]
  interfere
  nopanic [C33]
  modifies sf.listen, sf.cancel, g.waits, g.lclosed, g.cancels, io, g.calls, g.cfn, g.cnode, g.cdata, g.hpan, g.herr, g.hres, g.frames, g.ended
  io [C33] add held(sf.mu) && !isnil(sf.listen)
  io [C33] go g.wgadd == old(g.wgadd) + 1
  io [C33] done g.ended == old(g.ended) + 1
  io [C33] goend g.wgdone == 1
  loop new(g.wgadd) == g.wgadd
