# An exchange of a client and a session, frame by frame (see lemmas/wire.go).
# The session has cut the client's frame out of its byte stream (C25).
trusted lemmaDeliver(b) (res)
  modifies g.in, g.inpos, g.frames
  fresh(res) && res =~ b && cap(res) >= len(b)
  unit(new(g.inpos) - len(b)) && nth(new(g.inpos) - len(b)) == new(g.frames)
  b =~ new(g.in)[new(g.inpos) - len(b):new(g.inpos)]

# The client receives what the session wrote.
trusted lemmaArrive() (res)
  fresh(res) && res =~ g.out

func lemmaWire(fr, sess, tid, id, req) (rsp, err, down)
  requires !isnil(fr) && !isnil(sess) && !isnil(sess.conn) && !isnil(sess.serverCommon) && cap(fr.adu) >= 260
  requires len(g.out) == 0 && len(req.Data) <= 252
  nopanic [C26]
  modifies io, g.in, g.inpos, fr.adu[], g.calls, g.cfn, g.cnode, g.cdata, g.hpan, g.herr, g.hres, g.frames, req.Data[]
  let fc = req.FuncCode
  case unknown: !has(sess.node, id)
    [C26] down == nil ==> new(g.calls) == g.calls && isnil(err) && new(g.out) =~ g.out
  case nohandler: !has(sess.function, fc)
    [C26] new(g.calls) == g.calls
    [C26] down == nil && fc < 0x80 ==> exc(err, 1)
  case handled: otherwise
    [C26] new(g.calls) == g.calls + 1 && new(g.cfn) == sess.function[fc] && new(g.cnode) == sess.node[id]
    [C26] new(g.cdata) =~ req.Data
    [C26] down == nil && new(g.hpan) == 0 && isnil(new(g.herr)) && len(new(g.hres)) >= 1 && len(new(g.hres)) <= 252 ==> err == nil && rsp.FuncCode == fc && rsp.Data =~ new(g.hres)
    [C26] down == nil && new(g.hpan) == 0 && !isnil(new(g.herr)) && fc < 0x80 ==> exc(err, exc(new(g.herr)) ? exccode(new(g.herr)) : 4)
