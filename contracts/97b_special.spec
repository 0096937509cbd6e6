# The dialing server. Counters: dialok connections made, conns calls of the
# connect callback, conok those that succeeded, ended sessions over, losts calls
# of the connection-lost callback, cclosed connections closed. live: the server
# was seen not to be closed, and nothing that takes time happened since.
ghost dialok nat
ghost conns nat
ghost conok nat
ghost losts nat
ghost cclosed nat
ghost live nat
ghost sawdone nat
ghost started nat
# opens: attempts to connect; redial: the server reconnects by itself.
ghost opens nat
ghost redial nat

callback OnConnectHandler(c) (err)
  obliges [C34] g.dialok == g.conns + 1 && g.conok == g.ended && g.ended == g.losts
  tick g.conns
  modifies g.live, g.conok
  new(g.conok) == (isnil(err) ? g.conok + 1 : g.conok)

callback OnConnectionLostHandler(c)
  obliges [C34] g.conns == g.dialok && g.conok == g.ended && g.ended == g.losts + 1
  obliges [C34] c.status == 1
  tick g.losts
  modifies g.live

callback OnKeepAliveHandler(c)
  obliges [C34] c.enableKeepAlive
  modifies g.live

type TCPServerSpecial
  inv !isnil(self.serverCommon)
  inv !isnil(self.onConnect) && !isnil(self.onConnectionLost) && !isnil(self.onKeepAlive)
  inv self.keepAliveInterval > 0
  guard rwMux: cancel

func openConnection(uri, tlsc, timeout) (conn, err)
  requires !isnil(uri)
  obliges [C34] g.live == 1
  obliges [C34] g.opens == g.dialok || g.redial == 1
  tick g.opens
  nopanic [C34]
  modifies g.dials, g.dialok, g.dialto, g.rdl, g.wdl, g.fails, g.live
  [C34] err == nil ==> !isnil(conn) && new(g.dialok) == g.dialok + 1
  [C34] err != nil ==> new(g.dialok) == g.dialok
  [C34] new(g.dials) > g.dials ==> new(g.dialto) == timeout

func (*TCPServerSpecial).Close(sf) (err)
  locks [C34] sf.rwMux
  guard [C34]
  nopanic [C34]
  frame [C34]
  modifies g.cancels
  [C34] err == nil
  [C34] new(g.cancels) == (isnil(sf.cancel) ? g.cancels : g.cancels + 1)

func (*TCPServerSpecial).IsConnected(sf) (b)
  locks [C34] sf.rwMux
  nopanic [C34]
  frame [C34]
  [C34] b == (sf.status == 2)

func (*TCPServerSpecial).IsClosed(sf) (b)
  locks [C34] sf.rwMux
  nopanic [C34]
  frame [C34]
  [C34] b == (sf.status == 0)

func (*TCPServerSpecial).Start(sf) (err)
  locks [C34] sf.rwMux
  guard [C34]
  nopanic [C34]
  modifies sf.status, sf.cancel, g.started
  io [C34] go held(sf.rwMux) && !isnil(sf.cancel)
  case unset: isnil(sf.server)
    [C34] err != nil && new(sf.status) == sf.status
  case idle: !isnil(sf.server) && sf.status == 0
    [C34] err == nil && new(sf.status) == 1 && new(g.started) == g.started + 1
  case running: otherwise
    [C34] err == nil && new(sf.status) == sf.status && new(g.started) == g.started

func (*TCPServerSpecial).run(sf, ctx)
  requires !isnil(ctx) && !isnil(sf.server)
  takes sf.rwMux
  locks [C34]
  define g.dialok == g.conns && g.cclosed == g.conns && g.conok == g.ended && g.ended == g.losts && g.sawdone == 0 && g.opens == g.dialok && g.redial == (sf.autoReconnect ? 1 : 0)
  nopanic [C34]
  modifies sf.status, sf.conn, io, g.calls, g.cfn, g.cnode, g.cdata, g.hpan, g.herr, g.hres, g.frames, g.ended, g.dials, g.dialok, g.dialto, g.rdl, g.wdl, g.fails, g.live, g.conns, g.conok, g.losts, g.cclosed, g.sawdone, g.opens
  loop new(g.opens) == new(g.dialok) || g.redial == 1
  loop new(g.dialok) == new(g.conns)
  loop new(g.cclosed) == new(g.conns)
  loop new(g.conok) == new(g.ended)
  loop new(g.ended) == new(g.losts)
  loop new(g.sawdone) == 0
  io [C34] go g.conok == g.ended + 1
  io [C34] dial g.live == 1
  [C34] new(sf.status) == 0
  [C34] new(g.sawdone) == 1 || !sf.autoReconnect
  [C34] new(g.cclosed) == new(g.dialok)
