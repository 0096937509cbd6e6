# TCP client provider.
func (*TCPClientProvider).connect(sf) (err)
  holds sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.conn, g.dials, g.dialto, g.rdl, g.wdl, g.fails
  case connected: !isnil(sf.conn)
    [C29] err == nil && new(sf.conn) == sf.conn && new(g.dials) == g.dials && new(g.fails) == g.fails
  case not: otherwise
    [C29] (err == nil) == !isnil(new(sf.conn))
    [C29] err == nil ==> new(g.fails) == g.fails
    [C29] err != nil ==> new(g.fails) > g.fails
    [C29] new(g.dials) == g.dials + 1

func (*TCPClientProvider).close(sf) (err)
  holds sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.conn
  [C29] isnil(new(sf.conn))
  [C29] isnil(sf.conn) ==> err == nil

func (*TCPClientProvider).Connect(sf) (err)
  locks [C29] sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.conn, g.dials, g.dialto, g.rdl, g.wdl, g.fails
  case connected: !isnil(sf.conn)
    [C29] err == nil && new(sf.conn) == sf.conn && new(g.dials) == g.dials && new(g.fails) == g.fails
  case not: otherwise
    [C29] (err == nil) == !isnil(new(sf.conn))
    [C29] err == nil ==> new(g.fails) == g.fails
    [C29] err != nil ==> new(g.fails) > g.fails
    [C29] new(g.dials) == g.dials + 1

func (*TCPClientProvider).Close(sf) (err)
  locks [C29] sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.conn
  [C29] isnil(new(sf.conn))
  [C29] isnil(sf.conn) ==> err == nil

func (*TCPClientProvider).IsConnected(sf) (b)
  locks [C29] sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  [C29] b == !isnil(sf.conn)

# a deadline armed by this call, the configured timeout ahead
spec armed(d) = d - sf.timeout >= old(g.clock) && d - sf.timeout <= g.clock
# a deadline that has passed already: what is left over is discarded without waiting
spec passed(d) = d >= old(g.clock) && d <= g.clock

func (*TCPClientProvider).SendRawFrame(sf, req) (res, err)
  locks [C29] sf.mu
  guard [C29]
  nopanic [C13]
  frame [C13]
  modifies sf.conn, io
  io [C13] write buf =~ req
  io [C29] any held(sf.mu)
  io [C29] dial isnil(sf.conn)
  io [C31] write sf.timeout > 0 ? armed(g.wdl) : g.wdl == 0
  io [C31] read sf.timeout > 0 ? armed(g.rdl) || passed(g.rdl) : g.rdl == 0 || passed(g.rdl)
  let n = new(g.inpos) - g.inpos
  let announced = u16(g.in, g.inpos + 4)
  [C28] noshare(res)
  [C13] wrote() >= 0 && wrote() <= len(req)
  [C13] new(g.out) =~ cat(g.out, req[:wrote()])
  [C13] err == nil ==> wrote() == len(req)
  [C13] err == nil ==> res =~ g.in[g.inpos:new(g.inpos)]
  [C13,C35] err == nil ==> announced >= 1 && announced <= 254 && n == announced + 6
  [C13] new(g.fails) == g.fails && announced >= 1 && announced <= 254 ==> err == nil
  [C13] err != nil ==> isnil(res)
  [C31] err == nil ==> (sf.timeout > 0 ? new(g.rdl) - sf.timeout >= g.clock : new(g.rdl) == 0)
  [C29] err == nil ==> !isnil(new(sf.conn))
  [C29] !isnil(sf.conn) ==> isnil(new(sf.conn)) || new(sf.conn) == sf.conn
  [C35] err != nil ==> isnil(new(sf.conn))
