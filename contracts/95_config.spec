# Configuration: constructors, options, setters, logging. The lemma functions are ghost code in lemmas/.
func NewClient(p, opts) (res)
  requires len(opts) == 0
  nopanic [C32]
  frame [C32]
  [C32] isdyn(res, client)
  [C32] dyn(res).addressMin == 1 && dyn(res).addressMax == 247 && dyn(res).ClientProvider == p

func lemmaClientMin(p, lo) (res)
  unfold NewClient
  nopanic [C32]
  frame [C32]
  [C32] isdyn(res, client)
  [C32] dyn(res).addressMin == lo && dyn(res).addressMax == 247 && dyn(res).ClientProvider == p

func lemmaClientMax(p, hi) (res)
  unfold NewClient
  nopanic [C32]
  frame [C32]
  [C32] isdyn(res, client)
  [C32] dyn(res).addressMin == 1 && dyn(res).addressMax == hi && dyn(res).ClientProvider == p

func lemmaClientMinMax(p, lo, hi) (res)
  unfold NewClient
  nopanic [C32]
  frame [C32]
  [C32] isdyn(res, client)
  [C32] dyn(res).addressMin == lo && dyn(res).addressMax == hi && dyn(res).ClientProvider == p

func lemmaClientMaxMin(p, lo, hi) (res)
  unfold NewClient
  nopanic [C32]
  frame [C32]
  [C32] isdyn(res, client)
  [C32] dyn(res).addressMin == lo && dyn(res).addressMax == hi && dyn(res).ClientProvider == p

func lemmaClientMinTwice(p, lo, hi) (res)
  unfold NewClient
  nopanic [C32]
  frame [C32]
  [C32] isdyn(res, client)
  [C32] dyn(res).addressMin == hi && dyn(res).addressMax == 247 && dyn(res).ClientProvider == p

func lemmaTCPTimeout(p, t)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.timeout
  [C32] new(p.timeout) == t

func lemmaTCPSerial(p, c)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]

func lemmaTCPLog(p, l)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.provider
  case ignored: isnil(l)
    [C32] new(p.provider) == p.provider
  case taken: otherwise
    [C32] new(p.provider) == l

func lemmaTCPEnable(p)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.has
  [C32] new(p.has) == 1

func lemmaRTUTimeout(p, t)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]

func lemmaRTUSerial(p, c)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.Config
  [C32] new(p.Address) =~ c.Address && new(p.BaudRate) == c.BaudRate && new(p.DataBits) == c.DataBits && new(p.StopBits) == c.StopBits
  [C32] new(p.Parity) =~ c.Parity && new(p.Timeout) == c.Timeout

func lemmaRTULog(p, l)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.provider
  case ignored: isnil(l)
    [C32] new(p.provider) == p.provider
  case taken: otherwise
    [C32] new(p.provider) == l

func lemmaRTUEnable(p)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.has
  [C32] new(p.has) == 1

func lemmaASCIITimeout(p, t)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]

func lemmaASCIISerial(p, c)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.Config
  [C32] new(p.Address) =~ c.Address && new(p.BaudRate) == c.BaudRate && new(p.DataBits) == c.DataBits && new(p.StopBits) == c.StopBits
  [C32] new(p.Parity) =~ c.Parity && new(p.Timeout) == c.Timeout

func lemmaASCIILog(p, l)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.provider
  case ignored: isnil(l)
    [C32] new(p.provider) == p.provider
  case taken: otherwise
    [C32] new(p.provider) == l

func lemmaASCIIEnable(p)
  requires !isnil(p)
  nopanic [C32]
  frame [C32]
  modifies p.has
  [C32] new(p.has) == 1

func lemmaNewTCP(addr, t, l) (res)
  unfold NewTCPClientProvider
  nopanic [C32]
  frame [C32]
  [C32] res.timeout == t && res.has == 1 && res.address =~ addr
  [C32] !isnil(l) ==> res.provider == l

func lemmaNewRTU(c, l) (res)
  unfold NewRTUClientProvider
  nopanic [C32]
  frame [C32]
  [C32] res.Address =~ c.Address && res.BaudRate == c.BaudRate && res.DataBits == c.DataBits && res.StopBits == c.StopBits
  [C32] res.Parity =~ c.Parity && res.Timeout == c.Timeout
  [C32] res.has == 1
  [C32] !isnil(l) ==> res.provider == l

func lemmaNewASCII(c, l) (res)
  unfold NewASCIIClientProvider
  nopanic [C32]
  frame [C32]
  [C32] res.Address =~ c.Address && res.BaudRate == c.BaudRate && res.DataBits == c.DataBits && res.StopBits == c.StopBits
  [C32] res.Parity =~ c.Parity && res.Timeout == c.Timeout
  [C32] res.has == 1
  [C32] !isnil(l) ==> res.provider == l

func (*logger).LogMode(sf, enable)
  nopanic [C32]
  frame [C32]
  modifies sf.has
  [C32] new(sf.has) == (enable ? 1 : 0)

func (*logger).setLogProvider(sf, p)
  nopanic [C32]
  frame [C32]
  modifies sf.provider
  case ignored: isnil(p)
    [C32] new(sf.provider) == sf.provider
  case taken: otherwise
    [C32] new(sf.provider) == p

func (logger).Debugf(sf, format, v)
  requires !isnil(sf.provider)
  nopanic [C32]
  frame [C32]
  modifies g.dlogs, g.logto, g.logfmt
  case on: sf.has == 1
    [C32] new(g.dlogs) == g.dlogs + 1 && new(g.logto) == sf.provider && new(g.logfmt) =~ format
  case off: otherwise
    [C32] new(g.dlogs) == g.dlogs

func (logger).Errorf(sf, format, v)
  requires !isnil(sf.provider)
  nopanic [C32]
  frame [C32]
  modifies g.elogs, g.logto, g.logfmt
  case on: sf.has == 1
    [C32] new(g.elogs) == g.elogs + 1 && new(g.logto) == sf.provider && new(g.logfmt) =~ format
  case off: otherwise
    [C32] new(g.elogs) == g.elogs

func NewTCPServer() (res)
  nopanic [C32]
  frame [C32]
  [C32] fresh(res) && res.readTimeout == 60000000000 && res.writeTimeout == 1000000000 && res.has == 0
  [C32] !isnil(res.serverCommon) && !isnil(res.provider)

func NewTCPServerSpecial() (res)
  nopanic [C32]
  frame [C32]
  [C32] fresh(res) && res.readTimeout == 60000000000 && res.writeTimeout == 1000000000 && res.has == 0
  [C32] res.connectTimeout == 15000000000 && res.reconnectInterval == 60000000000 && res.keepAliveInterval == 30000000000
  [C32] res.autoReconnect && !res.enableKeepAlive
  [C32] !isnil(res.onConnect) && !isnil(res.onConnectionLost) && !isnil(res.onKeepAlive)
  [C32] !isnil(res.serverCommon) && !isnil(res.provider)

func (*TCPServer).SetReadTimeout(sf, t) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.readTimeout
  [C32] new(sf.readTimeout) == t && res == sf

func (*TCPServer).SetWriteTimeout(sf, t) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.writeTimeout
  [C32] new(sf.writeTimeout) == t && res == sf

func (*TCPServerSpecial).SetReadTimeout(sf, t) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.readTimeout
  [C32] new(sf.readTimeout) == t && res == sf

func (*TCPServerSpecial).SetWriteTimeout(sf, t) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.writeTimeout
  [C32] new(sf.writeTimeout) == t && res == sf

func (*TCPServerSpecial).SetConnectTimeout(sf, t) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.connectTimeout
  [C32] new(sf.connectTimeout) == t && res == sf

func (*TCPServerSpecial).SetReconnectInterval(sf, t) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.reconnectInterval
  [C32] new(sf.reconnectInterval) == t && res == sf

func (*TCPServerSpecial).EnableAutoReconnect(sf, b) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.autoReconnect
  [C32] new(sf.autoReconnect) == b && res == sf

func (*TCPServerSpecial).SetTLSConfig(sf, t) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.TLSConfig
  [C32] new(sf.TLSConfig) == t && res == sf

func (*TCPServerSpecial).SetOnConnectHandler(sf, f) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.onConnect
  case ignored: isnil(f)
    [C32] new(sf.onConnect) == sf.onConnect && res == sf
  case taken: otherwise
    [C32] new(sf.onConnect) == f && res == sf

func (*TCPServerSpecial).SetConnectionLostHandler(sf, f) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.onConnectionLost
  case ignored: isnil(f)
    [C32] new(sf.onConnectionLost) == sf.onConnectionLost && res == sf
  case taken: otherwise
    [C32] new(sf.onConnectionLost) == f && res == sf

func (*TCPServerSpecial).SetKeepAlive(sf, enable, t, f) (res)
  nopanic [C32]
  frame [C32]
  modifies sf.enableKeepAlive, sf.keepAliveInterval, sf.onKeepAlive
  [C32] new(sf.enableKeepAlive) == enable && new(sf.keepAliveInterval) == (t > 0 ? t : sf.keepAliveInterval)
  case ignored: isnil(f)
    [C32] new(sf.onKeepAlive) == sf.onKeepAlive && res == sf
  case taken: otherwise
    [C32] new(sf.onKeepAlive) == f && res == sf

func (*TCPServerSpecial).UnderlyingConn(sf) (res)
  nopanic [C32]
  frame [C32]
  [C32] res == sf.conn
