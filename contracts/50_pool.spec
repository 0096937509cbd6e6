type RTUClientProvider
  set pool = rtuPool

type ASCIIClientProvider
  set pool = asciiPool

type TCPClientProvider
  set pool = tcpPool
  guard mu: conn
  atomic transactionID

type serialPort
  guard mu: port

func NewRTUClientProvider(opts) (res)
  requires len(opts) == 0
  nopanic [C32]
  frame [C32]
  typeinv [C28]
  [C29] isnil(res.port)
  [C32] res.has == 0

func NewASCIIClientProvider(opts) (res)
  requires len(opts) == 0
  nopanic [C32]
  frame [C32]
  typeinv [C28]
  [C29] isnil(res.port)
  [C32] res.has == 0

func NewTCPClientProvider(address, opts) (res)
  requires len(opts) == 0
  nopanic [C32]
  frame [C32]
  typeinv [C28]
  [C29] isnil(res.conn)
  [C32] res.has == 0
  [C32] res.timeout == 1000000000

type logger
  inv !isnil(self.provider)
