# address, PDU, then the CRC low byte first
spec rtuframe(body) = cat(body, bytes(crc(0xFFFF, body) & 255, crc(0xFFFF, body) >> 8))

func (*protocolFrame).encodeRTUFrame(sf, slaveID, pdu) (res, err)
  requires cap(sf.adu) >= 256
  nopanic [C08]
  frame [C08]
  modifies sf.adu[], caches
  mayalias res: sf.adu
  let body = cat(bytes(slaveID, pdu.FuncCode), pdu.Data)
  case fits: len(pdu.Data) <= 252
    [C08] err == nil
    [C08] res =~ rtuframe(body)
  case big: otherwise
    [C08] err != nil && isnil(res)

func decodeRTUFrame(adu) (id, pdu, err)
  nopanic [C08]
  frame [C08]
  modifies caches
  mayalias pdu: adu
  case good: len(adu) >= 4 && u16le(adu, len(adu) - 2) == crc(0xFFFF, adu[:len(adu) - 2])
    [C08] err == nil
    [C08] id == adu[0]
    [C08] pdu =~ adu[1:len(adu) - 2]
  case bad: otherwise
    [C08] err != nil

spec bitsfc(f) = f == 1 || f == 2
spec wordsfc(f) = f == 3 || f == 4 || f == 23
spec echofc(f) = f == 5 || f == 6 || f == 15 || f == 16
spec rtulen(a) = bitsfc(a[1]) && len(a) >= 6 ? 5 + (u16(a, 4) + 7) / 8 : (wordsfc(a[1]) && len(a) >= 6 ? 5 + 2 * u16(a, 4) : (echofc(a[1]) ? 8 : (a[1] == 22 ? 10 : 4)))

func calculateResponseLength(adu) (res)
  requires len(adu) >= 2
  nopanic [C14]
  frame [C14]
  [C14] res == rtulen(adu)

func (*RTUClientProvider).calculateDelay(sf, chars) (res)
  nopanic [C14]
  frame [C14]

func (*serialPort).connect(sf) (err)
  holds sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.port, g.dials, g.dialto, g.rdl, g.wdl, g.fails
  case connected: !isnil(sf.port)
    [C29] err == nil && new(sf.port) == sf.port && new(g.dials) == g.dials && new(g.fails) == g.fails
  case not: otherwise
    [C29] (err == nil) == !isnil(new(sf.port))
    [C29] err == nil ==> new(g.fails) == g.fails
    [C29] err != nil ==> new(g.fails) > g.fails
    [C29] new(g.dials) == g.dials + 1

func (*serialPort).close(sf) (err)
  holds sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.port
  [C29] isnil(new(sf.port))
  [C29] isnil(sf.port) ==> err == nil

func (*serialPort).Connect(sf) (err)
  locks [C29] sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.port, g.dials, g.dialto, g.rdl, g.wdl, g.fails
  case connected: !isnil(sf.port)
    [C29] err == nil && new(sf.port) == sf.port && new(g.dials) == g.dials && new(g.fails) == g.fails
  case not: otherwise
    [C29] (err == nil) == !isnil(new(sf.port))
    [C29] err == nil ==> new(g.fails) == g.fails
    [C29] err != nil ==> new(g.fails) > g.fails
    [C29] new(g.dials) == g.dials + 1

func (*serialPort).Close(sf) (err)
  locks [C29] sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  modifies sf.port
  [C29] isnil(new(sf.port))
  [C29] isnil(sf.port) ==> err == nil

func (*serialPort).IsConnected(sf) (b)
  locks [C29] sf.mu
  nopanic [C29]
  frame [C29]
  guard [C29]
  [C29] b == !isnil(sf.port)

func (*RTUClientProvider).SendRawFrame(sf, req) (res, err)
  locks [C29] sf.mu
  guard [C29]
  nopanic [C14]
  frame [C14]
  modifies sf.port, io
  io [C14] write buf =~ req
  io [C29] any held(sf.mu)
  io [C29] dial isnil(sf.port)
  [C28] noshare(res)
  [C14] len(new(g.out)) >= len(g.out) && len(new(g.out)) - len(g.out) <= len(req)
  [C14] new(g.out) =~ cat(g.out, req[:len(new(g.out)) - len(g.out)])
  [C14] err == nil ==> len(new(g.out)) == len(g.out) + len(req)
  [C14] err == nil ==> res =~ g.in[g.inpos:new(g.inpos)]
  [C14] err == nil ==> len(req) >= 4 && len(res) >= 4 && len(res) <= 256
  [C14] err == nil ==> res[1] == req[1] || res[1] == (req[1] | 0x80) && len(res) >= 5
  [C14] err == nil && res[1] == req[1] && req[1] != 24 ==> len(res) >= rtulen(req) || rtulen(req) > 256
  [C14] err == nil && res[1] == req[1] && req[1] == 24 ==> len(res) >= 6 + u16(res, 2) || 6 + u16(res, 2) > 256
  [C14] err != nil ==> isnil(res)
  [C14] len(req) >= 4 && new(g.fails) == g.fails ==> new(g.inpos) - g.inpos >= 4
  [C14] len(req) >= 4 && new(g.fails) == g.fails && (g.in[g.inpos + 1] == req[1] || g.in[g.inpos + 1] == (req[1] | 0x80)) ==> err == nil
  [C14] len(req) < 4 ==> err != nil && new(g.out) =~ g.out && new(g.inpos) == g.inpos
  [C29] err == nil ==> !isnil(new(sf.port))
  [C29] !isnil(sf.port) ==> isnil(new(sf.port)) || new(sf.port) == sf.port
