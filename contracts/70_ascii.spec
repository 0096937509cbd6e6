spec hexd(x) = x < 10 ? x + 48 : x + 55
# upper-case hex digits of a byte sequence
spec hexs(s) = mk8(2 * len(s), j => (j & 1) == 0 ? hexd(s[j / 2] >> 4) : hexd(s[j / 2] & 15))
spec asciiframe(body) = cat(bytes(0x3A), hexs(cat(body, bytes(lrc(body)))), bytes(13, 10))
spec ishex(c) = c >= 48 && c <= 57 || c >= 65 && c <= 70 || c >= 97 && c <= 102
spec hexv(c) = c <= 57 ? c - 48 : (c <= 70 ? c - 55 : c - 87)
spec unhex(s) = mk8(len(s) / 2, j => hexv(s[2 * j]) * 16 + hexv(s[2 * j + 1]))

func (*protocolFrame).encodeASCIIFrame(sf, slaveID, pdu) (res, err)
  requires cap(sf.adu) >= 513
  nopanic [C10]
  frame [C10]
  modifies sf.adu[]
  mayalias res: sf.adu
  let body = cat(bytes(slaveID, pdu.FuncCode), pdu.Data)
  case fits: len(pdu.Data) <= 252
    [C10] err == nil
    [C10] res =~ asciiframe(body)
  case big: otherwise
    [C10] err != nil && isnil(res)

func decodeASCIIFrame(adu) (id, pdu, err)
  nopanic [C10]
  frame [C10]
  let n = len(adu)
  let raw = unhex(adu[1:n - 2])
  let m = (n - 3) / 2
  case shape: n >= 9 && (n & 1) == 1 && adu[0] == 0x3A && adu[n - 2] == 13 && adu[n - 1] == 10
    [C10] err == nil ==> all i in 1..n - 2: ishex(adu[i])
    [C10] err == nil ==> raw[m - 1] == lrc(raw[:m - 1])
    [C10] err == nil ==> id == raw[0] && pdu =~ raw[1:m - 1]
    [C10] (all i in 1..n - 2: ishex(adu[i])) && raw[m - 1] == lrc(raw[:m - 1]) ==> err == nil
  case bad: otherwise
    [C10] err != nil

# the response read so far is complete
spec asciiend(s) = len(s) >= 513 || len(s) > 3 && s[len(s) - 2] == 13 && s[len(s) - 1] == 10

func (*ASCIIClientProvider).SendRawFrame(sf, req) (res, err)
  locks [C29] sf.mu
  guard [C29]
  nopanic [C15]
  frame [C15]
  modifies sf.port, io
  io [C15] write buf =~ req
  io [C15] read !asciiend(g.in[old(g.inpos):g.inpos])
  io [C29] any held(sf.mu)
  io [C29] dial isnil(sf.port)
  loop new(g.inpos) == g.inpos + $w64
  loop $w64 <= 513
  loop !asciiend(g.in[g.inpos:new(g.inpos)])
  loop $a8[:$w64] =~ g.in[g.inpos:new(g.inpos)]
  [C28] noshare(res)
  [C15] len(new(g.out)) >= len(g.out) && len(new(g.out)) - len(g.out) <= len(req)
  [C15] new(g.out) =~ cat(g.out, req[:len(new(g.out)) - len(g.out)])
  [C15] err == nil ==> len(new(g.out)) == len(g.out) + len(req)
  [C15] err == nil ==> res =~ g.in[g.inpos:new(g.inpos)]
  [C15] err == nil ==> len(res) <= 513 && (new(g.lastn) == 0 || asciiend(g.in[g.inpos:new(g.inpos)]))
  [C15] err != nil ==> isnil(res)
  [C15] (err == nil) == (new(g.fails) == g.fails)
  [C15] len(new(g.out)) - len(g.out) < len(req) ==> isnil(new(sf.port))
  [C29] err == nil ==> !isnil(new(sf.port))
  [C29] !isnil(sf.port) ==> isnil(new(sf.port)) || new(sf.port) == sf.port
