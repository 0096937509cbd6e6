# Ghost state: the byte stream of the connection in use, and the clock.
ghost in bytes
ghost inpos nat
ghost out bytes
ghost clock time
ghost rdl int
ghost wdl int
ghost dials nat
# number of I/O operations that failed
ghost fails nat
ghost dialto int
ghost dlogs nat
ghost elogs nat
ghost logto err
ghost logfmt bytes

# A log provider only logs.
iface LogProvider.Debugf(format, v)
  modifies g.dlogs, g.logto, g.logfmt
  new(g.dlogs) == g.dlogs + 1 && new(g.logto) == self && new(g.logfmt) =~ format

iface LogProvider.Errorf(format, v)
  modifies g.elogs, g.logto, g.logfmt
  new(g.elogs) == g.elogs + 1 && new(g.logto) == self && new(g.logfmt) =~ format

# Modbus CRC (polynomial 0xA001, reflected), one byte; eight explicit steps.
spec crc1(c) = (c & 1) == 1 ? (c >> 1) ^ 0xA001 : c >> 1
spec crc2(c) = crc1(crc1(c))
spec crc4(c) = crc2(crc2(c))
spec crc8(c) = crc4(crc4(c))
fold crc:16(acc, x) = crc8(acc ^ x)
fold sum:8(acc, x) = acc + x
spec lrc(s) = (256 - sum(0, s)) & 255

# What a server hands to a function handler, and what the handler answers.
ghost calls nat
ghost cfn int
ghost cnode int
ghost cdata bytes
ghost hpan int
ghost herr err
ghost hres bytes

callback FunctionHandler(reg, data) (res, err)
  modifies g.calls, g.cfn, g.cnode, g.cdata, g.hpan, g.herr, g.hres, data[]
  forkalias res: data
  maypanic new(g.calls) == g.calls + 1 && new(g.cfn) == self && new(g.cnode) == reg
  maypanic new(g.hpan) == 1
  maypanic new(g.cdata) =~ data
  new(g.calls) == g.calls + 1 && new(g.cfn) == self && new(g.cnode) == reg
  new(g.hpan) == 0
  new(g.herr) == err
  len(res) <= 252
  new(g.cdata) =~ data
  new(g.hres) =~ res
