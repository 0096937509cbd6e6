func CRC16(bs) (res)
  loop $w16 == crc(0xFFFF, bs[:$k])
  nopanic [C09]
  [C09] res == crc(0xFFFF, bs)
  frame [C09]
  modifies caches

func verify(reqSlaveID, rspSlaveID, reqPDU, rspPDU) (err)
  nopanic [C05]
  frame [C05]
  [C05] err == nil ==> rspSlaveID == reqSlaveID
  [C05] err == nil ==> rspPDU.FuncCode == reqPDU.FuncCode && len(rspPDU.Data) >= 1
  [C05] rspSlaveID == reqSlaveID && rspPDU.FuncCode == reqPDU.FuncCode && len(rspPDU.Data) >= 1 ==> err == nil
  [C05] rspSlaveID == reqSlaveID && rspPDU.FuncCode != reqPDU.FuncCode ==> exc(err, len(rspPDU.Data) > 0 ? rspPDU.Data[0] : 0)

func decodeTCPFrame(adu) (head, pdu, err)
  requires len(adu) <= 65541
  nopanic [C12]
  frame [C12]
  mayalias pdu: adu
  case good: len(adu) >= 8 && u16(adu, 4) == len(adu) - 6
    [C12] err == nil
    [C12] head.transactionID == u16(adu, 0)
    [C12] head.protocolID == u16(adu, 2)
    [C12] head.length == u16(adu, 4)
    [C12] head.slaveID == adu[6]
    [C12] pdu =~ adu[7:]
  case bad: otherwise
    [C12] err != nil

func (*protocolFrame).encodeTCPFrame(sf, tid, slaveID, pdu) (head, res, err)
  requires cap(sf.adu) >= 260
  nopanic [C12]
  frame [C12]
  modifies sf.adu[]
  mayalias res: sf.adu
  case fits: len(pdu.Data) <= 252
    [C12] err == nil
    [C12] head.transactionID == tid && head.protocolID == 0 && head.length == len(pdu.Data) + 2 && head.slaveID == slaveID
    [C12] res =~ cat(be16(tid), be16(0), be16(len(pdu.Data) + 2), bytes(slaveID, pdu.FuncCode), pdu.Data)
  case big: otherwise
    [C12] err != nil && isnil(res)
