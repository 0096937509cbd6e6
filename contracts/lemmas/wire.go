package modbus

// lemmaWire is one exchange seen from both ends: the client's encoder, the
// server session's processing of the frame, the client's decoder and checks.
// In between the connection delivers bytes unchanged (lemmaDeliver,
// lemmaArrive: the assumption that C26 names).
func lemmaWire(fr *protocolFrame, sess *ServerSession, tid uint16, id byte, req ProtocolDataUnit) (rsp ProtocolDataUnit, err, down error) {
	head, adu, err := fr.encodeTCPFrame(tid, id, req)
	if err != nil {
		return rsp, err, nil
	}
	if down = sess.frameHandler(lemmaDeliver(adu)); down != nil {
		return rsp, down, down
	}
	back := lemmaArrive()
	if len(back) == 0 || len(back) > 260 {
		return rsp, nil, nil // no answer, or more than a client takes in
	}
	rspHead, pdu, err := decodeTCPFrame(back)
	if err != nil {
		return rsp, err, nil
	}
	rsp = ProtocolDataUnit{pdu[0], pdu[1:]}
	return rsp, verifyTCPFrame(head, rspHead, req, rsp), nil
}

func lemmaDeliver(b []byte) []byte { return append([]byte(nil), b...) }
func lemmaArrive() []byte          { return nil }
