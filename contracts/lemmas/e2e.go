package modbus

// generated by tools/gen_e2e.py

// lemmaLoop is a provider that hands a request to the handler its function
// code belongs to, and the answer back: what C06, C08, C12, C24 and C25 say of
// a TCP provider and a server session joined by a connection that delivers
// bytes unchanged.
type lemmaLoop struct {
	*TCPClientProvider
	node *NodeRegister
}

func (p *lemmaLoop) Send(slaveID byte, req ProtocolDataUnit) (ProtocolDataUnit, error) {
	var data []byte
	var err error
	switch req.FuncCode {
	case FuncCodeReadCoils:
		data, err = funcReadCoils(p.node, req.Data)
	case FuncCodeReadDiscreteInputs:
		data, err = funcReadDiscreteInputs(p.node, req.Data)
	case FuncCodeReadHoldingRegisters:
		data, err = funcReadHoldingRegisters(p.node, req.Data)
	case FuncCodeReadInputRegisters:
		data, err = funcReadInputRegisters(p.node, req.Data)
	case FuncCodeWriteSingleCoil:
		data, err = funcWriteSingleCoil(p.node, req.Data)
	case FuncCodeWriteMultipleCoils:
		data, err = funcWriteMultiCoils(p.node, req.Data)
	case FuncCodeWriteSingleRegister:
		data, err = funcWriteSingleRegister(p.node, req.Data)
	case FuncCodeWriteMultipleRegisters:
		data, err = funcWriteMultiHoldingRegisters(p.node, req.Data)
	case FuncCodeMaskWriteRegister:
		data, err = funcMaskWriteRegisters(p.node, req.Data)
	case FuncCodeReadWriteMultipleRegisters:
		data, err = funcReadWriteMultiHoldingRegisters(p.node, req.Data)
	default:
		err = &ExceptionError{ExceptionCodeIllegalFunction}
	}
	if err != nil {
		return ProtocolDataUnit{}, err
	}
	return ProtocolDataUnit{req.FuncCode, data}, nil
}

func lemmaE2EReadCoils(node *NodeRegister, id byte, addr uint16, q uint16) ([]byte, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadCoils(id, addr, q)
}

func lemmaE2EReadDiscreteInputs(node *NodeRegister, id byte, addr uint16, q uint16) ([]byte, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadDiscreteInputs(id, addr, q)
}

func lemmaE2EReadInputRegistersBytes(node *NodeRegister, id byte, addr uint16, q uint16) ([]byte, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadInputRegistersBytes(id, addr, q)
}

func lemmaE2EReadInputRegisters(node *NodeRegister, id byte, addr uint16, q uint16) ([]uint16, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadInputRegisters(id, addr, q)
}

func lemmaE2EReadHoldingRegistersBytes(node *NodeRegister, id byte, addr uint16, q uint16) ([]byte, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadHoldingRegistersBytes(id, addr, q)
}

func lemmaE2EReadHoldingRegisters(node *NodeRegister, id byte, addr uint16, q uint16) ([]uint16, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadHoldingRegisters(id, addr, q)
}

func lemmaE2EWriteSingleCoil(node *NodeRegister, id byte, addr uint16, on bool) error {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.WriteSingleCoil(id, addr, on)
}

func lemmaE2EWriteMultipleCoils(node *NodeRegister, id byte, addr uint16, q uint16, val []byte) error {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.WriteMultipleCoils(id, addr, q, val)
}

func lemmaE2EWriteSingleRegister(node *NodeRegister, id byte, addr uint16, v uint16) error {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.WriteSingleRegister(id, addr, v)
}

func lemmaE2EWriteMultipleRegistersBytes(node *NodeRegister, id byte, addr uint16, q uint16, val []byte) error {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.WriteMultipleRegistersBytes(id, addr, q, val)
}

func lemmaE2EWriteMultipleRegisters(node *NodeRegister, id byte, addr uint16, q uint16, val []uint16) error {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.WriteMultipleRegisters(id, addr, q, val)
}

func lemmaE2EMaskWriteRegister(node *NodeRegister, id byte, addr uint16, and uint16, or uint16) error {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.MaskWriteRegister(id, addr, and, or)
}

func lemmaE2EReadWriteMultipleRegistersBytes(node *NodeRegister, id byte, ra uint16, rq uint16, wa uint16, wq uint16, val []byte) ([]byte, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadWriteMultipleRegistersBytes(id, ra, rq, wa, wq, val)
}

func lemmaE2EReadWriteMultipleRegisters(node *NodeRegister, id byte, ra uint16, rq uint16, wa uint16, wq uint16, val []byte) ([]uint16, error) {
	c := &client{&lemmaLoop{nil, node}, AddressMin, AddressMax}
	return c.ReadWriteMultipleRegisters(id, ra, rq, wa, wq, val)
}
