#!/usr/bin/env python3
"""Writes contracts/99_e2e.spec and contracts/lemmas/e2e.go: every client
operation, run against the handler of its function code (both bodies unfolded),
over the contracts of the node's table operations."""
H = [("ReadCoils", "funcReadCoils"), ("ReadDiscreteInputs", "funcReadDiscreteInputs"),
     ("ReadHoldingRegisters", "funcReadHoldingRegisters"), ("ReadInputRegisters", "funcReadInputRegisters"),
     ("WriteSingleCoil", "funcWriteSingleCoil"), ("WriteMultipleCoils", "funcWriteMultiCoils"),
     ("WriteSingleRegister", "funcWriteSingleRegister"), ("WriteMultipleRegisters", "funcWriteMultiHoldingRegisters"),
     ("MaskWriteRegister", "funcMaskWriteRegisters"), ("ReadWriteMultipleRegisters", "funcReadWriteMultiHoldingRegisters")]
go = ['''package modbus

// generated by tools/gen_e2e.py

// lemmaLoop is a provider that hands a request to the handler its function
// code belongs to, and the answer back: what C06, C08, C12, C24 and C25 say of
// a TCP provider and a server session joined by a connection that delivers
// bytes unchanged.
type lemmaLoop struct {
	*TCPClientProvider
	node *NodeRegister
}

func (p *lemmaLoop) Send(slaveID byte, req ProtocolDataUnit) (ProtocolDataUnit, error) {
	var data []byte
	var err error
	switch req.FuncCode {''']
for c, h in H:
    go.append(f"\tcase FuncCode{c}:\n\t\tdata, err = {h}(p.node, req.Data)")
go.append('''	default:
		err = &ExceptionError{ExceptionCodeIllegalFunction}
	}
	if err != nil {
		return ProtocolDataUnit{}, err
	}
	return ProtocolDataUnit{req.FuncCode, data}, nil
}
''')
sp = ['''# generated by tools/gen_e2e.py
# End to end: a client operation against the node it addresses.
func (*lemmaLoop).Send(p, id, req) (res, err)
  inline
''']
C = ("coils", "node.coilsAddrStart", "node.coilsQuantity")
D = ("discrete", "node.discreteAddrStart", "node.discreteQuantity")
I = ("input", "node.inputAddrStart", "len(node.input)")
R = ("holding", "node.holdingAddrStart", "len(node.holding)")

def op(name, params, spec, req, here, there, tab, ret, handler, extra=(), loops=()):
    ps = ", ".join(p for p, _ in params)
    args = ", ".join(f"{p} {t}" for p, t in params)
    go.append(f"func lemmaE2E{name}(node *NodeRegister, id byte, {args}) {ret} {{\n\tc := &client{{&lemmaLoop{{nil, node}}, AddressMin, AddressMax}}\n\treturn c.{name}(id, {ps})\n}}\n")
    sp.append(f"func lemmaE2E{name}(node, id, {ps}) ({spec})")
    sp.append(f"  requires !isnil(node) && id >= 1 && id <= 247{req}")
    sp.append(f"  unfold (*client).{name}")
    for u in (handler,) + tuple(extra):
        sp.append(f"  unfold {u}")
    for l in loops:
        sp.append(f"  loop {l}")
    sp.append("  takes node.rw\n  nopanic [C26]\n  frame [C26]")
    if tab:
        sp.append(f"  modifies node.{tab}[]")
    sp.append(f"  case there: {here}")
    sp.append("    [C26] err == nil")
    for t in there:
        sp.append(f"    [C26] {t}")
    sp.append("  case outside: otherwise\n    [C26] exc(err, 2)")
    if tab:
        sp.append(f"    [C26] new(node.{tab}) =~ node.{tab}")
    sp.append("")

A = ("addr", "uint16"); Q = ("q", "uint16")
BR = "([]byte, error)"; WR = "([]uint16, error)"; E = "error"
rb = ("readBits",); rr = ("readRegisters",)
def inr(a, q, t): return f"inr({a}, {q}, {t[1]}, {t[2]})"
for n, t, h in (("ReadCoils", C, "funcReadCoils"), ("ReadDiscreteInputs", D, "funcReadDiscreteInputs")):
    op(n, [A, Q], "res, err", " && q >= 1 && q <= 2000", inr("addr", "q", t), [f"res =~ getbits(node.{t[0]}, addr - {t[1]}, q)"], None, BR, h, rb)
for n, t, h in (("ReadInputRegisters", I, "funcReadInputRegisters"), ("ReadHoldingRegisters", R, "funcReadHoldingRegisters")):
    sl = f"node.{t[0]}[addr - {t[1]}:addr - {t[1]} + q]"
    op(n + "Bytes", [A, Q], "res, err", " && q >= 1 && q <= 125", inr("addr", "q", t), [f"res =~ bebytes({sl})"], None, BR, h, rr)
    op(n, [A, Q], "res, err", " && q >= 1 && q <= 125", inr("addr", "q", t), [f"res =~ {sl}"], None, WR, h, rr + (f"(*client).{n}Bytes",))
op("WriteSingleCoil", [A, ("on", "bool")], "err", "", inr("addr", 1, C), [f"new(node.coils) =~ setbits(node.coils, addr - {C[1]}, 1, bytes(on ? 1 : 0))"], "coils", E, "funcWriteSingleCoil")
op("WriteMultipleCoils", [A, Q, ("val", "[]byte")], "err", " && q >= 1 && q <= 1968 && len(val) * 8 >= q", inr("addr", "q", C), [f"new(node.coils) =~ setbits(node.coils, addr - {C[1]}, q, val)"], "coils", E, "funcWriteMultiCoils")
op("WriteSingleRegister", [A, ("v", "uint16")], "err", "", inr("addr", 1, R), [f"new(node.holding) =~ upd(node.holding, addr - {R[1]}, mk16(1, j => v))"], "holding", E, "funcWriteSingleRegister")
op("WriteMultipleRegistersBytes", [A, Q, ("val", "[]byte")], "err", " && q >= 1 && q <= 123 && len(val) == 2 * q", inr("addr", "q", R), [f"new(node.holding) =~ upd(node.holding, addr - {R[1]}, words(val))"], "holding", E, "funcWriteMultiHoldingRegisters")
op("WriteMultipleRegisters", [A, Q, ("val", "[]uint16")], "err", " && q >= 1 && q <= 123 && len(val) == q", inr("addr", "q", R), [f"new(node.holding) =~ upd(node.holding, addr - {R[1]}, val)"], "holding", E, "funcWriteMultiHoldingRegisters", ("(*client).WriteMultipleRegistersBytes",))
op("MaskWriteRegister", [A, ("and", "uint16"), ("or", "uint16")], "err", "", inr("addr", 1, R), [f"new(node.holding) =~ upd(node.holding, addr - {R[1]}, mk16(1, j => (node.holding[addr - {R[1]}] & and) | (or & ~and)))"], "holding", E, "funcMaskWriteRegisters")
P = [("ra", "uint16"), ("rq", "uint16"), ("wa", "uint16"), ("wq", "uint16")]
lim = " && rq >= 1 && rq <= 125 && wq >= 1 && wq <= 121 && len(val) == 2 * wq"
both = inr("ra", "rq", R) + " && " + inr("wa", "wq", R)
wr = f"new(node.holding) =~ upd(node.holding, wa - {R[1]}, words(val))"
sl = f"new(node.holding)[ra - {R[1]}:ra - {R[1]} + rq]"
op("ReadWriteMultipleRegistersBytes", P + [("val", "[]byte")], "res, err", lim, both, [wr, f"res =~ bebytes({sl})"], "holding", BR, "funcReadWriteMultiHoldingRegisters")
op("ReadWriteMultipleRegisters", P + [("val", "[]byte")], "res, err", lim, both, [wr, f"res =~ {sl}"], "holding", WR, "funcReadWriteMultiHoldingRegisters", ("(*client).ReadWriteMultipleRegistersBytes",))
open("/verif/contracts/99_e2e.spec", "w").write("\n".join(sp))
open("/verif/contracts/lemmas/e2e.go", "w").write("\n".join(go))
