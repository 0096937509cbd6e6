#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line).
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Client operations transmit exactly the Modbus request they stand for",
  "Every client operation called with arguments inside the protocol limits hands exactly one request to its provider, addressed to the given slave, whose function code and data are the Modbus encoding of the arguments: big-endian address and quantity/value/masks, ON as 0xFF00 and OFF as 0x0000, and for multi-writes a byte count equal to the number of value bytes the quantity calls for (ceil(q/8) for coils, 2q for registers) followed by exactly those bytes of the caller's value. Register-slice arguments are encoded big-endian.",
  ["inputs"],"all slave ids, addresses, quantities, masks and value slices of any length",
  "The tests use a stub provider that ignores the request it is given, so no test ever looks at an encoded request.",
  ["client.go"],[("ReadCoils … ReadFIFOQueue build the PDU","client.go"),("uint162Bytes, pduDataBlockSuffix","client.go")],observe=["ClientProvider.Send arguments"])
p("C02","Client operations refuse arguments outside the protocol limits, sending nothing",
  "Reads (and the combined read/write, and the FIFO read) accept only slave ids between the configured minimum and maximum, writes only ids from 0 to the configured maximum (defaults 1 and 247); quantities are accepted only in 1..2000 for bit reads, 1..1968 for coil writes, 1..125 for register reads, 1..123 for register writes, and 1..125 / 1..121 for the read and write part of the combined operation; a value slice too short for (coils) or not exactly matching (registers) the quantity is refused. A refused call returns an error, no result, and transmits nothing; a call within the limits is never refused before transmission.",
  ["inputs","configurations"],"all argument tuples and all configured address limits",
  "The tests sample one value just outside a few limits and never observe whether something was sent.",
  ["client.go","modbus.go"],[("range checks at the head of every operation","client.go"),("quantity limits","modbus.go")],observe=["ClientProvider.Send call count","returned error"])
p("C03","Client reads return exactly the payload of a consistent response, else an error",
  "A client read succeeds only if the response's byte count equals both the number of payload bytes present and the number the requested quantity implies (for the FIFO read: byte count = 2 + 2*FIFO count = bytes present, FIFO count at most 31), and then returns exactly that payload, register-typed variants as its big-endian words. For every other response it returns an error and no result, and it never panics whatever non-empty response data arrives.",
  ["inputs"],"all response data (any length >= 1, any bytes), all quantities",
  "Tests feed a handful of canned responses per operation.",
  ["client.go"],[("response checks after Send","client.go"),("bytes2Uint16","client.go")],observe=["return values of the read operations"])
p("C04","Client writes report success only for an exact echo",
  "A client write operation returns nil only if the provider returned without error and the response data is exactly the required echo: address and value (single writes), address and quantity (multiple writes), address, AND mask and OR mask (mask write), with no missing or extra bytes. In every other case it returns an error, without panicking.",
  ["inputs"],"all request arguments and all response data",
  "Tests check a few mismatching responses per operation.",
  ["client.go"],[("echo checks after Send","client.go")],observe=["returned error"])
p("C05","Serial clients accept only the matching slave's answer to the request",
  "On the RTU and ASCII providers, the PDU-level exchange functions return a response without error only when the received frame is valid, comes from the addressed slave, carries the requested function code and has at least one data byte; they then return exactly the function code and data of that frame. A valid frame from the addressed slave whose function code is the request's with the high bit set yields an error that is a Modbus exception carrying the frame's exception code.",
  ["inputs"],"all requests and all received frames",
  "Tests call the comparison helper with four samples; no test performs a serial exchange.",
  ["client_rtu.go","client_ascii.go","client.go"],[("verify","client_rtu.go"),("responseError","client.go"),("Send, SendPdu","client_rtu.go, client_ascii.go")],observe=["return values of Send and SendPdu"])
p("C06","TCP client accepts only the answer to its own request",
  "On the TCP provider, the PDU-level exchange functions return a response without error only when the received frame's length field is consistent and its transaction id, protocol id, unit id and function code are those of the request and it has at least one data byte; they then return exactly the function code and data of that frame. A frame matching in the three header ids whose function code is the request's with the high bit set yields a Modbus exception error carrying the frame's exception code.",
  ["inputs"],"all requests and all received frames",
  "Tests call the comparison helper with six samples and do one loopback read.",
  ["client_tcp.go","client.go"],[("verifyTCPFrame","client_tcp.go"),("decodeTCPFrame","client_tcp.go"),("Send, SendPdu","client_tcp.go")],observe=["return values of Send and SendPdu"])
p("C07","Every TCP request carries a fresh transaction id",
  "Each PDU-level exchange on a TCP provider advances the provider's transaction counter by exactly one, in one indivisible step, and its request frame carries the low 16 bits of the advanced counter, so that any 65536 consecutive requests of one provider carry pairwise different transaction ids.",
  ["histories","schedules"],"all counter values, all interleavings of callers",
  "The only test that goes through the counter performs one request.",
  ["client_tcp.go"],[("atomic.AddUint32 on transactionID","client_tcp.go Send, SendPdu")],state=[("transactionID","last transaction id issued","client_tcp.go TCPClientProvider")],observe=["transmitted frames"])
p("C08","RTU framing is exact and invertible",
  "An RTU request frame is exactly slave id, function code, data, then the CRC-16 of those bytes low byte first, and a PDU of more than 253 bytes is refused with an error. A received frame is accepted if and only if it has at least 4 bytes and its last two bytes are the CRC of the rest, and then yields exactly its slave id and PDU; so decoding an encoded frame returns what was encoded.",
  ["inputs"],"all slave ids, function codes and data of every length; all byte strings as received frames",
  "Tests encode and decode one frame each and never try a wrong CRC.",
  ["client_rtu.go","crc.go"],[("encodeRTUFrame","client_rtu.go"),("decodeRTUFrame","client_rtu.go")],observe=["frames written", "decoded PDU"])
p("C09","CRC16 is the Modbus CRC for every byte sequence",
  "For every byte sequence, of any length, the CRC function returns the CRC-16/MODBUS checksum (initial value 0xFFFF, reflected polynomial 0xA001, no final xor) as defined bit by bit, also when it is used for the first time by several goroutines at once.",
  ["inputs","schedules"],"all byte sequences of all lengths; first uses from any number of goroutines",
  "One five-byte sample is tested; a table entry outside it could be wrong.",
  ["crc.go"],[("CRC16 table loop","crc.go"),("initCrcTable","crc.go")],state=[("table","one entry per byte value","crc.go")],observe=["CRC16 result"])
p("C10","ASCII framing is exact and invertible",
  "An ASCII request frame is exactly ':', then slave id, function code, data and LRC as upper-case hex digit pairs, then CR LF, and a PDU of more than 253 bytes is refused with an error, never a panic. A received frame is accepted if and only if it has odd length of at least 9, starts with ':', ends with CR LF, contains only hex digits between and its LRC matches, and then yields exactly its slave id and PDU; so decoding an encoded frame returns what was encoded.",
  ["inputs"],"all slave ids, function codes and data of every length; all byte strings as received frames",
  "Tests encode and decode two short frames.",
  ["client_ascii.go","lrc.go"],[("encodeASCIIFrame","client_ascii.go"),("decodeASCIIFrame","client_ascii.go")],observe=["frames written","decoded PDU"])
p("C11","LRC is the two's complement of the byte sum",
  "After a reset, pushing any bytes in any number of calls makes the LRC value the two's complement of their sum modulo 256, so that the bytes and their LRC always add up to zero modulo 256.",
  ["inputs","histories"],"all byte sequences split over any number of pushes",
  "One four-byte sample is tested.",
  ["lrc.go"],[("Reset, Push, Value","lrc.go")],observe=["LRC.Value"])
p("C12","TCP (MBAP) framing is exact and invertible",
  "A TCP request frame is exactly the transaction id, protocol id 0, a length field of PDU length + 1, the unit id, and the PDU, all fields big-endian, and a PDU of more than 253 bytes is refused with an error. A received frame of at most 260 bytes is accepted if and only if it has at least 8 bytes and its length field equals the number of bytes that follow it, and then yields exactly its header fields and PDU; so decoding an encoded frame returns what was encoded.",
  ["inputs"],"all header values and PDUs of every length; all byte strings as received frames",
  "Tests encode and decode one frame each.",
  ["client_tcp.go"],[("encodeTCPFrame","client_tcp.go"),("decodeTCPFrame","client_tcp.go")],observe=["frames written","decoded header and PDU"])
p("C13","A TCP exchange consumes exactly one response frame, whatever the peer sends",
  "A raw TCP exchange writes exactly the given request bytes and, when it succeeds, returns precisely the next bytes of the connection's byte stream: the 7-byte header plus as many bytes as its length field announces beyond the unit id, and consumes nothing beyond them, however the stream is segmented. A length field of zero or one that would exceed the 260-byte maximum gives an error; no byte sequence, read error or early end of stream makes it panic or return unread buffer bytes.",
  ["inputs","fault_sequences"],"all peer byte streams, all segmentations, all I/O error points",
  "One loopback test with one well-behaved response.",
  ["client_tcp.go"],[("SendRawFrame: header read, length check, body read","client_tcp.go")],observe=["bytes read from and written to the connection","returned frame"])
p("C14","An RTU exchange sends the request and reads the implied response",
  "A raw RTU exchange writes exactly the given request bytes; when it succeeds it returns precisely the bytes received, and these include the full length the request implies, when that fits the 256-byte maximum (for a normal answer, by function code and quantity; for a FIFO read, by the byte count in the response) or 5 bytes for an exception answer, however the bytes are segmented. An answer whose function code is neither is an error; no request of any length and no received bytes make it panic.",
  ["inputs","fault_sequences"],"all requests of 0 to 256 bytes, all received byte streams, segmentations and I/O errors",
  "No test opens a serial port; the length computation is tested on seven samples.",
  ["client_rtu.go"],[("SendRawFrame","client_rtu.go"),("calculateResponseLength","client_rtu.go")],observe=["port reads and writes","returned frame"])
p("C15","An ASCII exchange sends the request and reads the response up to CR LF",
  "A raw ASCII exchange writes exactly the given request bytes; if the write succeeds it goes on to read the response, and when it succeeds it returns precisely the bytes received, at most 513, stopping when they end in CR LF. A failed write is reported as an error and closes the port; no received bytes, segmentation or read error makes it panic.",
  ["inputs","fault_sequences"],"all requests, all received byte streams, segmentations and I/O errors",
  "No test performs an ASCII exchange at all.",
  ["client_ascii.go"],[("SendRawFrame","client_ascii.go")],observe=["port reads and writes","returned frame"])
p("C16","Bit tables behave as arrays of independent bits",
  "For every node and every in-range span of coils or discrete inputs, a read returns the stored bits packed least-significant-bit first into ceil(q/8) bytes with zero padding, and a write stores exactly the given bits into exactly the addressed positions. No other bit of that table and no other table changes, and reads change nothing; the single-bit variants behave as spans of length one.",
  ["inputs","histories"],"all table sizes and contents, start addresses, spans (including unaligned and up to 65535 bits) and values",
  "Tests use one 16-bit table with two spans.",
  ["register.go"],[("ReadCoils, WriteCoils, ReadDiscretes, WriteDiscretes","register.go"),("getBits, setBits","register.go")],state=[("coils, discrete","packed bits, LSB first","register.go NodeRegister")],observe=["results of the bit table operations"])
p("C17","Register tables behave as arrays of independent 16-bit words",
  "For every node and every in-range span of holding or input registers, a read returns exactly the stored words (big-endian in the byte variants) and a write stores exactly the given words into exactly the addressed registers. No other register and no other table changes, reads change nothing, and a byte-variant write whose value is not exactly twice the quantity is refused with an exception and changes nothing.",
  ["inputs","histories"],"all table sizes and contents, start addresses, spans up to 65535 registers and values",
  "Tests use one three-register table.",
  ["register.go"],[("ReadHoldings(Bytes), WriteHoldings(Bytes), ReadInputs(Bytes), WriteInputs(Bytes)","register.go")],state=[("holding, input","one word per register","register.go NodeRegister")],observe=["results of the register table operations"])
p("C18","Mask write computes (value AND and-mask) OR (or-mask AND NOT and-mask)",
  "A mask write to an existing holding register replaces exactly that register's content by (content AND and-mask) OR (or-mask AND NOT and-mask) and changes nothing else, whatever the table's start address; on a non-existing register it is refused with an illegal-data-address exception and changes nothing.",
  ["inputs"],"all table start addresses and sizes, register addresses, contents and masks",
  "Tests use one table that starts at address 0.",
  ["register.go"],[("MaskWriteHolding","register.go")],observe=["holding registers"])
p("C19","Out-of-range table accesses are refused without side effects",
  "For every table of a node and every address and quantity, an access that is not wholly inside [start, start+size) is refused with an illegal-data-address exception, returns no data, changes nothing and does not panic, also when address+quantity exceeds 65535; every access wholly inside is accepted (given value data of matching size).",
  ["inputs"],"all start addresses, sizes, addresses and quantities in 0..65535",
  "Tests try three out-of-range accesses on a table starting at 0; the 16-bit wrap-around corner is never reached.",
  ["register.go"],[("address range checks","register.go")],observe=["returned error","table contents"])
p("C20","Table operations are atomic and never leave the node locked",
  "Every operation on a node's tables or slave id performs all its accesses to them inside one critical section of the node's lock, exclusive if it modifies, and has released the lock when it returns, with or without error. So concurrent operations on one node act as if executed one after another, and no call blocks later ones.",
  ["schedules","inputs"],"all interleavings of operations from any goroutines, all arguments and error paths",
  "Tests are single-threaded and never look at the lock after an error path.",
  ["register.go","function.go"],[("rw lock acquire/release in every method","register.go")],state=[("rw","guards table contents and slave id","register.go NodeRegister")],observe=["lock state at accesses and at return"])
p("C21","A new node has the requested tables, zeroed and separate",
  "A newly created node has the given slave id and four tables with exactly the given start addresses and sizes, all bits and words zero, and no storage shared between tables, for all sizes from 0 to 65535; the parameter accessors report those starts and sizes.",
  ["inputs","configurations"],"all slave ids, start addresses and sizes",
  "One configuration of sizes 10 is tested.",
  ["register.go"],[("NewNodeRegister slices one backing array per type","register.go"),("CoilsAddrParam … HoldingAddrParam","register.go")],observe=["new node's tables"])
p("C22","Server answers malformed requests with an exception and changes nothing",
  "For each supported function, a request whose data has the wrong length, a quantity outside the protocol limits, a byte count disagreeing with the quantity or with the bytes present, or a coil value other than 0xFF00/0x0000 is answered with the illegal-data-value exception, and a well-formed request for addresses outside the node's tables with illegal-data-address. No request answered with an exception changes any table, and no request data makes a handler panic.",
  ["inputs"],"all request data of any length, all node configurations and contents",
  "Tests try one short request and one bad quantity per function and do not look at the tables afterwards.",
  ["function.go"],[("checks at the head of each handler","function.go")],observe=["exception code","table contents"])
p("C23","Server functions have exactly the effect and answer the protocol defines",
  "For each supported function, a well-formed in-range request has exactly the specified effect on the node's tables and nothing else: reads answer byte count and the addressed contents; writes store the given values (coil ON iff 0xFF00) and answer the echo of address and value/quantity/masks; the combined function writes first, then answers the addressed contents.",
  ["inputs","histories"],"all well-formed requests, all node configurations and contents",
  "Tests run one or two samples per function and check only the answer.",
  ["function.go","register.go"],[("funcRead…/funcWrite… handlers","function.go")],observe=["response data","table contents"])
p("C24","Server answers each request frame once, with a well-formed matching response",
  "For a frame addressed to an existing node the server writes exactly one response: same transaction id, protocol id and unit id, a length field equal to the bytes that follow it, then either the request's function code and the handler's data, or the function code with the high bit set and one exception code: illegal-function if no handler is registered, the handler's exception code if it reports one, server-device-failure for any other handler error. For an unknown node it writes nothing. (A registered handler that panics, or returns more than the 252 data bytes a frame can carry, is outside this guarantee, except that it does not bring the session down.)",
  ["inputs","configurations"],"all frames, node sets, handler tables and handler outcomes",
  "One loopback read is tested.",
  ["server_tcp_session.go"],[("frameHandler","server_tcp_session.go")],observe=["bytes written to the connection"])
p("C25","Server sessions survive any byte stream and handle its frames in order",
  "For every byte stream and every segmentation, a server session hands to request processing exactly the complete frames of the stream with protocol id 0, each once, in order and byte for byte (frames are cut by their length fields; a 7-byte header with another protocol id is dropped), keeps a header announcing a frame shorter than 8 or longer than 260 bytes from ever being processed, and never panics or touches memory outside its buffer. No bytes a peer can send bring the server process down.",
  ["inputs","fault_sequences"],"all byte streams, segmentations and read errors",
  "One well-formed request over loopback is tested.",
  ["server_tcp_session.go"],[("running: header read, protocol and length check, body read","server_tcp_session.go")],observe=["frames passed to the handler","process liveness"])
p("C26","Client and server agree end to end",
  "For every client operation with valid arguments addressed to a node of this library's server, over a TCP connection that delivers bytes unchanged, the call succeeds exactly when the addressed span exists in the node's table, a read then returns the node's current contents and a write leaves exactly the given values there; otherwise the client gets the illegal-data-address exception and the node is unchanged.",
  ["inputs"],"all operations, arguments, node configurations and contents",
  "One ReadCoils of ten zero coils is tested end to end.",
  ["client.go","client_tcp.go","server_tcp_session.go","function.go","register.go"],[("client request encoding","client.go"),("MBAP framing","client_tcp.go"),("dispatch and handlers","server_tcp_session.go, function.go")],observe=["client results","node tables"])
p("C27","Node registry and handler table act as maps",
  "Looking up a slave id returns the node most recently added under that id unless it was deleted since, and fails otherwise; adding or deleting nodes affects no other id. A fresh server dispatches each of the ten standard function codes to the handler implementing that function and no other code; registering a handler replaces exactly that code's handler, and registering nil changes nothing.",
  ["histories","inputs"],"all sequences of additions, deletions, registrations and look-ups",
  "One lookup before and one after a deletion are tested; handler registration is not.",
  ["function.go"],[("AddNodes, DeleteNode, GetNode","function.go"),("newServerCommon, RegisterFunctionHandler","function.go")],state=[("node","slave id to node","function.go serverCommon"),("function","function code to handler","function.go serverCommon")],observe=["GetNode result","dispatched handler"])
p("C28","Pooled frame buffers are exclusive, large enough and never escape",
  "Each exchange on a provider uses a pooled buffer large enough for every frame it may encode, gives it back exactly once, on every path and only after its last use, and returns no data that shares memory with it. So no exchange can see or corrupt another's frame or a result already returned to a caller.",
  ["schedules","inputs","histories"],"all interleavings of exchanges on any providers, all requests and outcomes",
  "The pool test gets one buffer from a pool; no test returns or shares one.",
  ["buffer.go","client_rtu.go","client_ascii.go","client_tcp.go"],[("pool get/put","buffer.go"),("frame get + deferred put","Send, SendPdu of each provider")],observe=["buffer capacity","buffer ownership","aliasing of results"])
p("C29","One exchange at a time per connection; connection state is consistent",
  "On every provider, opening, closing, querying and using the connection happens only under the provider's lock, held from before the request is written until the response is complete, and released when the call returns on every path. Opening dials only when not connected and leaves the provider connected exactly when it succeeds; closing leaves it not connected and is harmless when repeated; the status query reports whether a connection is held.",
  ["schedules","fault_sequences"],"all interleavings of callers, all I/O outcomes",
  "Tests are single-threaded; one connect/close sequence on TCP is tested.",
  ["client_tcp.go","client_rtu.go","client_ascii.go","serial.go"],[("mu lock in SendRawFrame, Connect, Close, IsConnected","client_tcp.go, client_rtu.go, client_ascii.go, serial.go")],state=[("conn / port","nil when not connected","client_tcp.go, serial.go")],observe=["lock state at connection accesses","IsConnected"])
p("C30","Raw PDU exchange accepts 1 to 253 byte PDUs and sends them unchanged",
  "The raw PDU exchange of each provider refuses a PDU of 0 or more than 253 bytes with an error, transmitting nothing, and for every other PDU transmits exactly one frame that contains precisely the given slave id and PDU; on success it returns the complete response PDU, function code included. No PDU makes it panic.",
  ["inputs"],"all PDUs of any length and content, all three transports",
  "No test calls the raw PDU exchange.",
  ["client_rtu.go","client_ascii.go","client_tcp.go"],[("SendPdu","client_rtu.go, client_ascii.go, client_tcp.go")],observe=["frames written","returned PDU"])
p("C31","Every blocking TCP read and write is bounded by the configured timeout",
  "On the TCP client with a positive timeout, every write and read of an exchange happens under a deadline armed during that exchange and no later than the configured timeout from the moment it was armed; with no timeout configured the deadline is cleared first. On a server session, every read happens under a deadline of the configured read timeout and every write under one of the configured write timeout, each armed immediately before.",
  ["inputs","fault_sequences"],"all timeouts, all I/O outcomes",
  "No test lets a peer stall.",
  ["client_tcp.go","server_tcp_session.go"],[("SetDeadline before each I/O","client_tcp.go SendRawFrame"),("SetReadDeadline / SetWriteDeadline","server_tcp_session.go")],observe=["deadline in force at each read and write"])
p("C32","Configuration takes effect exactly as given",
  "The address-limit, timeout, serial-configuration, logger and server setters store exactly the value given and change nothing else; nil loggers, nil callbacks and non-positive keep-alive intervals are ignored; defaults are address limits 1 and 247, a 1 s client timeout, and 60 s / 1 s server read / write timeouts. Log output reaches the configured log provider exactly when logging is enabled.",
  ["inputs","configurations","histories"],"all setter arguments and orders",
  "Tests call almost none of the setters.",
  ["client.go","client_option.go","client_tcp.go","serial.go","log.go","server_tcp.go","server_tcp_special.go"],[("NewClient and options","client.go"),("setters","client_option.go, serial.go, server_tcp.go, server_tcp_special.go"),("LogMode gate","log.go")],observe=["fields used by the operations"])
p("C33","Closing the server ends every session before it returns",
  "After Close of a TCP server returns, the listener is closed and no session goroutine of that server is running or will answer another request.",
  ["schedules","histories"],"all interleavings of accepts, sessions and Close",
  "One test closes an idle server.",
  ["server_tcp.go","server_tcp_session.go"],[("WaitGroup and context cancellation","server_tcp.go")],observe=["goroutines after Close"])
p("C34","The dialing server keeps reconnecting until closed",
  "A dialing server dials only while it is not closed. With automatic reconnection a failed dial is followed by another one, and so is a connection that ended or that the connect callback refused, which is then closed; without automatic reconnection a failed dial is the end. The connect callback runs once per connection, before anything is served on it; a connection it accepted is served, and when it is over the connection-lost callback runs exactly once, before the next dial. The keep-alive handler is called only if enabled, and only for connections the connect callback accepted. A Close at any time after Start ends the connection and all dialing, and IsConnected and IsClosed tell the state throughout. (That attempts and the end come eventually, and the keep-alive handler falls silent after a connection, are observed on runs, with generous limits, not proved.)",
  ["schedules","fault_sequences","histories"],"all sequences of dial failures, refusals, connection losses and Close",
  "No test starts a dialing server.",
  ["server_tcp_special.go"],[("run loop","server_tcp_special.go run"),("Start and Close","server_tcp_special.go")],observe=["dial attempts","callback order","IsConnected, IsClosed"])
p("C35","The TCP client recovers from a failed exchange",
  "After an exchange on a TCP provider that failed because of a timeout, an I/O error or an answer that is not its own, nothing the peer sent or still sends for it is taken for the answer to a later exchange: the provider gives the connection up, so the next exchange works on a connection of its own, and exchanges succeed again when the peer answers correctly. A provider that is still connected after an exchange has consumed exactly the whole answer frame carrying that exchange's transaction id.",
  ["histories","fault_sequences","schedules"],"all histories of late, partial, duplicated, foreign and missing responses",
  "No test lets an exchange fail and then continues.",
  ["client_tcp.go"],[("close after a failed exchange","client_tcp.go SendRawFrame"),("transaction id check","client_tcp.go Send, SendPdu")],observe=["outcome of exchanges after a failure","connection state after an exchange"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
