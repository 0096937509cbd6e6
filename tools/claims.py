BASE=" Trusted: the engine in /verif/gover, go/ssa, the solvers, the models of the standard library listed in the evidence. Termination is not proved."
CLAIMED={
"C09":"CRC16 proved equal to the bitwise CRC-16/MODBUS for byte sequences of every length (loop invariant over a fold; the 256-entry table is computed by interpreting the table initialiser). Package variables filled lazily must be written and read only within or after a sync.Once, lock or atomic operation; the harness starts processes whose first use is concurrent."+BASE,
"C16":"All coil and discrete operations, getBits and setBits proved against whole-table postconditions for every table size, address, quantity and value (loops by inductive invariants)."+BASE,
"C17":"All holding and input register operations proved against whole-table postconditions for every table size, address, count and value."+BASE,
"C18":"MaskWriteHolding and the function 22 handler above it proved against (old AND and_mask) OR (or_mask AND NOT and_mask) with every other element unchanged."+BASE,
"C19":"Every table operation proved to refuse exactly the out-of-range accesses with exception 2 and to change nothing then; all index and arithmetic obligations discharged."+BASE,
"C20":"Lock discipline as obligations: every access to protected fields and table elements happens under the node's lock, in write mode for writes, one uninterrupted critical section per operation, no escape of table memory. Atomicity follows by the usual argument (assumed: sync.RWMutex excludes)."+BASE,
"C21":"NewNodeRegister and the accessors proved; the representation invariant is established here and kept by every operation."+BASE,
"C01":"Every client operation proved, for all arguments, to hand its provider exactly one request with the protocol encoding of the arguments (ghost record of the Send calls; the byte sequence of the request as a whole-sequence postcondition)."+BASE,
"C02":"Every client operation proved to refuse exactly the arguments outside the limits, sending nothing then."+BASE,
"C03":"Every read operation proved against all response data of length >= 1: success exactly for a consistent byte count, then exactly the payload; no panic."+BASE,
"C04":"Every write operation proved against all response data: nil exactly for the exact echo; no panic."+BASE,
"C05":"Send and SendPdu of the RTU and ASCII providers proved over the contracts of the raw exchange and of the frame codecs, for every received byte sequence."+BASE,
"C06":"Send and SendPdu of the TCP provider proved over the contracts of the raw exchange and of the frame codec, for every received byte sequence."+BASE,
"C07":"The counter advances by one in exactly one atomic operation per exchange, and the request written carries its low 16 bits (ghost count of atomic operations; non-atomic access fails an obligation)."+BASE,
"C08":"Encoder, decoder and the exchange functions proved against the frame format for every PDU and every byte string."+BASE,
"C10":"Encoder, decoder (hex.Decode modelled) and the exchange functions proved against the frame format for every PDU and every byte string, loops by invariants."+BASE,
"C11":"LRC operations proved against a fold for byte sequences of every length."+BASE,
"C12":"Encoder, decoder and the exchange functions proved against the frame format for every PDU and every byte string."+BASE,
"C13":"The raw TCP exchange proved over a byte-stream model of the connection (every content, length, error position; io.ReadFull modelled as consuming exactly what it fills, so segmentation does not matter)."+BASE,
"C14":"The raw RTU exchange and the response length proved over a byte-stream model of the port, reads returning any split."+BASE,
"C15":"The raw ASCII exchange proved over a byte-stream model of the port, reads returning any split; read loop by an inductive invariant."+BASE,
"C22":"The ten handlers proved over the contracts of the node operations: the exception for every malformed or out-of-range request, nothing changed then, no panic, for all request data and tables."+BASE,
"C23":"The ten handlers proved over the contracts of the node operations: effect and answer for every well-formed request, whole-table postconditions."+BASE,
"C28":"Pool discipline as obligations: a frame taken is big enough, put back exactly once on every path, not used afterwards, and no result shares memory with it."+BASE,
"C29":"Lock discipline of the providers as obligations: every access to the connection field and every I/O operation under the provider's lock, one critical section per call, released on every path; lifecycle functions against postconditions on connection field and dial count."+BASE,
"C30":"SendPdu of the three providers proved to refuse exactly the PDUs outside 1..253 bytes, sending nothing, and else to write exactly the frame with that PDU."+BASE,
"C24":"frameHandler proved over the contract of an arbitrary registered handler (callback contract) and of the connection: for every frame, node set, handler table and handler outcome, exactly the specified response is written, or nothing. Its write loop is cut by inductive invariants."+BASE,
"C25":"running() proved against every byte stream, segmentation and read error: the frames handed to frameHandler are exactly those of the stream (ghost count and call-site obligations), all index and slice obligations discharged. Its read loops are cut by inductive invariants."+BASE,
"C26":"One lemma per client operation over the real client code, the handlers and the contracts of the node operations, for every table and all arguments, with a ghost provider that hands the request to the handler of its function code; and lemmaWire, which proves that this is what the wire does frame by frame: client encoder, session processing (contract of frameHandler, discharged by C24's check), client decoder and checks composed, the handler sees exactly the request's data and the client gets exactly the handler's answer or its exception. Left by argument: the two raw byte streams (C13 on the client, C25 on the session) cut frames where the other end made them; the replay harness runs it over real connections."+BASE,
"C27":"AddNodes, DeleteNode, DeleteAllNode, GetNode, newServerCommon and RegisterFunctionHandler proved against map postconditions (sync.Map Load, Store and Delete modelled; Range by induction over the keys, for callbacks that keep the map or remove the visited key). AddNodes is unrolled up to 3 nodes per call; Range and GetNodeList are covered by the replay harness only."+BASE,
"C31":"Every write and read of SendRawFrame and of the session proved to happen under the deadline the property names (deadline state of the connection and clock as ghosts)."+BASE,
"C35":"SendRawFrame, Send and SendPdu of the TCP provider proved, over the byte-stream model of the connection, to leave the provider disconnected after every failure and to have consumed exactly one whole frame with their own transaction id if it is still connected; that later exchanges then succeed follows with C06 and C13 (by argument; the replay harness plays such histories)."+BASE,
"C32":"Setters, options, constructors and the log gate proved against postconditions with frame conditions."+BASE,
"C33":"Close and ListenAndServe proved, the goroutine bodies included: a session is counted before it starts, under the lock and only while the server is not closed; it counts itself out after running has returned; Close marks the server closed, closes the listener and cancels under the lock, then waits. That no session is left when Close returns follows from these and the meaning of sync.WaitGroup, by argument; that sessions notice the cancellation is observed by the replay harness, not proved."+BASE,
"C34":"Start, run, Close, IsConnected, IsClosed and openConnection proved over ghost counters of dials, connections, callbacks and closes, with callback contracts for the three callbacks that state when each may run; the body of the keep-alive goroutine is followed too. Liveness (attempts and the end come eventually) is observed by the replay harness on real connections, not proved."+BASE,
}
NA={
}
