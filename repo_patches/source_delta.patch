From 3a4e7932bdfe4e117b670072e6512232096049e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:05 +0000
Subject: [PATCH 01/21] fix: ASCII exchange gave up after a successful write

---
 client_ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_ascii.go b/client_ascii.go
index f47abea..dfe088a 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -175,7 +175,7 @@ func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []by
 	sf.Debugf("sending [% x]", aduRequest)
 
 	_, err = sf.port.Write(aduRequest)
-	if err == nil {
+	if err != nil {
 		sf.close()
 		return
 	}
-- 
2.43.0


From f690679c74da101ce0a2e773dee86cb0dceff68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:06 +0000
Subject: [PATCH 02/21] fix: MaskWriteHolding ignored the start address of the
 table

---
 register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index 6bed37c..2910736 100644
--- a/register.go
+++ b/register.go
@@ -394,8 +394,9 @@ func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
 		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
-		sf.holding[address] &= andMask
-		sf.holding[address] |= orMask & ^andMask
+		idx := address - sf.holdingAddrStart
+		sf.holding[idx] &= andMask
+		sf.holding[idx] |= orMask & ^andMask
 		sf.rw.Unlock()
 		return nil
 	}
-- 
2.43.0


From 6a3c62a5a1c4f26532c006feeb4e2e94dd0a6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:07 +0000
Subject: [PATCH 03/21] fix: register range checks wrapped around at 65536

---
 register.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/register.go b/register.go
index 2910736..e26007f 100644
--- a/register.go
+++ b/register.go
@@ -123,7 +123,7 @@ func setBits(buf []byte, start, nBits uint16, value byte) {
 func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -155,7 +155,7 @@ func (sf *NodeRegister) WriteSingleCoil(address uint16, val bool) error {
 func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -187,7 +187,7 @@ func (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {
 func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		for idx := 0; nCoils > 0; idx++ {
@@ -219,7 +219,7 @@ func (sf *NodeRegister) WriteSingleDiscrete(address uint16, val bool) error {
 func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
 		nCoils := int16(quality)
 		result := make([]byte, 0, (quality+7)/8)
@@ -252,7 +252,7 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 	sf.rw.Lock()
 	if len(valBuf) == int(quality*2) &&
 		(address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(valBuf)
@@ -272,7 +272,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 	quality := uint16(len(valBuf))
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		copy(sf.holding[start:end], valBuf)
@@ -287,7 +287,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -306,7 +306,7 @@ func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, erro
 func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -323,7 +323,7 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 	sf.rw.Lock()
 	if len(regBuf) == int(quality*2) &&
 		(address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(regBuf)
@@ -343,7 +343,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 	quality := uint16(len(valBuf))
 	sf.rw.Lock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		copy(sf.input[start:end], valBuf)
@@ -358,7 +358,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -377,7 +377,7 @@ func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error)
 func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
 	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -393,7 +393,7 @@ func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error {
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+		(int(address)+1 <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		idx := address - sf.holdingAddrStart
 		sf.holding[idx] &= andMask
 		sf.holding[idx] |= orMask & ^andMask
-- 
2.43.0


From f3921bfa49a5bca25fa36a2298882bdcd50a0750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 04/21] fix: bit accesses of more than 32767 bits were silently
 ignored

---
 register.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/register.go b/register.go
index e26007f..1088cce 100644
--- a/register.go
+++ b/register.go
@@ -125,7 +125,7 @@ func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error
 	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
 		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -157,8 +157,8 @@ func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	if (address >= sf.coilsAddrStart) &&
 		(int(address)+int(quality) <= int(sf.coilsAddrStart)+int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
@@ -189,7 +189,7 @@ func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) e
 	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
 		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -221,8 +221,8 @@ func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	if (address >= sf.discreteAddrStart) &&
 		(int(address)+int(quality) <= int(sf.discreteAddrStart)+int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
-- 
2.43.0


From 9d50af36564fb1e0f2e02e413488f68286f21185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 05/21] fix: register byte writes computed the value size
 modulo 65536

---
 register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/register.go b/register.go
index 1088cce..b868086 100644
--- a/register.go
+++ b/register.go
@@ -250,7 +250,7 @@ func (sf *NodeRegister) ReadSingleDiscrete(address uint16) (bool, error) {
 // WriteHoldingsBytes 写保持寄存器
 func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf) == int(quality*2) &&
+	if len(valBuf) == int(quality)*2 &&
 		(address >= sf.holdingAddrStart) &&
 		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
 		start := address - sf.holdingAddrStart
@@ -321,7 +321,7 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-	if len(regBuf) == int(quality*2) &&
+	if len(regBuf) == int(quality)*2 &&
 		(address >= sf.inputAddrStart) &&
 		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
 		start := address - sf.inputAddrStart
-- 
2.43.0


From b82ce5efebce8aad09acce2c0acf016aa343c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:10 +0000
Subject: [PATCH 06/21] fix: register writes of more than 65535 values were
 truncated

---
 register.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/register.go b/register.go
index b868086..a43e814 100644
--- a/register.go
+++ b/register.go
@@ -269,11 +269,11 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 
 // WriteHoldings 写保持寄存器
 func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.holdingAddrStart) &&
-		(int(address)+int(quality) <= int(sf.holdingAddrStart)+len(sf.holding)) {
-		start := address - sf.holdingAddrStart
+		(int(address)+quality <= int(sf.holdingAddrStart)+len(sf.holding)) {
+		start := int(address - sf.holdingAddrStart)
 		end := start + quality
 		copy(sf.holding[start:end], valBuf)
 		sf.rw.Unlock()
@@ -340,11 +340,11 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 
 // WriteInputs 写输入寄存器
 func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
 	if (address >= sf.inputAddrStart) &&
-		(int(address)+int(quality) <= int(sf.inputAddrStart)+len(sf.input)) {
-		start := address - sf.inputAddrStart
+		(int(address)+quality <= int(sf.inputAddrStart)+len(sf.input)) {
+		start := int(address - sf.inputAddrStart)
 		end := start + quality
 		copy(sf.input[start:end], valBuf)
 		sf.rw.Unlock()
-- 
2.43.0


From 94c40d4adf8d3f6d36a08edec0ed7dd664d7745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:11 +0000
Subject: [PATCH 07/21] fix: a request header with an invalid length crashed
 the server

---
 server_tcp_session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 839275d..e008717 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -71,6 +71,10 @@ func (sf *ServerSession) running(ctx context.Context) {
 					continue
 				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
+				if length < tcpAduMinSize || length > tcpAduMaxSize {
+					err = fmt.Errorf("modbus: invalid length in request header '%v'", length-tcpHeaderMbapSize+1)
+					return
+				}
 				if rdCnt == length {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
-- 
2.43.0


From 34600bd6c85f491f39f874cad5f9edb89605890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:12 +0000
Subject: [PATCH 08/21] fix: no answer when a handler failed with an ordinary
 error

---
 server_tcp_session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index e008717..3874fb9 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -116,7 +116,10 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 	}
 	if err != nil {
 		funcCode |= 0x80
-		rspPduData = []byte{err.(*ExceptionError).ExceptionCode}
+		rspPduData = []byte{ExceptionCodeServerDeviceFailure}
+		if e, ok := err.(*ExceptionError); ok && e != nil {
+			rspPduData[0] = e.ExceptionCode
+		}
 	}
 
 	// prepare responseAdu data,fill it
-- 
2.43.0


From d13e5565526151e99445223c033d7cf27d0c79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:12 +0000
Subject: [PATCH 09/21] fix: ReadWriteMultipleRegisters accepted a response of
 the wrong quantity

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 5823a4c..90ab84f 100644
--- a/client.go
+++ b/client.go
@@ -500,6 +500,10 @@ func (sf *client) ReadWriteMultipleRegistersBytes(slaveID byte, readAddress, rea
 		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	}
+	if uint16(response.Data[0]) != readQuantity*2 {
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+			response.Data[0], readQuantity*2)
+	}
 	return response.Data[1:], nil
 }
 
-- 
2.43.0


From 5d86a0c9d8c263198f8df11c439b3a152e085639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:13 +0000
Subject: [PATCH 10/21] fix: ReadFIFOQueue accepted a response disagreeing with
 its fifo count

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 90ab84f..5715b7c 100644
--- a/client.go
+++ b/client.go
@@ -560,6 +560,9 @@ func (sf *client) ReadFIFOQueue(slaveID byte, address uint16) ([]byte, error) {
 	case int(binary.BigEndian.Uint16(response.Data[2:])) > 31:
 		return nil, fmt.Errorf("modbus: fifo count '%v' is greater than expected '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), 31)
+	case len(response.Data)-4 != int(binary.BigEndian.Uint16(response.Data[2:]))*2:
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match fifo count '%v'",
+			len(response.Data)-4, binary.BigEndian.Uint16(response.Data[2:]))
 	}
 	return response.Data[4:], nil
 }
-- 
2.43.0


From 3d834020560686b1784c830318c7c0f4c6388d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:14 +0000
Subject: [PATCH 11/21] fix: RTU exchange panicked on short requests

---
 client_rtu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index c0501d8..4cd1eb7 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -121,6 +121,9 @@ func (sf *RTUClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 
 // SendRawFrame send Adu frame
 func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
+	if len(aduRequest) < rtuAduMinSize {
+		return nil, fmt.Errorf("modbus: request length '%v' does not meet minimum '%v'", len(aduRequest), rtuAduMinSize)
+	}
 	sf.mu.Lock()
 	defer sf.mu.Unlock()
 
@@ -199,6 +202,9 @@ func calculateResponseLength(adu []byte) int {
 	switch adu[1] {
 	case FuncCodeReadDiscreteInputs,
 		FuncCodeReadCoils:
+		if len(adu) < 6 { // no quantity
+			break
+		}
 		count := int(binary.BigEndian.Uint16(adu[4:]))
 		length += 1 + count/8
 		if count%8 != 0 {
@@ -207,6 +213,9 @@ func calculateResponseLength(adu []byte) int {
 	case FuncCodeReadInputRegisters,
 		FuncCodeReadHoldingRegisters,
 		FuncCodeReadWriteMultipleRegisters:
+		if len(adu) < 6 { // no quantity
+			break
+		}
 		count := int(binary.BigEndian.Uint16(adu[4:]))
 		length += 1 + count*2
 	case FuncCodeWriteSingleCoil,
-- 
2.43.0


From cd3d0fe54cf5346ee92b9fcc3d8e3ce705c33794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:15 +0000
Subject: [PATCH 12/21] fix: ASCII encoding of a 254 byte PDU panicked

---
 modbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus.go b/modbus.go
index 946798d..ccca52a 100644
--- a/modbus.go
+++ b/modbus.go
@@ -70,7 +70,7 @@ const (
 	rtuAduMaxSize = 256 // address(1) + PDU(253) + crc(2)
 
 	asciiAduMinSize       = 3
-	asciiAduMaxSize       = 256
+	asciiAduMaxSize       = 255 // address(1) + PDU(253) + lrc(1)
 	asciiCharacterMaxSize = 513
 
 	tcpProtocolIdentifier = 0x0000
-- 
2.43.0


From 11b36236b1b05321bb71363d05f659d2d09f8251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:16 +0000
Subject: [PATCH 13/21] fix: WriteMultipleCoils sent surplus value bytes

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 5715b7c..43d1ad1 100644
--- a/client.go
+++ b/client.go
@@ -188,7 +188,7 @@ func (sf *client) WriteMultipleCoils(slaveID byte, address, quantity uint16, val
 
 	response, err := sf.Send(slaveID, ProtocolDataUnit{
 		FuncCode: FuncCodeWriteMultipleCoils,
-		Data:     pduDataBlockSuffix(value, address, quantity),
+		Data:     pduDataBlockSuffix(value[:(quantity+7)/8], address, quantity),
 	})
 
 	switch {
-- 
2.43.0


From 1aba62501c452020b765b9a43903635d23ba3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 14/21] fix: read/write multiple registers wrote before
 refusing an illegal read range

---
 function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/function.go b/function.go
index 7cddfd1..c42d94d 100644
--- a/function.go
+++ b/function.go
@@ -318,6 +318,10 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
+	// refuse before writing anything
+	if _, err := reg.ReadHoldingsBytes(readAddress, readCount); err != nil {
+		return nil, err
+	}
 	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f00dba36b497ca4057a4a51894c86986dc53c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 15/21] fix: RTU exchange did not read the whole FIFO queue
 response

---
 client_rtu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index 4cd1eb7..b965d5b 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -155,6 +155,9 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 
 	switch {
 	case data[1] == function:
+		if function == FuncCodeReadFIFOQueue { // only the response tells its length
+			bytesToRead = rtuAduMinSize + 2 + int(binary.BigEndian.Uint16(data[2:]))
+		}
 		// if the function is correct
 		// we read the rest of the bytes
 		if n < bytesToRead {
-- 
2.43.0


From a74a74e398a6e194773dd1b9edfb518e968ed29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:19 +0000
Subject: [PATCH 16/21] fix: AddNodes read the slave id without the lock

---
 function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function.go b/function.go
index c42d94d..204c5da 100644
--- a/function.go
+++ b/function.go
@@ -44,7 +44,7 @@ func newServerCommon() *serverCommon {
 // AddNodes 增加节点.
 func (sf *serverCommon) AddNodes(nodes ...*NodeRegister) {
 	for _, v := range nodes {
-		sf.node.Store(v.slaveID, v)
+		sf.node.Store(v.SlaveID(), v)
 	}
 }
 
-- 
2.43.0


From b355617bf9babae3660854c95a8d6091a22479b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:20 +0000
Subject: [PATCH 17/21] fix: multiple writes did not check the byte count
 against the bytes present

---
 function.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/function.go b/function.go
index 204c5da..59c867e 100644
--- a/function.go
+++ b/function.go
@@ -186,7 +186,7 @@ func funcWriteMultiCoils(reg *NodeRegister, data []byte) ([]byte, error) {
 	quality := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if quality < WriteBitsQuantityMin || quality > WriteBitsQuantityMax ||
-		byteCnt != byte((quality+7)/8) {
+		byteCnt != byte((quality+7)/8) || int(byteCnt) != len(data)-FuncWriteMultiMinSize {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 	err := reg.WriteCoils(address, quality, data[5:])
@@ -279,7 +279,7 @@ func funcWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte, err
 	count := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if count < WriteRegQuantityMin || count > WriteRegQuantityMax ||
-		uint16(byteCnt) != count*2 {
+		uint16(byteCnt) != count*2 || int(byteCnt) != len(data)-FuncWriteMultiMinSize {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
@@ -314,7 +314,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 	writeByteCnt := data[8]
 	if readCount < ReadWriteOnReadRegQuantityMin || readCount > ReadWriteOnReadRegQuantityMax ||
 		WriteCount < ReadWriteOnWriteRegQuantityMin || WriteCount > ReadWriteOnWriteRegQuantityMax ||
-		uint16(writeByteCnt) != WriteCount*2 {
+		uint16(writeByteCnt) != WriteCount*2 || int(writeByteCnt) != len(data)-FuncReadWriteMinSize {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-- 
2.43.0


From e58e0f895609fe7fd8fe0bc8bc237e4ef803480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 18/21] fix: the late answer to a failed TCP exchange was taken
 for the answer to every later one

---
 client_tcp.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/client_tcp.go b/client_tcp.go
index 7330b42..bfd9c8c 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -163,6 +163,10 @@ func (sf *TCPClientProvider) Send(slaveID byte, request ProtocolDataUnit) (Proto
 		return response, err
 	}
 	rspHead, pdu, err := decodeTCPFrame(aduResponse)
+	if err != nil || rspHead.transactionID != head.transactionID {
+		// the answer to this request is still to come
+		_ = sf.Close()
+	}
 	if err != nil {
 		return response, err
 	}
@@ -193,6 +197,10 @@ func (sf *TCPClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 		return nil, err
 	}
 	rspHead, rspPdu, err := decodeTCPFrame(aduResponse)
+	if err != nil || rspHead.transactionID != head.transactionID {
+		// the answer to this request is still to come
+		_ = sf.Close()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -212,6 +220,13 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	if err = sf.connect(); err != nil {
 		return
 	}
+	defer func() {
+		// the answer to a failed exchange may still arrive, on this
+		// connection it would be taken for the answer to a later request
+		if err != nil {
+			_ = sf.close()
+		}
+	}()
 	// Send data
 	sf.Debugf("sending [% x]", aduRequest)
 	// Set write and read timeout
-- 
2.43.0


From 12b21d9aff201d6c14e61907899cdd019593afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:42 +0000
Subject: [PATCH 19/21] fix: Close of a TCP server missed a connection accepted
 at the same time

---
 server_tcp.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server_tcp.go b/server_tcp.go
index 4249550..3a76460 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -95,7 +95,15 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 			return err
 		}
 		tempDelay = minTempDelay
+		sf.mu.Lock()
+		if sf.listen != listen {
+			// closed meanwhile, Close waits for the sessions counted until then
+			sf.mu.Unlock()
+			conn.Close()
+			continue
+		}
 		sf.wg.Add(1)
+		sf.mu.Unlock()
 		go func() {
 			sess := &ServerSession{
 				conn,
-- 
2.43.0


From 3ad811096ce0a4bad155560b7e95ba10dad44c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 20/21] fix: Close of a dialing server right after Start had no
 effect

---
 server_tcp_special.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 818c9bb..e50d3fd 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -166,21 +166,21 @@ func (sf *TCPServerSpecial) Start() error {
 	if sf.server == nil {
 		return errors.New("empty remote server address,add it first")
 	}
-	go sf.run()
-	return nil
-}
-
-// 增加间隔
-func (sf *TCPServerSpecial) run() {
-	var ctx context.Context
 
 	sf.rwMux.Lock()
+	defer sf.rwMux.Unlock()
 	if !atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
-		sf.rwMux.Unlock()
-		return
+		return nil
 	}
-	ctx, sf.cancel = context.WithCancel(context.Background())
-	sf.rwMux.Unlock()
+	// before Start returns, so that Close stops what Start has started
+	ctx, cancel := context.WithCancel(context.Background())
+	sf.cancel = cancel
+	go sf.run(ctx)
+	return nil
+}
+
+// 增加间隔
+func (sf *TCPServerSpecial) run(ctx context.Context) {
 	defer func() {
 		sf.setConnectStatus(initial)
 		sf.Debugf("tcp server special stop!")
-- 
2.43.0


From 572b247e17770c18099bc3aa443cf18abc309d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 21/21] fix: a dialing server left the connection open that its
 connect callback refused

---
 server_tcp_special.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index e50d3fd..5ae8772 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -207,6 +207,7 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.Debugf("connect success")
 		sf.conn = conn
 		if err := sf.onConnect(sf); err != nil {
+			conn.Close()
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
-- 
2.43.0

