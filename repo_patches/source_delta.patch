From aff4efad427fbfb5f4c0e9d44d528f54553c6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:52 +0000
Subject: [PATCH 01/28] fix: TCP master drops a connection whose exchange
 failed

An exchange that failed (timeout, reset, short or malformed or mismatching
reply) left the connection open with its reply still to come, so every later
call read the answer of an earlier one or kept using a dead connection.
---
 client_tcp.go | 92 ++++++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/client_tcp.go b/client_tcp.go
index 7330b42..f84ffe0 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"net"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -158,16 +157,14 @@ func (sf *TCPClientProvider) Send(slaveID byte, request ProtocolDataUnit) (Proto
 	if err != nil {
 		return response, err
 	}
-	aduResponse, err := sf.SendRawFrame(aduRequest)
-	if err != nil {
-		return response, err
-	}
-	rspHead, pdu, err := decodeTCPFrame(aduResponse)
-	if err != nil {
-		return response, err
-	}
-	response = ProtocolDataUnit{pdu[0], pdu[1:]}
-	err = verifyTCPFrame(head, rspHead, request, response)
+	_, err = sf.transact(aduRequest, func(aduResponse []byte) error {
+		rspHead, pdu, err := decodeTCPFrame(aduResponse)
+		if err != nil {
+			return err
+		}
+		response = ProtocolDataUnit{pdu[0], pdu[1:]}
+		return verifyTCPFrame(head, rspHead, request, response)
+	})
 	return response, err
 }
 
@@ -188,30 +185,54 @@ func (sf *TCPClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 	if err != nil {
 		return nil, err
 	}
-	aduResponse, err := sf.SendRawFrame(aduRequest)
-	if err != nil {
-		return nil, err
-	}
-	rspHead, rspPdu, err := decodeTCPFrame(aduResponse)
+	var rspPdu []byte
+	_, err = sf.transact(aduRequest, func(aduResponse []byte) error {
+		rspHead, pdu, err := decodeTCPFrame(aduResponse)
+		if err != nil {
+			return err
+		}
+		rspPdu = pdu
+		return verifyTCPFrame(head, rspHead, request, ProtocolDataUnit{pdu[0], pdu[1:]})
+	})
 	if err != nil {
 		return nil, err
 	}
-	response := ProtocolDataUnit{rspPdu[0], rspPdu[1:]}
-	if err = verifyTCPFrame(head, rspHead, request, response); err != nil {
-		return nil, err
-	}
 	// rspPdu pass tcpMBAP head
 	return rspPdu, nil
 }
 
 // SendRawFrame send raw adu request frame
 func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
+	return sf.transact(aduRequest, func([]byte) error { return nil })
+}
+
+// transact sends a request frame and returns the response frame, which check
+// has to accept. After any failure but a modbus exception the stream may hold
+// a stale or partial frame, so the connection is closed and the next request
+// opens a new one.
+func (sf *TCPClientProvider) transact(aduRequest []byte, check func(aduResponse []byte) error) ([]byte, error) {
 	sf.mu.Lock()
 	defer sf.mu.Unlock()
 
-	if err = sf.connect(); err != nil {
-		return
+	if err := sf.connect(); err != nil {
+		return nil, err
+	}
+	aduResponse, err := sf.exchange(aduRequest)
+	if err == nil {
+		err = check(aduResponse)
+	}
+	if err != nil {
+		if _, ok := err.(*ExceptionError); !ok {
+			sf.close()
+		}
+		return nil, err
 	}
+	return aduResponse, nil
+}
+
+// exchange writes a request frame and reads one response frame.
+// Caller must hold the mutex and be connected before calling this method.
+func (sf *TCPClientProvider) exchange(aduRequest []byte) (aduResponse []byte, err error) {
 	// Send data
 	sf.Debugf("sending [% x]", aduRequest)
 	// Set write and read timeout
@@ -230,7 +251,6 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 
 	// Read header first
 	var data [tcpAduMaxSize]byte
-	var cnt int
 
 	if sf.timeout > 0 {
 		timeout = time.Now().Add(sf.timeout)
@@ -239,13 +259,7 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 		return nil, err
 	}
 
-	if cnt, err = io.ReadFull(sf.conn, data[:tcpHeaderMbapSize]); err != nil {
-		if e, ok := err.(net.Error); (ok && !e.Temporary() && !e.Timeout()) ||
-			(err != io.EOF && err == io.ErrClosedPipe) ||
-			strings.Contains(err.Error(), "use of closed network connection") ||
-			(cnt == 0 && err == io.EOF) {
-			sf.close()
-		}
+	if _, err = io.ReadFull(sf.conn, data[:tcpHeaderMbapSize]); err != nil {
 		return
 	}
 
@@ -253,11 +267,9 @@ func (sf *TCPClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	length := int(binary.BigEndian.Uint16(data[4:]))
 	switch {
 	case length <= 0:
-		_ = sf.flush(data[:])
 		err = fmt.Errorf("modbus: length in response header '%v' must not be zero", length)
 		return
 	case length > (tcpAduMaxSize - (tcpHeaderMbapSize - 1)):
-		_ = sf.flush(data[:])
 		err = fmt.Errorf("modbus: length in response header '%v' must not greater than '%v'",
 			length, tcpAduMaxSize-tcpHeaderMbapSize+1)
 		return
@@ -333,19 +345,3 @@ func (sf *TCPClientProvider) setSerialConfig(serial.Config) {}
 func (sf *TCPClientProvider) setTCPTimeout(t time.Duration) {
 	sf.timeout = t
 }
-
-// flush flushes pending data in the connection,
-// returns io.EOF if connection is closed.
-func (sf *TCPClientProvider) flush(b []byte) (err error) {
-	if err = sf.conn.SetReadDeadline(time.Now()); err != nil {
-		return
-	}
-	// timeout setting will be reset when reading
-	if _, err = sf.conn.Read(b); err != nil {
-		// Ignore timeout error
-		if netError, ok := err.(net.Error); ok && netError.Timeout() {
-			err = nil
-		}
-	}
-	return
-}
-- 
2.43.0


From ff9150d6e8b26cbba81b83cdec049ba63bbcca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:45 +0000
Subject: [PATCH 02/28] fix: only a matching exception reply is an
 ExceptionError

---
 client.go     | 10 +++++-----
 client_rtu.go |  2 +-
 client_tcp.go |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 5823a4c..a8fe67c 100644
--- a/client.go
+++ b/client.go
@@ -591,10 +591,10 @@ func pduDataBlockSuffix(suffix []byte, value ...uint16) []byte {
 }
 
 // responseError response error.
-func responseError(response ProtocolDataUnit) error {
-	mbError := &ExceptionError{}
-	if response.Data != nil && len(response.Data) > 0 {
-		mbError.ExceptionCode = response.Data[0]
+func responseError(request, response ProtocolDataUnit) error {
+	if response.FuncCode != request.FuncCode|0x80 || len(response.Data) == 0 {
+		return fmt.Errorf("modbus: response function code '%v' does not match request '%v'",
+			response.FuncCode, request.FuncCode)
 	}
-	return mbError
+	return &ExceptionError{ExceptionCode: response.Data[0]}
 }
diff --git a/client_rtu.go b/client_rtu.go
index c0501d8..f8f5e8d 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -232,7 +232,7 @@ func verify(reqSlaveID, rspSlaveID uint8, reqPDU, rspPDU ProtocolDataUnit) error
 		return fmt.Errorf("modbus: response slave id '%v' does not match request '%v'", rspSlaveID, reqSlaveID)
 
 	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned (exception)
-		return responseError(rspPDU)
+		return responseError(reqPDU, rspPDU)
 
 	case rspPDU.Data == nil || len(rspPDU.Data) == 0: // check Empty response
 		return fmt.Errorf("modbus: response data is empty")
diff --git a/client_tcp.go b/client_tcp.go
index f84ffe0..1b5ef7b 100644
--- a/client_tcp.go
+++ b/client_tcp.go
@@ -136,7 +136,7 @@ func verifyTCPFrame(reqHead, rspHead protocolTCPHeader, reqPDU, rspPDU ProtocolD
 			rspHead.slaveID, reqHead.slaveID)
 
 	case rspPDU.FuncCode != reqPDU.FuncCode: // Check correct function code returned (exception)
-		return responseError(rspPDU)
+		return responseError(reqPDU, rspPDU)
 
 	case rspPDU.Data == nil || len(rspPDU.Data) == 0: // check Empty response
 		return fmt.Errorf("modbus: response data is empty")
-- 
2.43.0


From fdd113acb84a30da761db29b0dd6956699423c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:55 +0000
Subject: [PATCH 03/28] fix: read/write-multiple and FIFO replies have to match
 their counts

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index a8fe67c..1775d3e 100644
--- a/client.go
+++ b/client.go
@@ -500,6 +500,10 @@ func (sf *client) ReadWriteMultipleRegistersBytes(slaveID byte, readAddress, rea
 		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	}
+	if uint16(response.Data[0]) != readQuantity*2 {
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+			response.Data[0], readQuantity*2)
+	}
 	return response.Data[1:], nil
 }
 
@@ -556,6 +560,9 @@ func (sf *client) ReadFIFOQueue(slaveID byte, address uint16) ([]byte, error) {
 	case int(binary.BigEndian.Uint16(response.Data[2:])) > 31:
 		return nil, fmt.Errorf("modbus: fifo count '%v' is greater than expected '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), 31)
+	case len(response.Data)-4 != 2*int(binary.BigEndian.Uint16(response.Data[2:])):
+		return nil, fmt.Errorf("modbus: response data size '%v' does not match fifo count '%v'",
+			len(response.Data)-4, binary.BigEndian.Uint16(response.Data[2:]))
 	}
 	return response.Data[4:], nil
 }
-- 
2.43.0


From 42852105696aa9691d731b1a7a733514d5344a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:03 +0000
Subject: [PATCH 04/28] fix: ASCII master gives up only when writing failed

---
 client_ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_ascii.go b/client_ascii.go
index f47abea..dfe088a 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -175,7 +175,7 @@ func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []by
 	sf.Debugf("sending [% x]", aduRequest)
 
 	_, err = sf.port.Write(aduRequest)
-	if err == nil {
+	if err != nil {
 		sf.close()
 		return
 	}
-- 
2.43.0


From 0ba3f79d01beb4350ba8df2b940a897752c57712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:27 +0000
Subject: [PATCH 05/28] fix: ASCII frame size limit is 255 bytes, a longer PDU
 overran the frame buffer

---
 modbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus.go b/modbus.go
index 946798d..ccca52a 100644
--- a/modbus.go
+++ b/modbus.go
@@ -70,7 +70,7 @@ const (
 	rtuAduMaxSize = 256 // address(1) + PDU(253) + crc(2)
 
 	asciiAduMinSize       = 3
-	asciiAduMaxSize       = 256
+	asciiAduMaxSize       = 255 // address(1) + PDU(253) + lrc(1)
 	asciiCharacterMaxSize = 513
 
 	tcpProtocolIdentifier = 0x0000
-- 
2.43.0


From c3c7f2d58cdb29a9001f8969ac92c1c45a061ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 06/28] fix: RTU master reads the whole FIFO queue reply

---
 client_rtu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index f8f5e8d..9c45a1e 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -149,6 +149,10 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	if err != nil {
 		return
 	}
+	if function == FuncCodeReadFIFOQueue && data[1] == function {
+		// the length of the response is known only from its byte count
+		bytesToRead += 2 + int(binary.BigEndian.Uint16(data[2:]))
+	}
 
 	switch {
 	case data[1] == function:
-- 
2.43.0


From 5ec3d4922237866001ba9540977bfe125af85cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 07/28] fix: RTU master does not panic on a request PDU without
 quantity

---
 client_rtu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index 9c45a1e..a8b50fa 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -200,6 +200,9 @@ func (sf *RTUClientProvider) calculateDelay(chars int) time.Duration {
 
 func calculateResponseLength(adu []byte) int {
 	length := rtuAduMinSize
+	if len(adu) < rtuAduMinSize+4 { // too short to tell a quantity
+		return length
+	}
 	switch adu[1] {
 	case FuncCodeReadDiscreteInputs,
 		FuncCodeReadCoils:
-- 
2.43.0


From f9c0c266d8f0e383c0a5876817b66c2863bc30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:07 +0000
Subject: [PATCH 08/28] fix: serial masters end a call when the device hangs up

---
 client_ascii.go |  3 ++-
 client_rtu.go   |  7 ++++---
 serial.go       | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/client_ascii.go b/client_ascii.go
index dfe088a..49d0a19 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -183,9 +183,10 @@ func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []by
 	// Get the response
 	var n int
 	var data [asciiCharacterMaxSize]byte
+	port := portReader{sf.port}
 	length := 0
 	for {
-		if n, err = sf.port.Read(data[length:]); err != nil {
+		if n, err = port.Read(data[length:]); err != nil {
 			return
 		}
 		length += n
diff --git a/client_rtu.go b/client_rtu.go
index a8b50fa..079b304 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -145,7 +145,8 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	var data [rtuAduMaxSize]byte
 	// We first read the minimum length and then read either the full package
 	// or the error package, depending on the error status (byte 2 of the response)
-	n, err = io.ReadAtLeast(sf.port, data[:], rtuAduMinSize)
+	port := portReader{sf.port}
+	n, err = io.ReadAtLeast(port, data[:], rtuAduMinSize)
 	if err != nil {
 		return
 	}
@@ -161,7 +162,7 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 		if n < bytesToRead {
 			if bytesToRead > rtuAduMinSize && bytesToRead <= rtuAduMaxSize {
 				if bytesToRead > n {
-					n1, err = io.ReadFull(sf.port, data[n:bytesToRead])
+					n1, err = io.ReadFull(port, data[n:bytesToRead])
 					n += n1
 				}
 			}
@@ -169,7 +170,7 @@ func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte
 	case data[1] == functionFail:
 		// for error we need to read 5 bytes
 		if n < rtuExceptionSize {
-			n1, err = io.ReadFull(sf.port, data[n:rtuExceptionSize])
+			n1, err = io.ReadFull(port, data[n:rtuExceptionSize])
 		}
 		n += n1
 	default:
diff --git a/serial.go b/serial.go
index 5ae500f..2fcf1f0 100644
--- a/serial.go
+++ b/serial.go
@@ -52,6 +52,21 @@ func (sf *serialPort) setSerialConfig(config serial.Config) {
 	sf.Config = config
 }
 
+// portReader reports a hang-up of the device, on which the port reads nothing
+// without an error, as an error.
+type portReader struct {
+	io.Reader
+}
+
+// Read implements io.Reader.
+func (sf portReader) Read(b []byte) (int, error) {
+	n, err := sf.Reader.Read(b)
+	if n == 0 && err == nil && len(b) > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 func (sf *serialPort) setTCPTimeout(time.Duration) {}
 
 func (sf *serialPort) close() (err error) {
-- 
2.43.0


From 417d6e834c03e7539632b4f53c50aa5ce8731ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 09/28] fix: serial masters reopen the port after a failed
 exchange

---
 client_ascii.go | 54 ++++++++++++++++++++++---------------------------
 client_rtu.go   | 50 +++++++++++++++++++++------------------------
 serial.go       | 25 +++++++++++++++++++++++
 3 files changed, 72 insertions(+), 57 deletions(-)

diff --git a/client_ascii.go b/client_ascii.go
index 49d0a19..ef4034c 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -117,20 +117,15 @@ func (sf *ASCIIClientProvider) Send(slaveID byte, request ProtocolDataUnit) (Pro
 	if err != nil {
 		return response, err
 	}
-	aduResponse, err := sf.SendRawFrame(aduRequest)
-	if err != nil {
-		return response, err
-	}
-	rspSlaveID, pdu, err := decodeASCIIFrame(aduResponse)
-	if err != nil {
-		return response, err
-	}
-
-	response = ProtocolDataUnit{pdu[0], pdu[1:]}
-	if err = verify(slaveID, rspSlaveID, request, response); err != nil {
-		return response, err
-	}
-	return response, nil
+	_, err = sf.transact(sf.exchange, aduRequest, func(aduResponse []byte) error {
+		rspSlaveID, pdu, err := decodeASCIIFrame(aduResponse)
+		if err != nil {
+			return err
+		}
+		response = ProtocolDataUnit{pdu[0], pdu[1:]}
+		return verify(slaveID, rspSlaveID, request, response)
+	})
+	return response, err
 }
 
 // SendPdu send pdu request to the remote server.
@@ -148,35 +143,34 @@ func (sf *ASCIIClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte,
 	if err != nil {
 		return nil, err
 	}
-	aduResponse, err := sf.SendRawFrame(aduRequest)
-	if err != nil {
-		return nil, err
-	}
-	rspSlaveID, pdu, err := decodeASCIIFrame(aduResponse)
+	var rspPdu []byte
+	_, err = sf.transact(sf.exchange, aduRequest, func(aduResponse []byte) error {
+		rspSlaveID, pdu, err := decodeASCIIFrame(aduResponse)
+		if err != nil {
+			return err
+		}
+		rspPdu = pdu
+		return verify(slaveID, rspSlaveID, request, ProtocolDataUnit{pdu[0], pdu[1:]})
+	})
 	if err != nil {
 		return nil, err
 	}
-	response := ProtocolDataUnit{pdu[0], pdu[1:]}
-	if err = verify(slaveID, rspSlaveID, request, response); err != nil {
-		return nil, err
-	}
-	return pdu, nil
+	return rspPdu, nil
 }
 
 // SendRawFrame send Adu frame.
 func (sf *ASCIIClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
-	sf.mu.Lock()
-	defer sf.mu.Unlock()
+	return sf.transact(sf.exchange, aduRequest, func([]byte) error { return nil })
+}
 
-	if err = sf.connect(); err != nil {
-		return nil, err
-	}
+// exchange writes a request frame and reads one response frame.
+// Caller must hold the mutex and be connected before calling this method.
+func (sf *ASCIIClientProvider) exchange(aduRequest []byte) (aduResponse []byte, err error) {
 	// Send the request
 	sf.Debugf("sending [% x]", aduRequest)
 
 	_, err = sf.port.Write(aduRequest)
 	if err != nil {
-		sf.close()
 		return
 	}
 
diff --git a/client_rtu.go b/client_rtu.go
index 079b304..b15b587 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -75,16 +75,14 @@ func (sf *RTUClientProvider) Send(slaveID byte, request ProtocolDataUnit) (Proto
 	if err != nil {
 		return response, err
 	}
-	aduResponse, err := sf.SendRawFrame(aduRequest)
-	if err != nil {
-		return response, err
-	}
-	rspSlaveID, pdu, err := decodeRTUFrame(aduResponse)
-	if err != nil {
-		return response, err
-	}
-	response = ProtocolDataUnit{pdu[0], pdu[1:]}
-	err = verify(slaveID, rspSlaveID, request, response)
+	_, err = sf.transact(sf.exchange, aduRequest, func(aduResponse []byte) error {
+		rspSlaveID, pdu, err := decodeRTUFrame(aduResponse)
+		if err != nil {
+			return err
+		}
+		response = ProtocolDataUnit{pdu[0], pdu[1:]}
+		return verify(slaveID, rspSlaveID, request, response)
+	})
 	return response, err
 }
 
@@ -103,36 +101,34 @@ func (sf *RTUClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 	if err != nil {
 		return nil, err
 	}
-	aduResponse, err := sf.SendRawFrame(requestAdu)
-	if err != nil {
-		return nil, err
-	}
-	rspSlaveID, pdu, err := decodeRTUFrame(aduResponse)
+	var rspPdu []byte
+	_, err = sf.transact(sf.exchange, requestAdu, func(aduResponse []byte) error {
+		rspSlaveID, pdu, err := decodeRTUFrame(aduResponse)
+		if err != nil {
+			return err
+		}
+		rspPdu = pdu
+		return verify(slaveID, rspSlaveID, request, ProtocolDataUnit{pdu[0], pdu[1:]})
+	})
 	if err != nil {
 		return nil, err
 	}
-	response := ProtocolDataUnit{pdu[0], pdu[1:]}
-	if err = verify(slaveID, rspSlaveID, request, response); err != nil {
-		return nil, err
-	}
 	//  PDU pass slaveID & crc
-	return pdu, nil
+	return rspPdu, nil
 }
 
 // SendRawFrame send Adu frame
 func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
-	sf.mu.Lock()
-	defer sf.mu.Unlock()
-
-	if err = sf.connect(); err != nil {
-		return
-	}
+	return sf.transact(sf.exchange, aduRequest, func([]byte) error { return nil })
+}
 
+// exchange writes a request frame and reads one response frame.
+// Caller must hold the mutex and be connected before calling this method.
+func (sf *RTUClientProvider) exchange(aduRequest []byte) (aduResponse []byte, err error) {
 	// Send the request
 	sf.Debugf("sending [% x]", aduRequest)
 	_, err = sf.port.Write(aduRequest)
 	if err != nil {
-		sf.close()
 		return
 	}
 
diff --git a/serial.go b/serial.go
index 2fcf1f0..7be8393 100644
--- a/serial.go
+++ b/serial.go
@@ -39,6 +39,31 @@ func (sf *serialPort) connect() error {
 	return nil
 }
 
+// transact runs the exchange of a request frame and returns the response frame,
+// which check has to accept. After any failure but a modbus exception bytes of
+// this exchange may still be on the way or unread, so the port is closed and
+// the next request opens it again.
+func (sf *serialPort) transact(exchange func(aduRequest []byte) ([]byte, error), aduRequest []byte,
+	check func(aduResponse []byte) error) ([]byte, error) {
+	sf.mu.Lock()
+	defer sf.mu.Unlock()
+
+	if err := sf.connect(); err != nil {
+		return nil, err
+	}
+	aduResponse, err := exchange(aduRequest)
+	if err == nil {
+		err = check(aduResponse)
+	}
+	if err != nil {
+		if _, ok := err.(*ExceptionError); !ok {
+			sf.close()
+		}
+		return nil, err
+	}
+	return aduResponse, nil
+}
+
 // IsConnected returns a bool signifying whether the client is connected or not.
 func (sf *serialPort) IsConnected() (b bool) {
 	sf.mu.Lock()
-- 
2.43.0


From 9b7fc939f42b6bd1684bb044a4072791e8d5c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:14 +0000
Subject: [PATCH 10/28] fix: a response that does not match its request closes
 the connection

---
 client.go | 68 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/client.go b/client.go
index 1775d3e..db93606 100644
--- a/client.go
+++ b/client.go
@@ -73,10 +73,10 @@ func (sf *client) ReadCoils(slaveID byte, address, quantity uint16) ([]byte, err
 	case err != nil:
 		return nil, err
 	case len(response.Data)-1 != int(response.Data[0]):
-		return nil, fmt.Errorf("modbus: response byte size '%v' does not match count '%v'",
+		return nil, sf.mismatch("modbus: response byte size '%v' does not match count '%v'",
 			len(response.Data)-1, int(response.Data[0]))
 	case uint16(response.Data[0]) != (quantity+7)/8:
-		return nil, fmt.Errorf("modbus: response byte size '%v' does not match quantity to bytes '%v'",
+		return nil, sf.mismatch("modbus: response byte size '%v' does not match quantity to bytes '%v'",
 			response.Data[0], (quantity+7)/8)
 	}
 	return response.Data[1:], nil
@@ -110,10 +110,10 @@ func (sf *client) ReadDiscreteInputs(slaveID byte, address, quantity uint16) ([]
 	case err != nil:
 		return nil, err
 	case len(response.Data)-1 != int(response.Data[0]):
-		return nil, fmt.Errorf("modbus: response byte size '%v' does not match count '%v'",
+		return nil, sf.mismatch("modbus: response byte size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	case uint16(response.Data[0]) != (quantity+7)/8:
-		return nil, fmt.Errorf("modbus: response byte size '%v' does not match quantity to bytes '%v'",
+		return nil, sf.mismatch("modbus: response byte size '%v' does not match quantity to bytes '%v'",
 			response.Data[0], (quantity+7)/8)
 	}
 	return response.Data[1:], nil
@@ -147,15 +147,15 @@ func (sf *client) WriteSingleCoil(slaveID byte, address uint16, isOn bool) error
 		return err
 	case len(response.Data) != 4:
 		// Fixed response length
-		return fmt.Errorf("modbus: response data size '%v' does not match expected '%v'",
+		return sf.mismatch("modbus: response data size '%v' does not match expected '%v'",
 			len(response.Data), 4)
 	case binary.BigEndian.Uint16(response.Data) != address:
 		// check address
-		return fmt.Errorf("modbus: response address '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response address '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data), address)
 	case binary.BigEndian.Uint16(response.Data[2:]) != value:
 		// check value
-		return fmt.Errorf("modbus: response value '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response value '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), value)
 	}
 	return nil
@@ -196,13 +196,13 @@ func (sf *client) WriteMultipleCoils(slaveID byte, address, quantity uint16, val
 		return err
 	case len(response.Data) != 4:
 		// Fixed response length
-		return fmt.Errorf("modbus: response data size '%v' does not match expected '%v'",
+		return sf.mismatch("modbus: response data size '%v' does not match expected '%v'",
 			len(response.Data), 4)
 	case binary.BigEndian.Uint16(response.Data) != address:
-		return fmt.Errorf("modbus: response address '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response address '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data), address)
 	case binary.BigEndian.Uint16(response.Data[2:]) != quantity:
-		return fmt.Errorf("modbus: response quantity '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response quantity '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), quantity)
 	}
 	return nil
@@ -237,10 +237,10 @@ func (sf *client) ReadInputRegistersBytes(slaveID byte, address, quantity uint16
 	case err != nil:
 		return nil, err
 	case len(response.Data)-1 != int(response.Data[0]):
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	case uint16(response.Data[0]) != quantity*2:
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match quantity to bytes '%v'",
 			response.Data[0], quantity*2)
 	}
 
@@ -291,10 +291,10 @@ func (sf *client) ReadHoldingRegistersBytes(slaveID byte, address, quantity uint
 	case err != nil:
 		return nil, err
 	case len(response.Data)-1 != int(response.Data[0]):
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	case uint16(response.Data[0]) != quantity*2:
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match quantity to bytes '%v'",
 			response.Data[0], quantity*2)
 	}
 	return response.Data[1:], nil
@@ -341,13 +341,13 @@ func (sf *client) WriteSingleRegister(slaveID byte, address, value uint16) error
 		return err
 	case len(response.Data) != 4:
 		// Fixed response length
-		return fmt.Errorf("modbus: response data size '%v' does not match expected '%v'",
+		return sf.mismatch("modbus: response data size '%v' does not match expected '%v'",
 			len(response.Data), 4)
 	case binary.BigEndian.Uint16(response.Data) != address:
-		return fmt.Errorf("modbus: response address '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response address '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data), address)
 	case binary.BigEndian.Uint16(response.Data[2:]) != value:
-		return fmt.Errorf("modbus: response value '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response value '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), value)
 	}
 	return nil
@@ -388,13 +388,13 @@ func (sf *client) WriteMultipleRegistersBytes(slaveID byte, address, quantity ui
 		return err
 	case len(response.Data) != 4:
 		// Fixed response length
-		return fmt.Errorf("modbus: response data size '%v' does not match expected '%v'",
+		return sf.mismatch("modbus: response data size '%v' does not match expected '%v'",
 			len(response.Data), 4)
 	case binary.BigEndian.Uint16(response.Data) != address:
-		return fmt.Errorf("modbus: response address '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response address '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data), address)
 	case binary.BigEndian.Uint16(response.Data[2:]) != quantity:
-		return fmt.Errorf("modbus: response quantity '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response quantity '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), quantity)
 	}
 	return nil
@@ -441,16 +441,16 @@ func (sf *client) MaskWriteRegister(slaveID byte, address, andMask, orMask uint1
 		return err
 	case len(response.Data) != 6:
 		// Fixed response length
-		return fmt.Errorf("modbus: response data size '%v' does not match expected '%v'",
+		return sf.mismatch("modbus: response data size '%v' does not match expected '%v'",
 			len(response.Data), 6)
 	case binary.BigEndian.Uint16(response.Data) != address:
-		return fmt.Errorf("modbus: response address '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response address '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data), address)
 	case binary.BigEndian.Uint16(response.Data[2:]) != andMask:
-		return fmt.Errorf("modbus: response AND-mask '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response AND-mask '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), andMask)
 	case binary.BigEndian.Uint16(response.Data[4:]) != orMask:
-		return fmt.Errorf("modbus: response OR-mask '%v' does not match request '%v'",
+		return sf.mismatch("modbus: response OR-mask '%v' does not match request '%v'",
 			binary.BigEndian.Uint16(response.Data[4:]), orMask)
 	}
 	return nil
@@ -497,11 +497,11 @@ func (sf *client) ReadWriteMultipleRegistersBytes(slaveID byte, readAddress, rea
 		return nil, err
 	}
 	if int(response.Data[0]) != (len(response.Data) - 1) {
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-1, response.Data[0])
 	}
 	if uint16(response.Data[0]) != readQuantity*2 {
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match quantity to bytes '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match quantity to bytes '%v'",
 			response.Data[0], readQuantity*2)
 	}
 	return response.Data[1:], nil
@@ -552,16 +552,16 @@ func (sf *client) ReadFIFOQueue(slaveID byte, address uint16) ([]byte, error) {
 	case err != nil:
 		return nil, err
 	case len(response.Data) < 4:
-		return nil, fmt.Errorf("modbus: response data size '%v' is less than expected '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' is less than expected '%v'",
 			len(response.Data), 4)
 	case len(response.Data)-2 != int(binary.BigEndian.Uint16(response.Data)):
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match count '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match count '%v'",
 			len(response.Data)-2, binary.BigEndian.Uint16(response.Data))
 	case int(binary.BigEndian.Uint16(response.Data[2:])) > 31:
-		return nil, fmt.Errorf("modbus: fifo count '%v' is greater than expected '%v'",
+		return nil, sf.mismatch("modbus: fifo count '%v' is greater than expected '%v'",
 			binary.BigEndian.Uint16(response.Data[2:]), 31)
 	case len(response.Data)-4 != 2*int(binary.BigEndian.Uint16(response.Data[2:])):
-		return nil, fmt.Errorf("modbus: response data size '%v' does not match fifo count '%v'",
+		return nil, sf.mismatch("modbus: response data size '%v' does not match fifo count '%v'",
 			len(response.Data)-4, binary.BigEndian.Uint16(response.Data[2:]))
 	}
 	return response.Data[4:], nil
@@ -597,6 +597,14 @@ func pduDataBlockSuffix(suffix []byte, value ...uint16) []byte {
 	return data
 }
 
+// mismatch is the error for a response that does not answer its request. It is
+// possibly a late one to an earlier request, with the proper one still to come,
+// so the connection is closed and the next request opens a new one.
+func (sf *client) mismatch(format string, v ...interface{}) error {
+	sf.Close()
+	return fmt.Errorf(format, v...)
+}
+
 // responseError response error.
 func responseError(request, response ProtocolDataUnit) error {
 	if response.FuncCode != request.FuncCode|0x80 || len(response.Data) == 0 {
-- 
2.43.0


From 6b876fbbde56cdb8ca6f686ec28f6fea1ea12c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 11/28] fix: register bounds checks wrapped around at address
 65536

Sums of address and quantity were taken in 16 bits, so a request at the top
of the address space was refused although it was inside the bank, or reached
past it and panicked; MaskWriteHolding indexed by absolute address.
---
 register.go | 73 ++++++++++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/register.go b/register.go
index 6bed37c..fd54f7d 100644
--- a/register.go
+++ b/register.go
@@ -119,13 +119,17 @@ func setBits(buf []byte, start, nBits uint16, value byte) {
 	}
 }
 
+// inRange 检查[address,address+quality)是否在从start开始,共total个的范围内
+func inRange(address uint16, quality int, start uint16, total int) bool {
+	return address >= start && int(address)+quality <= int(start)+total
+}
+
 // WriteCoils 写线圈
 func (sf *NodeRegister) WriteCoils(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf)*8 >= int(quality) && (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+	if len(valBuf)*8 >= int(quality) && inRange(address, int(quality), sf.coilsAddrStart, int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -154,11 +158,10 @@ func (sf *NodeRegister) WriteSingleCoil(address uint16, val bool) error {
 // ReadCoils 读线圈,返回值
 func (sf *NodeRegister) ReadCoils(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.coilsAddrStart) &&
-		((address + quality) <= (sf.coilsAddrStart + sf.coilsQuantity)) {
+	if inRange(address, int(quality), sf.coilsAddrStart, int(sf.coilsQuantity)) {
 		start := address - sf.coilsAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
@@ -186,10 +189,9 @@ func (sf *NodeRegister) ReadSingleCoil(address uint16) (bool, error) {
 // WriteDiscretes 写离散量
 func (sf *NodeRegister) WriteDiscretes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf)*8 >= int(quality) && (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+	if len(valBuf)*8 >= int(quality) && inRange(address, int(quality), sf.discreteAddrStart, int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
+		nCoils := int(quality)
 		for idx := 0; nCoils > 0; idx++ {
 			num := nCoils
 			if nCoils > 8 {
@@ -218,11 +220,10 @@ func (sf *NodeRegister) WriteSingleDiscrete(address uint16, val bool) error {
 // ReadDiscretes 读离散量
 func (sf *NodeRegister) ReadDiscretes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.discreteAddrStart) &&
-		((address + quality) <= (sf.discreteAddrStart + sf.discreteQuantity)) {
+	if inRange(address, int(quality), sf.discreteAddrStart, int(sf.discreteQuantity)) {
 		start := address - sf.discreteAddrStart
-		nCoils := int16(quality)
-		result := make([]byte, 0, (quality+7)/8)
+		nCoils := int(quality)
+		result := make([]byte, 0, (int(quality)+7)/8)
 		for ; nCoils > 0; nCoils -= 8 {
 			num := nCoils
 			if nCoils > 8 {
@@ -250,9 +251,8 @@ func (sf *NodeRegister) ReadSingleDiscrete(address uint16) (bool, error) {
 // WriteHoldingsBytes 写保持寄存器
 func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-	if len(valBuf) == int(quality*2) &&
-		(address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if len(valBuf) == int(quality)*2 &&
+		inRange(address, int(quality), sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(valBuf)
@@ -269,12 +269,11 @@ func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byt
 
 // WriteHoldings 写保持寄存器
 func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if inRange(address, quality, sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
-		end := start + quality
+		end := int(start) + quality
 		copy(sf.holding[start:end], valBuf)
 		sf.rw.Unlock()
 		return nil
@@ -286,8 +285,7 @@ func (sf *NodeRegister) WriteHoldings(address uint16, valBuf []uint16) error {
 // ReadHoldingsBytes 读保持寄存器,仅返回寄存器值
 func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if inRange(address, int(quality), sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -305,8 +303,7 @@ func (sf *NodeRegister) ReadHoldingsBytes(address, quality uint16) ([]byte, erro
 // ReadHoldings 读保持寄存器,仅返回寄存器值
 func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + quality) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
+	if inRange(address, int(quality), sf.holdingAddrStart, len(sf.holding)) {
 		start := address - sf.holdingAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -321,9 +318,8 @@ func (sf *NodeRegister) ReadHoldings(address, quality uint16) ([]uint16, error)
 // WriteInputsBytes 写输入寄存器
 func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte) error {
 	sf.rw.Lock()
-	if len(regBuf) == int(quality*2) &&
-		(address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if len(regBuf) == int(quality)*2 &&
+		inRange(address, int(quality), sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := bytes.NewBuffer(regBuf)
@@ -340,12 +336,11 @@ func (sf *NodeRegister) WriteInputsBytes(address, quality uint16, regBuf []byte)
 
 // WriteInputs 写输入寄存器
 func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
-	quality := uint16(len(valBuf))
+	quality := len(valBuf)
 	sf.rw.Lock()
-	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if inRange(address, quality, sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
-		end := start + quality
+		end := int(start) + quality
 		copy(sf.input[start:end], valBuf)
 		sf.rw.Unlock()
 		return nil
@@ -357,8 +352,7 @@ func (sf *NodeRegister) WriteInputs(address uint16, valBuf []uint16) error {
 // ReadInputsBytes 读输入寄存器
 func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error) {
 	sf.rw.RLock()
-	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if inRange(address, int(quality), sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		buf := new(bytes.Buffer)
@@ -376,8 +370,7 @@ func (sf *NodeRegister) ReadInputsBytes(address, quality uint16) ([]byte, error)
 // ReadInputs 读输入寄存器
 func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 	sf.rw.RLock()
-	if (address >= sf.inputAddrStart) &&
-		((address + quality) <= (sf.inputAddrStart + uint16(len(sf.input)))) {
+	if inRange(address, int(quality), sf.inputAddrStart, len(sf.input)) {
 		start := address - sf.inputAddrStart
 		end := start + quality
 		result := make([]uint16, quality)
@@ -392,10 +385,10 @@ func (sf *NodeRegister) ReadInputs(address, quality uint16) ([]uint16, error) {
 // MaskWriteHolding 屏蔽写保持寄存器 (val & andMask) | (orMask & ^andMask)
 func (sf *NodeRegister) MaskWriteHolding(address, andMask, orMask uint16) error {
 	sf.rw.Lock()
-	if (address >= sf.holdingAddrStart) &&
-		((address + 1) <= (sf.holdingAddrStart + uint16(len(sf.holding)))) {
-		sf.holding[address] &= andMask
-		sf.holding[address] |= orMask & ^andMask
+	if inRange(address, 1, sf.holdingAddrStart, len(sf.holding)) {
+		start := address - sf.holdingAddrStart
+		sf.holding[start] &= andMask
+		sf.holding[start] |= orMask & ^andMask
 		sf.rw.Unlock()
 		return nil
 	}
-- 
2.43.0


From 505a19d1da4c4b4f47f98e6f0df7c36459490204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 12/28] fix: write-multiple-coils accepted a value of another
 length than its byte count

---
 function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function.go b/function.go
index 7cddfd1..da5f999 100644
--- a/function.go
+++ b/function.go
@@ -186,7 +186,7 @@ func funcWriteMultiCoils(reg *NodeRegister, data []byte) ([]byte, error) {
 	quality := binary.BigEndian.Uint16(data[2:])
 	byteCnt := data[4]
 	if quality < WriteBitsQuantityMin || quality > WriteBitsQuantityMax ||
-		byteCnt != byte((quality+7)/8) {
+		byteCnt != byte((quality+7)/8) || len(data)-5 != int(byteCnt) {
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 	err := reg.WriteCoils(address, quality, data[5:])
-- 
2.43.0


From 01355bc889809f25b8b795929594e23f815b2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 13/28] fix: read/write-multiple was not one indivisible
 operation

Another session could get in between, and a request with an invalid read
range was answered with an exception although it had written.
---
 function.go |  5 +----
 register.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/function.go b/function.go
index da5f999..9167f75 100644
--- a/function.go
+++ b/function.go
@@ -318,10 +318,7 @@ func funcReadWriteMultiHoldingRegisters(reg *NodeRegister, data []byte) ([]byte,
 		return nil, &ExceptionError{ExceptionCodeIllegalDataValue}
 	}
 
-	if err := reg.WriteHoldingsBytes(writeAddress, WriteCount, data[9:]); err != nil {
-		return nil, err
-	}
-	value, err := reg.ReadHoldingsBytes(readAddress, readCount)
+	value, err := reg.readWriteHoldingsBytes(readAddress, readCount, writeAddress, WriteCount, data[9:])
 	if err != nil {
 		return nil, err
 	}
diff --git a/register.go b/register.go
index fd54f7d..4efb3a9 100644
--- a/register.go
+++ b/register.go
@@ -248,6 +248,26 @@ func (sf *NodeRegister) ReadSingleDiscrete(address uint16) (bool, error) {
 	return v[0] > 0, nil
 }
 
+// readWriteHoldingsBytes 先写后读保持寄存器,两步不可分割,任一范围无效则什么也不写
+func (sf *NodeRegister) readWriteHoldingsBytes(readAddress, readQuality,
+	writeAddress, writeQuality uint16, valBuf []byte) ([]byte, error) {
+	sf.rw.Lock()
+	defer sf.rw.Unlock()
+	if len(valBuf) != int(writeQuality)*2 ||
+		!inRange(writeAddress, int(writeQuality), sf.holdingAddrStart, len(sf.holding)) ||
+		!inRange(readAddress, int(readQuality), sf.holdingAddrStart, len(sf.holding)) {
+		return nil, &ExceptionError{ExceptionCodeIllegalDataAddress}
+	}
+	for i := 0; i < int(writeQuality); i++ {
+		sf.holding[int(writeAddress-sf.holdingAddrStart)+i] = binary.BigEndian.Uint16(valBuf[2*i:])
+	}
+	value := make([]byte, 2*int(readQuality))
+	for i := 0; i < int(readQuality); i++ {
+		binary.BigEndian.PutUint16(value[2*i:], sf.holding[int(readAddress-sf.holdingAddrStart)+i])
+	}
+	return value, nil
+}
+
 // WriteHoldingsBytes 写保持寄存器
 func (sf *NodeRegister) WriteHoldingsBytes(address, quality uint16, valBuf []byte) error {
 	sf.rw.Lock()
-- 
2.43.0


From a7d10138e2fb13d56e07df970e20b875c9db2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 14/28] fix: a request header with a length out of range
 crashed the server

---
 server_tcp_session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index 839275d..bce27de 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -71,6 +71,10 @@ func (sf *ServerSession) running(ctx context.Context) {
 					continue
 				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
+				if length <= tcpHeaderMbapSize || length > tcpAduMaxSize {
+					err = fmt.Errorf("length in request header '%v' out of range", length-tcpHeaderMbapSize+1)
+					return
+				}
 				if rdCnt == length {
 					if err = sf.frameHandler(adu[:length]); err != nil {
 						return
-- 
2.43.0


From b9e4147c3cc3fdd7f829639b693fb7abf8439380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 15/28] fix: frames of a foreign protocol kept a session from
 noticing Close

---
 server_tcp_session.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index bce27de..bda2824 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -67,8 +67,7 @@ func (sf *ServerSession) running(ctx context.Context) {
 			if rdCnt >= length {
 				// check head ProtocolIdentifier
 				if binary.BigEndian.Uint16(adu[2:]) != tcpProtocolIdentifier {
-					rdCnt, length = 0, tcpHeaderMbapSize
-					continue
+					break // drop the header, and notice a close of the server
 				}
 				length = int(binary.BigEndian.Uint16(adu[4:])) + tcpHeaderMbapSize - 1
 				if length <= tcpHeaderMbapSize || length > tcpAduMaxSize {
-- 
2.43.0


From 829feb7180df328430ae4bd72bdacd37d34f3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 16/28] fix: a plain error of a function handler was left
 unanswered

---
 server_tcp_session.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server_tcp_session.go b/server_tcp_session.go
index bda2824..448a1ee 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -115,7 +115,11 @@ func (sf *ServerSession) frameHandler(requestAdu []byte) error {
 	}
 	if err != nil {
 		funcCode |= 0x80
-		rspPduData = []byte{err.(*ExceptionError).ExceptionCode}
+		code := byte(ExceptionCodeServerDeviceFailure)
+		if e, ok := err.(*ExceptionError); ok {
+			code = e.ExceptionCode
+		}
+		rspPduData = []byte{code}
 	}
 
 	// prepare responseAdu data,fill it
-- 
2.43.0


From d7878244d5b66e8dd250fc5c7471eeb8f6cde67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 17/28] fix: a close of the server missed a listener just
 opened or a connection just accepted

---
 server_tcp.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server_tcp.go b/server_tcp.go
index 4249550..88efa48 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -64,12 +64,13 @@ const minTempDelay = 5 * time.Millisecond
 
 // ListenAndServe listen and server
 func (sf *TCPServer) ListenAndServe(addr string) error {
+	sf.mu.Lock() // a close meanwhile has to find the listener
 	listen, err := net.Listen("tcp", addr)
 	if err != nil {
+		sf.mu.Unlock()
 		return err
 	}
 	ctx, cancel := context.WithCancel(context.Background())
-	sf.mu.Lock()
 	sf.listen = listen
 	sf.cancel = cancel
 	sf.mu.Unlock()
@@ -95,7 +96,14 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 			return err
 		}
 		tempDelay = minTempDelay
+		sf.mu.Lock()
+		if sf.listen != listen { // closed meanwhile, it does not wait for this one
+			sf.mu.Unlock()
+			conn.Close()
+			continue
+		}
 		sf.wg.Add(1)
+		sf.mu.Unlock()
 		go func() {
 			sess := &ServerSession{
 				conn,
-- 
2.43.0


From 10c8292c426f68bcb06f66f79ad7e315e3e44bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 18/28] fix: a close right after the start of a special server
 was lost

---
 server_tcp_special.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 818c9bb..3aaa56d 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -166,21 +166,19 @@ func (sf *TCPServerSpecial) Start() error {
 	if sf.server == nil {
 		return errors.New("empty remote server address,add it first")
 	}
-	go sf.run()
-	return nil
-}
-
-// 增加间隔
-func (sf *TCPServerSpecial) run() {
-	var ctx context.Context
-
 	sf.rwMux.Lock()
+	defer sf.rwMux.Unlock()
 	if !atomic.CompareAndSwapUint32(&sf.status, initial, disconnected) {
-		sf.rwMux.Unlock()
-		return
+		return nil
 	}
+	var ctx context.Context
 	ctx, sf.cancel = context.WithCancel(context.Background())
-	sf.rwMux.Unlock()
+	go sf.run(ctx)
+	return nil
+}
+
+// 增加间隔
+func (sf *TCPServerSpecial) run(ctx context.Context) {
 	defer func() {
 		sf.setConnectStatus(initial)
 		sf.Debugf("tcp server special stop!")
-- 
2.43.0


From 517e833eef068d5e67159450e133b6309a9e9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 19/28] fix: a special server leaked the connection its connect
 handler refused

With auto reconnect disabled it also went on connecting.
---
 server_tcp_special.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 3aaa56d..2f3306a 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -205,6 +205,10 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.Debugf("connect success")
 		sf.conn = conn
 		if err := sf.onConnect(sf); err != nil {
+			conn.Close()
+			if !sf.autoReconnect {
+				return
+			}
 			time.Sleep(sf.reconnectInterval)
 			continue
 		}
-- 
2.43.0


From 09bc6174ba46de59ff849d4a37dfd6f6f5b2713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 20/28] fix: a special server reconnected after a loss with
 auto reconnect disabled

---
 server_tcp_special.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 2f3306a..3893990 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -235,6 +235,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.setConnectStatus(disconnected)
 		sf.onConnectionLost(sf)
 		close(stopKeepAlive)
+		if !sf.autoReconnect {
+			return
+		}
 		select {
 		case <-ctx.Done():
 			return
-- 
2.43.0


From cc896dc22812bda3bd9fee66e1f2fa993fe2eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 21/28] fix: keep alive could still fire after the connection
 lost handler

---
 server_tcp_special.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 3893990..28d4c0a 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -214,8 +214,11 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		}
 
 		stopKeepAlive := make(chan struct{})
+		var keepAlive sync.WaitGroup
 		if sf.enableKeepAlive {
+			keepAlive.Add(1)
 			go func() {
+				defer keepAlive.Done()
 				tick := time.NewTicker(sf.keepAliveInterval)
 				defer tick.Stop()
 				for {
@@ -233,8 +236,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 		sf.setConnectStatus(connected)
 		sf.running(ctx)
 		sf.setConnectStatus(disconnected)
-		sf.onConnectionLost(sf)
 		close(stopKeepAlive)
+		keepAlive.Wait() // none of this connection after the handler below
+		sf.onConnectionLost(sf)
 		if !sf.autoReconnect {
 			return
 		}
-- 
2.43.0


From 064459a26b1d9cc7ee9fa72c94e65a5c933de66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 22/28] fix: data race of UnderlyingConn with connecting

---
 server_tcp_special.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_tcp_special.go b/server_tcp_special.go
index 28d4c0a..1ddd989 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -75,6 +75,8 @@ func NewTCPServerSpecial() *TCPServerSpecial {
 
 // UnderlyingConn got underlying tcp conn
 func (sf *TCPServerSpecial) UnderlyingConn() net.Conn {
+	sf.rwMux.RLock()
+	defer sf.rwMux.RUnlock()
 	return sf.conn
 }
 
@@ -203,7 +205,9 @@ func (sf *TCPServerSpecial) run(ctx context.Context) {
 			continue
 		}
 		sf.Debugf("connect success")
+		sf.rwMux.Lock()
 		sf.conn = conn
+		sf.rwMux.Unlock()
 		if err := sf.onConnect(sf); err != nil {
 			conn.Close()
 			if !sf.autoReconnect {
-- 
2.43.0


From 3fdbe7afa6a10ad51ba270c945ce906aed412124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 23/28] fix: data race of LogMode with logging

The value receivers copied the switch without synchronisation, and so did
every new session.
---
 log.go                | 4 ++--
 server_tcp.go         | 2 +-
 server_tcp_session.go | 2 +-
 server_tcp_special.go | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/log.go b/log.go
index 7a52e22..946c81d 100644
--- a/log.go
+++ b/log.go
@@ -40,14 +40,14 @@ func (sf *logger) setLogProvider(p LogProvider) {
 }
 
 // Error Log ERROR level message.
-func (sf logger) Errorf(format string, v ...interface{}) {
+func (sf *logger) Errorf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Errorf(format, v...)
 	}
 }
 
 // Debug Log DEBUG level message.
-func (sf logger) Debugf(format string, v ...interface{}) {
+func (sf *logger) Debugf(format string, v ...interface{}) {
 	if atomic.LoadUint32(&sf.has) == 1 {
 		sf.provider.Debugf(format, v...)
 	}
diff --git a/server_tcp.go b/server_tcp.go
index 88efa48..af151cb 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -110,7 +110,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				sf.readTimeout,
 				sf.writeTimeout,
 				sf.serverCommon,
-				sf.logger,
+				&sf.logger,
 			}
 			sess.running(ctx)
 			sf.wg.Done()
diff --git a/server_tcp_session.go b/server_tcp_session.go
index 448a1ee..4359dba 100644
--- a/server_tcp_session.go
+++ b/server_tcp_session.go
@@ -17,7 +17,7 @@ type ServerSession struct {
 	readTimeout  time.Duration
 	writeTimeout time.Duration
 	*serverCommon
-	logger
+	*logger
 }
 
 // handler net conn
diff --git a/server_tcp_special.go b/server_tcp_special.go
index 1ddd989..ba4ddbb 100644
--- a/server_tcp_special.go
+++ b/server_tcp_special.go
@@ -55,12 +55,13 @@ type TCPServerSpecial struct {
 
 // NewTCPServerSpecial new tcp server special, default enable auto reconnect
 func NewTCPServerSpecial() *TCPServerSpecial {
+	l := newLogger("modbusTCPServerSpec => ")
 	return &TCPServerSpecial{
 		ServerSession: ServerSession{
 			readTimeout:  TCPDefaultReadTimeout,
 			writeTimeout: TCPDefaultWriteTimeout,
 			serverCommon: newServerCommon(),
-			logger:       newLogger("modbusTCPServerSpec => "),
+			logger:       &l,
 		},
 		autoReconnect:     true,
 		enableKeepAlive:   false,
-- 
2.43.0


From 32d278fd0dd294b0565f8766b18ed491637e27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 24/28] fix: data race of AddNodes with SetSlaveID

---
 function.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function.go b/function.go
index 9167f75..2dcdd48 100644
--- a/function.go
+++ b/function.go
@@ -44,7 +44,7 @@ func newServerCommon() *serverCommon {
 // AddNodes 增加节点.
 func (sf *serverCommon) AddNodes(nodes ...*NodeRegister) {
 	for _, v := range nodes {
-		sf.node.Store(v.slaveID, v)
+		sf.node.Store(v.SlaveID(), v)
 	}
 }
 
-- 
2.43.0


From 152e33a3f7c64ef9902ab74e435ce13e304d9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 25/28] fix: write-multiple-coils sent more bytes than its
 quantity needs

---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index db93606..be7f9dd 100644
--- a/client.go
+++ b/client.go
@@ -185,6 +185,7 @@ func (sf *client) WriteMultipleCoils(slaveID byte, address, quantity uint16, val
 	if len(value)*8 < int(quantity) {
 		return fmt.Errorf("modbus: value bits size '%v' does not greater or equal to quantity '%v'", len(value)*8, quantity)
 	}
+	value = value[:(int(quantity)+7)/8] // the byte count is fixed by the quantity
 
 	response, err := sf.Send(slaveID, ProtocolDataUnit{
 		FuncCode: FuncCodeWriteMultipleCoils,
-- 
2.43.0


From cc285826b81c5c8ece7eedc3a7b3a31f12b24b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 26/28] fix: RTU SendRawFrame of a frame without a function
 code panicked

---
 client_rtu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client_rtu.go b/client_rtu.go
index b15b587..a55e15f 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -119,6 +119,9 @@ func (sf *RTUClientProvider) SendPdu(slaveID byte, pduRequest []byte) ([]byte, e
 
 // SendRawFrame send Adu frame
 func (sf *RTUClientProvider) SendRawFrame(aduRequest []byte) (aduResponse []byte, err error) {
+	if len(aduRequest) < rtuAduMinSize { // Minimum size (including address, funcCode and CRC)
+		return nil, fmt.Errorf("modbus: request length '%v' does not meet minimum '%v'", len(aduRequest), rtuAduMinSize)
+	}
 	return sf.transact(sf.exchange, aduRequest, func([]byte) error { return nil })
 }
 
-- 
2.43.0


From 47e3c57e1bac5dbb32b0e4d6367e246df9ecb2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:52 +0000
Subject: [PATCH 27/28] fix: serial masters without options did not have the
 documented defaults

---
 client_ascii.go |  5 +++--
 client_rtu.go   |  5 +++--
 serial.go       | 10 ++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/client_ascii.go b/client_ascii.go
index ef4034c..f4fbced 100644
--- a/client_ascii.go
+++ b/client_ascii.go
@@ -29,8 +29,9 @@ var asciiPool = newPool(asciiCharacterMaxSize)
 // it will use default /dev/ttyS0 19200 8 1 N and timeout 1000.
 func NewASCIIClientProvider(opts ...ClientProviderOption) *ASCIIClientProvider {
 	p := &ASCIIClientProvider{
-		logger: newLogger("modbusASCIIMaster => "),
-		pool:   asciiPool,
+		serialPort: serialPort{Config: defaultSerialConfig},
+		logger:     newLogger("modbusASCIIMaster => "),
+		pool:       asciiPool,
 	}
 	for _, opt := range opts {
 		opt(p)
diff --git a/client_rtu.go b/client_rtu.go
index a55e15f..0aa9182 100644
--- a/client_rtu.go
+++ b/client_rtu.go
@@ -28,8 +28,9 @@ var rtuPool = newPool(rtuAduMaxSize)
 // it will use default /dev/ttyS0 19200 8 1 N and timeout 1000
 func NewRTUClientProvider(opts ...ClientProviderOption) *RTUClientProvider {
 	p := &RTUClientProvider{
-		logger: newLogger("modbusRTUMaster => "),
-		pool:   rtuPool,
+		serialPort: serialPort{Config: defaultSerialConfig},
+		logger:     newLogger("modbusRTUMaster => "),
+		pool:       rtuPool,
 	}
 	for _, opt := range opts {
 		opt(p)
diff --git a/serial.go b/serial.go
index 7be8393..3c0a680 100644
--- a/serial.go
+++ b/serial.go
@@ -11,6 +11,16 @@ import (
 // SerialDefaultTimeout Serial Default timeout
 const SerialDefaultTimeout = 1 * time.Second
 
+// defaultSerialConfig is used unless WithSerialConfig gives another one.
+var defaultSerialConfig = serial.Config{
+	Address:  "/dev/ttyS0",
+	BaudRate: 19200,
+	DataBits: 8,
+	StopBits: 1,
+	Parity:   "N",
+	Timeout:  SerialDefaultTimeout,
+}
+
 // serialPort has configuration and I/O controller.
 type serialPort struct {
 	// Serial port configuration.
-- 
2.43.0


From e96dbd4b8f0560de38b29880a4e4c4b6f1e607a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:03 +0000
Subject: [PATCH 28/28] fix: a TCP server started again after Close was closed
 by the previous ListenAndServe returning

---
 server_tcp.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/server_tcp.go b/server_tcp.go
index af151cb..4f70ff2 100644
--- a/server_tcp.go
+++ b/server_tcp.go
@@ -17,7 +17,7 @@ const (
 type TCPServer struct {
 	mu           sync.Mutex
 	listen       net.Listener
-	wg           sync.WaitGroup
+	wg           *sync.WaitGroup // sessions of the last listener
 	cancel       context.CancelFunc
 	readTimeout  time.Duration
 	writeTimeout time.Duration
@@ -55,8 +55,11 @@ func (sf *TCPServer) Close() error {
 		sf.cancel()
 		sf.listen = nil
 	}
+	wg := sf.wg
 	sf.mu.Unlock()
-	sf.wg.Wait()
+	if wg != nil {
+		wg.Wait()
+	}
 	return nil
 }
 
@@ -73,11 +76,20 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 	ctx, cancel := context.WithCancel(context.Background())
 	sf.listen = listen
 	sf.cancel = cancel
+	wg := new(sync.WaitGroup)
+	sf.wg = wg
 	sf.mu.Unlock()
 
 	sf.Debugf("server started,and listen address: %s", addr)
 	defer func() {
-		sf.Close()
+		sf.mu.Lock()
+		if sf.listen == listen { // not closed already, and perhaps started again since
+			listen.Close()
+			cancel()
+			sf.listen = nil
+		}
+		sf.mu.Unlock()
+		wg.Wait()
 		sf.Debugf("server stopped")
 	}()
 	var tempDelay = minTempDelay // how long to sleep on accept failure
@@ -102,7 +114,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 			conn.Close()
 			continue
 		}
-		sf.wg.Add(1)
+		wg.Add(1)
 		sf.mu.Unlock()
 		go func() {
 			sess := &ServerSession{
@@ -113,7 +125,7 @@ func (sf *TCPServer) ListenAndServe(addr string) error {
 				&sf.logger,
 			}
 			sess.running(ctx)
-			sf.wg.Done()
+			wg.Done()
 		}()
 	}
 }
-- 
2.43.0

