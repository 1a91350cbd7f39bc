From 9976f23fa78fb360f0b3ebe36289fd5e33cb862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 01/50] fix: check frame and header section length before using
 them

A frame length below the size of the frame header wrapped around to a
huge allocation, a header section longer than the frame panicked in
everybody slicing it, and a large frame length alone allocated the memory
it announced.
---
 transport/frame.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..c10819b 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,13 +61,29 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
-	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
+	if header.FrameLength < uint32(sizeOfFrameheader) {
+		return nil, nil, fmt.Errorf("frame length %v is smaller than the frame header", header.FrameLength)
+	}
+
+	bodyLength := header.FrameLength - uint32(sizeOfFrameheader)
+
+	if uint32(header.HeaderLength) > bodyLength {
+		return nil, nil, fmt.Errorf("header length %v exceeds the frame", header.HeaderLength)
+	}
 
-	_, err = io.ReadFull(r, body)
+	// grow with the data that really arrives, FrameLength is not to be trusted
+	var bodybuf bytes.Buffer
+
+	_, err = io.CopyN(&bodybuf, r, int64(bodyLength))
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, nil, err
 	}
 
+	body := bodybuf.Bytes()
+
 	if config.CheckFrameBodyCRC {
 		if header.FrameBodyCRC != crc32.Checksum(body, crc32.IEEETable) {
 			return nil, nil, fmt.Errorf("frame body crc32 check fail")
-- 
2.43.0


From 053ebea0ea06a1768a770c26c6a2a7ee25e11eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 02/50] fix: refuse messages that do not fit the length fields
 on the wire

The lengths of a header, of the header section and of the frame were
truncated silently, and the receiver took headers for body or lost track
of the stream.
---
 transport/frame.go          | 8 ++++++++
 transport/messageheaders.go | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index c10819b..4a21a90 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"hash/crc32"
 	"io"
+	"math"
 
 	"github.com/sigurn/crc8"
 )
@@ -102,6 +103,13 @@ type frameWriteConfig struct {
 }
 
 func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig) error {
+	if headerLen > math.MaxUint16 {
+		return fmt.Errorf("message headers too large: %v bytes", headerLen)
+	}
+
+	if int64(len(msg)) > math.MaxUint32-int64(sizeOfFrameheader) {
+		return fmt.Errorf("message too large: %v bytes", len(msg))
+	}
 
 	tcpheader := &frameheader{
 		FrameLength:          uint32(sizeOfFrameheader + len(msg)),
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..80c013c 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -221,6 +222,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("header %v too large: %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From c0cf6beef3e00c3198f43dd26766065b68169351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 03/50] fix: hand a frame to the connection in one write

Two goroutines sending on one connection could interleave the header of
one frame with the body of the other.
---
 transport/frame.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 4a21a90..0f9ccc2 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -133,11 +133,18 @@ func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig)
 		tcpheader.FrameBodyCRC = crc32.Checksum(msg, crc32.IEEETable)
 	}
 
-	err = binary.Write(w, binary.LittleEndian, tcpheader)
+	// a frame has to be a single write, the connection may have other senders
+	var frame bytes.Buffer
+	err = binary.Write(&frame, binary.LittleEndian, tcpheader)
 	if err != nil {
 		return err
 	}
 
-	_, err = w.Write(msg)
+	_, err = frame.Write(msg)
+	if err != nil {
+		return err
+	}
+
+	_, err = w.Write(frame.Bytes())
 	return err
 }
-- 
2.43.0


From 18c10469eafc64fc1312a312b48ec2098e958d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 04/50] fix: a reply racing with cancellation no longer blocks
 the receive loop

Feed removed the request from the table and then sent on its unbuffered
channel, with nobody left to receive if the request was cancelled in
between.
---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..bbfe5f2 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block when nobody waits any more
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From ba24253af40fea7bd92f76022bcd9be58ec3af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 05/50] fix: a request put into a closed request table is
 released at once

A request registered while the table was being closed, or after it, was
waited for although nobody would ever answer or close it.
---
 transport/requesttable.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bbfe5f2..9daccdd 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -4,10 +4,12 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"sync/atomic"
 )
 
 type RequestTable struct {
-	table sync.Map
+	table  sync.Map
+	closed int32
 }
 
 type PendingRequest struct {
@@ -45,6 +47,8 @@ func (r *PendingRequest) Wait(ctx context.Context) (*ByteArrayMessage, error) {
 }
 
 func (r *RequestTable) Close() error {
+	atomic.StoreInt32(&r.closed, 1)
+
 	r.table.Range(func(key, value interface{}) bool {
 		value.(*PendingRequest).Close()
 		return true
@@ -62,6 +66,11 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block when nobody waits any more
 	}
 	r.table.Store(id, p)
+
+	if atomic.LoadInt32(&r.closed) != 0 {
+		p.Close()
+	}
+
 	return p
 }
 
-- 
2.43.0


From aab510dbc5b77bd6aa17313b8edcebc991837dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 06/50] fix: do not accept a header section that ends inside a
 header

The EOF of a header cut after its id or its size was taken for the end of
the headers, and the message was delivered with headers missing.
---
 transport/messageheaders.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 80c013c..035f3d0 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -245,19 +245,28 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 	var size uint16
 	err = binary.Read(stream, binary.LittleEndian, &size)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, noEOF(err)
 	}
 
 	body := make([]byte, size)
 
 	_, err = io.ReadFull(stream, body)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, noEOF(err)
 	}
 
 	return id, body, nil
 }
 
+// noEOF is for reads in the middle of a header, where EOF is not the end of the headers
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func parseFabricMessageHeaders(r io.Reader) (*MessageHeaders, error) {
 
 	headers := MessageHeaders{
-- 
2.43.0


From f91679eeedf1a6e9d6ad360724c9f1ec9d00e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 07/50] fix: match heartbeat responses to the ping that waits
 for them

A response that came after its ping was cancelled left a goroutine behind
forever or made the next ping fail, one that came while the connection
was closed panicked with a send on a closed channel, a ping could return
success from the closed channel, and a second ping could not be cancelled
while it waited for the first.
---
 transport/conn.go | 58 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..d78d76c 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -36,7 +36,8 @@ type connection struct {
 	conn            net.Conn
 	requestTable    RequestTable
 	pinglock        sync.Mutex
-	pingCh          chan int64
+	pings           map[int64]chan struct{} // pings waiting for a response, by tick
+	closed          chan struct{}
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
@@ -54,7 +55,8 @@ func newConnection(config Config) (*connection, error) {
 
 	c := &connection{
 		msgfac: mf,
-		pingCh: make(chan int64),
+		pings:  make(map[int64]chan struct{}),
+		closed: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -132,7 +134,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closed)
 		c.requestTable.Close()
 	})
 
@@ -144,11 +146,13 @@ type heartbeat struct {
 }
 
 func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
-	c.pinglock.Lock()
-	defer c.pinglock.Unlock()
+	start := time.Now()
+
+	tick, response := c.addPing(start.UnixNano())
+	defer c.removePing(tick)
 
 	var b heartbeat
-	b.HeartbeatTimeTick = time.Now().UnixNano()
+	b.HeartbeatTimeTick = tick
 
 	msg := c.msgfac.newMessage()
 	msg.Headers.Actor = MessageActorTypeTransport
@@ -164,11 +168,41 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	select {
 	case <-ctx.Done():
 		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
-		}
-		return time.Since(time.Unix(0, t)), nil
+	case <-c.closed:
+		return -1, fmt.Errorf("connection closed")
+	case <-response:
+		return time.Since(start), nil
+	}
+}
+
+// addPing registers a ping under a tick that no other waiting ping has
+func (c *connection) addPing(tick int64) (int64, chan struct{}) {
+	c.pinglock.Lock()
+	defer c.pinglock.Unlock()
+
+	for c.pings[tick] != nil {
+		tick++
+	}
+
+	ch := make(chan struct{})
+	c.pings[tick] = ch
+	return tick, ch
+}
+
+func (c *connection) removePing(tick int64) {
+	c.pinglock.Lock()
+	defer c.pinglock.Unlock()
+
+	delete(c.pings, tick)
+}
+
+func (c *connection) finishPing(tick int64) {
+	c.pinglock.Lock()
+	defer c.pinglock.Unlock()
+
+	if ch, ok := c.pings[tick]; ok {
+		delete(c.pings, tick)
+		close(ch)
 	}
 }
 
@@ -193,7 +227,7 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		c.finishPing(b.HeartbeatTimeTick)
 	default:
 	}
 	return nil
-- 
2.43.0


From e0751f4dd8b69670704a83934b5ad2d2692ce624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 08/50] fix: data races on the message callback and the fatal
 error of a connection

SetMessageCallback and SendOneWay run concurrently with Wait.
---
 transport/conn.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index d78d76c..b90bb1c 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -32,6 +32,7 @@ type Conn interface {
 }
 
 type connection struct {
+	stateLock       sync.RWMutex // guards messageCallback and fatalerr
 	messageCallback MessageCallback
 	conn            net.Conn
 	requestTable    RequestTable
@@ -127,6 +128,9 @@ func (c *connection) setTls() {
 }
 
 func (c *connection) SetMessageCallback(cb MessageCallback) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+
 	c.messageCallback = cb
 }
 
@@ -304,23 +308,35 @@ func (c *connection) Wait() error {
 				}
 
 				serialization.Unmarshal(body, &b) // ignore error
-				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				fatalerr := fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+
+				c.stateLock.Lock()
+				c.fatalerr = fatalerr
+				c.stateLock.Unlock()
 
 				return c.Close()
 			}
 		}
 
 		if !c.requestTable.Feed(msg) {
-			if c.messageCallback != nil {
-				c.messageCallback(c, msg)
+			c.stateLock.RLock()
+			cb := c.messageCallback
+			c.stateLock.RUnlock()
+
+			if cb != nil {
+				cb(c, msg)
 			}
 		}
 	}
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	if c.fatalerr != nil {
-		return c.fatalerr
+	c.stateLock.RLock()
+	fatalerr := c.fatalerr
+	c.stateLock.RUnlock()
+
+	if fatalerr != nil {
+		return fatalerr
 	}
 	c.msgfac.fillMessageId(message)
 	return c.writeMessageWithFrame(message)
-- 
2.43.0


From a073735f68bb70e2e1b5225a0850eaa68ab0572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 09/50] fix: data race on the message callback of a server

---
 transport/server.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transport/server.go b/transport/server.go
index 35f7fea..22b64d3 100644
--- a/transport/server.go
+++ b/transport/server.go
@@ -3,10 +3,12 @@ package transport
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type Server struct {
 	listener        net.Listener
+	callbackLock    sync.RWMutex
 	messageCallback MessageCallback
 	config          ServerConfig
 }
@@ -38,8 +40,12 @@ func (s *Server) Addr() net.Addr {
 }
 
 func (s *Server) onMessage(conn Conn, msg *ByteArrayMessage) {
-	if s.messageCallback != nil {
-		go s.messageCallback(conn, msg)
+	s.callbackLock.RLock()
+	cb := s.messageCallback
+	s.callbackLock.RUnlock()
+
+	if cb != nil {
+		go cb(conn, msg)
 	}
 }
 
@@ -57,6 +63,9 @@ func (s *Server) handle(conn net.Conn) error {
 }
 
 func (s *Server) SetMessageCallback(cb MessageCallback) {
+	s.callbackLock.Lock()
+	defer s.callbackLock.Unlock()
+
 	s.messageCallback = cb
 }
 
-- 
2.43.0


From 4d3bd8168ffc2c39a9be5e0222f51d94c166a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 10/50] fix: data race on the registry of header types

RegisterHeaderActivator may be called while connections parse headers,
and a concurrent map read and write ends the process.
---
 transport/messageheaders.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 035f3d0..1f966f0 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"sync"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -70,11 +71,22 @@ type securityNegotiationHeader struct {
 type HeaderTypeActivator func() interface{}
 
 var headerTypeActivators = map[MessageHeaderIdType]HeaderTypeActivator{}
+var headerTypeActivatorsLock sync.RWMutex
 
 func RegisterHeaderActivator(typ MessageHeaderIdType, activator HeaderTypeActivator) {
+	headerTypeActivatorsLock.Lock()
+	defer headerTypeActivatorsLock.Unlock()
+
 	headerTypeActivators[typ] = activator
 }
 
+func headerActivator(typ MessageHeaderIdType) HeaderTypeActivator {
+	headerTypeActivatorsLock.RLock()
+	defer headerTypeActivatorsLock.RUnlock()
+
+	return headerTypeActivators[typ]
+}
+
 func (h *MessageHeaders) GetCustomHeaders(typ MessageHeaderIdType) []interface{} {
 	return h.customHeaders[typ]
 }
@@ -370,7 +382,7 @@ func parseFabricMessageHeaders(r io.Reader) (*MessageHeaders, error) {
 			headers.RetryCount = hv.RetryCount
 		default:
 
-			activator := headerTypeActivators[id]
+			activator := headerActivator(id)
 
 			if activator != nil {
 				hv := activator()
-- 
2.43.0


From 354ab7d9ba5fd4ced531557db73d137ac7299103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 11/50] fix: AppendCustomHeader dropped every header but the
 first

A federation message carried the sender itself and none of the partners
it knows.
---
 transport/messageheaders.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 1f966f0..5c50aac 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -119,12 +119,8 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 		h.customHeaders = make(map[MessageHeaderIdType][]interface{})
 	}
 
-	if _, ok := h.customHeaders[typ]; !ok {
-		h.customHeaders[typ] = append(h.customHeaders[typ], header...)
-		return true
-	}
-
-	return false
+	h.customHeaders[typ] = append(h.customHeaders[typ], header...)
+	return true
 }
 
 func (h *MessageHeaders) writeTo(w io.Writer) error {
-- 
2.43.0


From 07096882cd142fe6384fea3f61078f20c3cedb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 12/50] fix: report failed writes during the TLS handshake

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From 635a67eb12fa9cb3e06ab0042c95a84a64fecbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 13/50] fix: close the dialed connection when connecting over
 it fails

---
 transport/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/client.go b/transport/client.go
index f7d9cc0..3c22e6c 100644
--- a/transport/client.go
+++ b/transport/client.go
@@ -20,7 +20,13 @@ func DialTCP(addr string, config ClientConfig) (*Client, error) {
 		return nil, err
 	}
 
-	return Connect(conn, config)
+	c, err := Connect(conn, config)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	return c, nil
 }
 
 func Connect(conn net.Conn, config ClientConfig) (*Client, error) {
-- 
2.43.0


From b8371e3665af94c395653c4217918912156b5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 14/50] fix: close the upstream connection when it can not be
 set up

---
 transport/piper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/piper.go b/transport/piper.go
index 5935cfa..7a90cf2 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -54,6 +54,8 @@ func (p *Piper) handle(conn net.Conn) error {
 		return err
 	}
 
+	defer rawu.Close()
+
 	u, err := tapClientConn(rawu, uc)
 	if err != nil {
 		return err
-- 
2.43.0


From c5b6bfee63727dbd7267c520b68e57dda548dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 15/50] fix: never send two heartbeats with the same tick

---
 transport/conn.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index b90bb1c..2267161 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -38,6 +38,7 @@ type connection struct {
 	requestTable    RequestTable
 	pinglock        sync.Mutex
 	pings           map[int64]chan struct{} // pings waiting for a response, by tick
+	lastTick        int64
 	closed          chan struct{}
 	msgfac          *messageFactory
 
@@ -179,14 +180,15 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	}
 }
 
-// addPing registers a ping under a tick that no other waiting ping has
+// addPing registers a ping under a tick that no earlier ping had
 func (c *connection) addPing(tick int64) (int64, chan struct{}) {
 	c.pinglock.Lock()
 	defer c.pinglock.Unlock()
 
-	for c.pings[tick] != nil {
-		tick++
+	if tick <= c.lastTick {
+		tick = c.lastTick + 1
 	}
+	c.lastTick = tick
 
 	ch := make(chan struct{})
 	c.pings[tick] = ch
-- 
2.43.0


From afd501e75ad9dd1f589b81b878cfb0f867019239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 16/50] fix: report a truncated object header

---
 serialization/unmarshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..3a4d1a7 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -97,7 +97,10 @@ func (s *decodeState) readObjectBegin(meta FabricSerializationType) (int64, erro
 		return -1, err
 	}
 
-	binary.Read(s.inner, binary.LittleEndian, &objectheader)
+	if err := binary.Read(s.inner, binary.LittleEndian, &objectheader); err != nil {
+		return -1, err
+	}
+
 	if objectheader.Flag&headerFlagsContainsTypeInformation == headerFlagsContainsTypeInformation {
 
 		// TODO no obj activator in go, discard type info at the moment
-- 
2.43.0


From c319679f790b207d5a75a4178bdcd76f5b149455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 17/50] fix: a char for an unsigned field panicked, and the
 reverse

SetInt panics on a uint8 and SetUint on an int8.
---
 serialization/unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 3a4d1a7..1d7f87a 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -176,10 +176,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		switch meta {
-		case FabricSerializationTypeChar:
+		switch {
+		case meta == FabricSerializationTypeChar && rv.Kind() == reflect.Int8:
 			rv.SetInt(int64(v))
-		case FabricSerializationTypeUChar:
+		case meta == FabricSerializationTypeUChar && rv.Kind() == reflect.Uint8:
 			rv.SetUint(uint64(v))
 		default:
 			return fmt.Errorf("expect char/uchar got %v", meta)
-- 
2.43.0


From 04b6531fb6a8588815970c26556821f4f8df5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 18/50] fix: check string and list counts against the data
 before allocating

A few bytes announcing a string or list of 2^32 elements allocated
gigabytes before the missing data was noticed.
---
 serialization/unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 1d7f87a..a05ca06 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -235,6 +235,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return fmt.Errorf("string of %v chars exceeds the data", len)
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -308,6 +312,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		// every element has at least its type meta
+		if int64(len0) > int64(s.inner.Len()) {
+			return fmt.Errorf("list of %v elements exceeds the data", len0)
+		}
+
 		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
 
 		for i := 0; i < len; i++ {
-- 
2.43.0


From 28d9e729decdcc3a416a6b6e447022de9b7787d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 19/50] fix: an object can not end before its own fields

A too small object size moved the read position back over data already
consumed, and the fields of the enclosing object were read from it.
---
 serialization/unmarshal.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index a05ca06..baf76b0 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -131,7 +131,16 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	pos, err := s.inner.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	if endpos < pos {
+		return fmt.Errorf("object ends at %v before its fields end at %v", endpos, pos)
+	}
+
+	_, err = s.inner.Seek(endpos, io.SeekStart)
 	if err != nil {
 		return err
 	}
@@ -279,6 +288,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 
 			if meta == FabricSerializationTypeScopeEnd {
+				// consumeObjectEnd reads it again
+				if err := s.inner.UnreadByte(); err != nil {
+					return err
+				}
+
 				break
 			}
 
-- 
2.43.0


From dda7139213a088bc0f27e64cdad4a2bd5975d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 20/50] fix: reject type markers that do not belong to the
 field

Pointers, objects, lists of numbers and all empty values were decoded from
whatever marker the data had, and the bytes that followed reinterpreted.
---
 serialization/unmarshal.go | 53 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index baf76b0..d5e7d28 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -87,7 +87,7 @@ func (s *decodeState) expectTypeMeta(expectMeta FabricSerializationType) error {
 
 func (s *decodeState) readObjectBegin(meta FabricSerializationType) (int64, error) {
 	if meta != FabricSerializationTypeObject {
-		return -1, nil
+		return -1, fmt.Errorf("expect object got %v", meta)
 	}
 
 	var objectheader objectHeader
@@ -156,6 +156,43 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 	return nil
 }
 
+// metaMatches tells if meta, without the empty bit, is of the class of typ
+func metaMatches(meta FabricSerializationType, typ reflect.Type) bool {
+	switch typ.Kind() {
+	case reflect.Bool:
+		return meta == FabricSerializationTypeBool || meta == FabricSerializationTypeBoolFalse
+	case reflect.Int8:
+		return meta == FabricSerializationTypeChar
+	case reflect.Uint8:
+		return meta == FabricSerializationTypeUChar
+	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return meta == FabricSerializationTypeUShort || meta == FabricSerializationTypeUInt32 || meta == FabricSerializationTypeUInt64
+	case reflect.Int16, reflect.Int32, reflect.Int64:
+		return meta == FabricSerializationTypeShort || meta == FabricSerializationTypeInt32 || meta == FabricSerializationTypeInt64
+	case reflect.Float32, reflect.Float64:
+		return meta == FabricSerializationTypeDouble
+	case reflect.String:
+		return meta == FabricSerializationTypeWString|FabricSerializationTypeArray
+	case reflect.Ptr:
+		return meta == FabricSerializationTypePointer
+	case reflect.Struct:
+		return meta == FabricSerializationTypeObject
+	case reflect.Map:
+		return meta == FabricSerializationTypeObject|FabricSerializationTypeArray
+	case reflect.Slice:
+		switch typ.Elem().Kind() {
+		case reflect.String, reflect.Ptr:
+			return meta == FabricSerializationTypeUInt32
+		case reflect.Slice, reflect.Map:
+			return false
+		default:
+			return IsArrayMeta(meta) && metaMatches(meta&^FabricSerializationTypeArray, typ.Elem())
+		}
+	default:
+		return false
+	}
+}
+
 func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) error {
 	if IsEmptyMeta(meta) {
 
@@ -170,7 +207,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 		} else {
 			// other kind
-			// TODO basetype check
+			_, custom := castToMarshaler(rv)
+			if !custom && !metaMatches(meta&^FabricSerializationTypeEmptyValueBit, rv.Type()) {
+				return fmt.Errorf("%v got empty %v", rv.Type(), meta)
+			}
+
 			rv.Set(reflect.Zero(rv.Type()))
 		}
 
@@ -258,6 +299,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 		rv.SetString(string(utf16.Decode(body)))
 
 	case reflect.Ptr:
+		if meta != FabricSerializationTypePointer {
+			return fmt.Errorf("expect pointer got %v", meta)
+		}
+
 		ptr := reflect.New(rv.Type().Elem())
 
 		objmeta, err := s.readTypeMeta()
@@ -318,6 +363,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			if meta != FabricSerializationTypeObject|FabricSerializationTypeArray {
 				return fmt.Errorf("[]struct{} expect array got %v", meta)
 			}
+		default:
+			if !metaMatches(meta, rv.Type()) {
+				return fmt.Errorf("%v expect array got %v", rv.Type(), meta)
+			}
 		}
 
 		len0, err := s.readCompressedUInt32()
-- 
2.43.0


From 5c8aeada5555a4d69fdd6896a7befe2c7031aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 21/50] fix: a number too large for its field is an error, not
 a truncated number

---
 serialization/unmarshal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index d5e7d28..bf416c5 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -244,6 +244,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
+			if rv.OverflowUint(v) {
+				return fmt.Errorf("%v does not fit %v", v, rv.Type())
+			}
+
 			rv.SetUint(v)
 		default:
 			return fmt.Errorf("expect uint got %v", meta)
@@ -256,6 +260,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
+			if rv.OverflowInt(v) {
+				return fmt.Errorf("%v does not fit %v", v, rv.Type())
+			}
+
 			rv.SetInt(v)
 		default:
 			return fmt.Errorf("expect int got %v", meta)
-- 
2.43.0


From 74b4d62b70be1b3ee20ca88eb7759f2cef896977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 22/50] fix: a list of guids is not a guid

Only the base type of the marker was checked.
---
 serialization/guid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialization/guid.go b/serialization/guid.go
index d7ffa34..1156882 100644
--- a/serialization/guid.go
+++ b/serialization/guid.go
@@ -120,7 +120,7 @@ func (g *GUID) Marshal(s Encoder) error {
 
 func (g *GUID) Unmarshal(meta FabricSerializationType, s Decoder) error {
 
-	if !IsBaseMeta(meta, FabricSerializationTypeGuid) {
+	if meta != FabricSerializationTypeGuid {
 		return fmt.Errorf("expect guid get %v", meta)
 	}
 
-- 
2.43.0


From 0fe3fefdbb422c39c2ca7ea6a5659d269dc07d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 23/50] fix: check the marker of empty pointers to custom
 encodings too

---
 serialization/unmarshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index bf416c5..33ed7d9 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -207,7 +207,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 		} else {
 			// other kind
-			_, custom := castToMarshaler(rv)
+			custom := false
+			if rv.Kind() == reflect.Struct {
+				_, custom = castToMarshaler(rv)
+			}
+
 			if !custom && !metaMatches(meta&^FabricSerializationTypeEmptyValueBit, rv.Type()) {
 				return fmt.Errorf("%v got empty %v", rv.Type(), meta)
 			}
-- 
2.43.0


From 5fdc7901dd8b3c824e045e7f02d73329d0a04140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 24/50] fix: lease frames with a bad size or in endless rows of
 connect frames

A frame size below the size of the frame header wrapped around to a huge
allocation, a large one allocated what it announced, and every connect
frame added a stack frame that only a message would release.
---
 lease/frame.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..20a94b4 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -1,6 +1,7 @@
 package lease
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -24,27 +25,37 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
-	}
-
-	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
-	case ltFrametypeMessage:
-		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
-
-		_, err = io.ReadFull(r, body)
+	for {
+		header := ltFrameHeader{}
+		err := binary.Read(r, binary.LittleEndian, &header)
 		if err != nil {
 			return nil, err
 		}
 
-		return body, nil
-	default:
-		return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		switch header.FrameType {
+		case ltFrametypeConnect:
+			// ignore connect message
+			continue
+		case ltFrametypeMessage:
+			if header.FrameSize < uint32(sizeOfLtFrameheader) {
+				return nil, fmt.Errorf("frame size %v is smaller than the frame header", header.FrameSize)
+			}
+
+			// grow with the data that really arrives, FrameSize is not to be trusted
+			var body bytes.Buffer
+
+			_, err = io.CopyN(&body, r, int64(header.FrameSize)-int64(sizeOfLtFrameheader))
+			if err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
+				return nil, err
+			}
+
+			return body.Bytes(), nil
+		default:
+			return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		}
 	}
 }
 
-- 
2.43.0


From e46a8695c01ddd5bbe42e0dcc28b4f4526613c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 25/50] fix: hand a lease frame to the connection in one write

---
 lease/frame.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index 20a94b4..812c905 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -73,15 +73,19 @@ func writeDataWithFrame(w io.Writer, message []byte) error {
 	h.FrameType = ltFrametypeMessage
 	h.FrameSize = uint32(sizeOfLtFrameheader) + uint32(len(message))
 
-	err := binary.Write(w, binary.LittleEndian, &h)
+	// a frame has to be a single write, the connection may have other senders
+	var frame bytes.Buffer
+
+	err := binary.Write(&frame, binary.LittleEndian, &h)
 	if err != nil {
 		return err
 	}
 
-	err = binary.Write(w, binary.LittleEndian, message)
+	err = binary.Write(&frame, binary.LittleEndian, message)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	_, err = w.Write(frame.Bytes())
+	return err
 }
-- 
2.43.0


From 7f4cd4f25c6742dd44e61008be150100bd69aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 26/50] fix: lists in lease messages were located with
 wrap-around and one byte short

Offset plus size wrapped around, which panicked slicing, a list at the very
end of the message, like the listen endpoint the encoder writes there, was
refused, and an endpoint too small for its own parts panicked.
---
 lease/serialize.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..76a687e 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,15 +124,11 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
-	}
-
-	if ed >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
+	if ed > uint64(len(data)) {
+		return nil, fmt.Errorf("bad data start offset or size")
 	}
 
 	return data[st:ed], nil
@@ -170,6 +166,10 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		if len(d) < sizeofUint16+sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size")
+		}
+
 		r := bytes.NewReader(d)
 		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
-- 
2.43.0


From fa34c39266074e5fcdd60afca60a80dfff1e230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 27/50] fix: a time span too large for a duration saturates

TimeSpanMax was a negative duration.
---
 common/time.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/time.go b/common/time.go
index 4dd8008..54a200b 100644
--- a/common/time.go
+++ b/common/time.go
@@ -20,5 +20,13 @@ func TimeSpanFromDuration(d time.Duration) TimeSpan {
 }
 
 func (s TimeSpan) ToDuration() time.Duration {
+	if s > math.MaxInt64/100 {
+		return math.MaxInt64
+	}
+
+	if s < math.MinInt64/100 {
+		return math.MinInt64
+	}
+
 	return time.Duration(s) * 100
 }
-- 
2.43.0


From 33a031f327eeff87a7a8eee053eedc3cb47b13b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 28/50] fix: lease agent kept spinning on a closed listener

Wait never returned and retried the failing Accept at full speed.
---
 lease/agent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..337a85d 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -130,7 +130,11 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
-			continue
+			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
+				continue
+			}
+
+			return err
 		}
 
 		go a.handleIncoming(c)
-- 
2.43.0


From 01d3aabb2af70d2726c97d16f2c62e7ad472bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 29/50] fix: lease ping missed a fast pong and succeeded on
 close

The ping started to wait only after it was written, so a pong handled
before that was lost, and closing the session released waiting pings as if
they had been answered.
---
 lease/agent.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 337a85d..6bc8c45 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -52,6 +52,7 @@ type Agent struct {
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
+var errSessionClosed = fmt.Errorf("session closed")
 
 func closedDialer(addr string) (net.Conn, error) {
 	return nil, errAgentClosed
@@ -269,7 +270,7 @@ func (s *leaseSession) reconnect() error {
 	}
 
 	if s.closed {
-		return fmt.Errorf("session closed")
+		return errSessionClosed
 	}
 
 	c, err := s.parent.dial(s.addr)
@@ -294,6 +295,11 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
+	// a pong may arrive before the write returns, so start waiting for it first
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
 	if err := writeDataWithFrame(s.conn, data); err != nil {
 		if neterr, ok := err.(net.Error); ok {
 			if !neterr.Temporary() {
@@ -311,14 +317,17 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
 	case <-ch:
+		s.objLock.Lock()
+		defer s.objLock.Unlock()
+
+		if s.closed {
+			return errSessionClosed
+		}
+
 		return nil
 	}
 }
-- 
2.43.0


From ed353e2ca627c9f6e2d3153aaace3c6ac6efea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 30/50] fix: data races on the last pong and the remote
 instance of a lease session

---
 lease/agent.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lease/agent.go b/lease/agent.go
index 6bc8c45..31006b0 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -333,6 +333,9 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 }
 
 func (s *leaseSession) LastPongTime() time.Time {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
+
 	return s.lastpong
 }
 
@@ -342,8 +345,10 @@ func (s *leaseSession) onMessage(m *Message) {
 	case LeaseMessageTypePingRequest:
 		// TODO
 	case LeaseMessageTypePingResponse:
+		s.pingLock.Lock()
 		s.lastpong = time.Now()
 		s.remoteInstance = m.RemoteLeaseAgentInstance
+		s.pingLock.Unlock()
 		s.boardcastPong()
 	default:
 	}
@@ -362,6 +367,10 @@ func (s *leaseSession) createPingMessage() *Message {
 	message.Type = LeaseMessageTypePingRequest
 	message.Expiration = s.parent.config.LeaseDuration // TODO confirm config entry
 	message.LeaseInstance = s.localInstance
+
+	s.pingLock.RLock()
 	message.RemoteLeaseAgentInstance = s.remoteInstance
+	s.pingLock.RUnlock()
+
 	return &message
 }
-- 
2.43.0


From cc8c27b1b6349d8c92ce5e5486f48f567dac7039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 31/50] fix: do not hold the lock of a lease session while
 dialing

---
 lease/agent.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 31006b0..7487ff2 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -263,13 +263,14 @@ func (s *leaseSession) Close() error {
 
 func (s *leaseSession) reconnect() error {
 	s.objLock.Lock()
-	defer s.objLock.Unlock()
+	connected, closed := s.connected, s.closed
+	s.objLock.Unlock()
 
-	if s.connected {
+	if connected {
 		return nil
 	}
 
-	if s.closed {
+	if closed {
 		return errSessionClosed
 	}
 
@@ -282,6 +283,19 @@ func (s *leaseSession) reconnect() error {
 		c = tls.Client(c, s.parent.config.TLS)
 	}
 
+	s.objLock.Lock()
+	defer s.objLock.Unlock()
+
+	if s.closed {
+		c.Close()
+		return errSessionClosed
+	}
+
+	if s.connected {
+		c.Close()
+		return nil
+	}
+
 	s.conn = c
 	s.connected = true
 	return nil
-- 
2.43.0


From 65f50702ffb952146f0847d5f9bd8e6b65a1b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:11 +0000
Subject: [PATCH 32/50] fix: lease agent left sessions and incoming connections
 open at Close

Incoming connections were never closed, a session established while the
agent was closed stayed open, establishing twice to one address left the
first session behind, closing one of the two unregistered the other, and
the dialer was replaced while sessions used it.
---
 lease/agent.go | 87 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 80 insertions(+), 7 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 7487ff2..6b24bc4 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -49,15 +49,15 @@ type Agent struct {
 	sessions      sync.Map
 	listener      net.Listener
 	dial          Dialer
+
+	lock     sync.Mutex // guards closed, incoming and the replacement of sessions
+	closed   bool
+	incoming map[net.Conn]struct{}
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
 var errSessionClosed = fmt.Errorf("session closed")
 
-func closedDialer(addr string) (net.Conn, error) {
-	return nil, errAgentClosed
-}
-
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
 }
@@ -76,6 +76,7 @@ func NewAgent(config AgentConfig, listener net.Listener, dial Dialer) (*Agent, e
 		dial:          dial,
 		listener:      listener,
 		LocalInstance: uniqId(),
+		incoming:      make(map[net.Conn]struct{}),
 	}
 	a.config = config
 
@@ -110,16 +111,77 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		localInstance: uniqId(),
 	}
 
+	if a.isClosed() {
+		return nil, errAgentClosed
+	}
+
 	err := s.reconnect()
 	if err != nil {
 		return nil, err
 	}
 
-	a.sessions.Store(addr, &s)
+	if err := a.addSession(&s); err != nil {
+		s.Close()
+		return nil, err
+	}
 
 	return &s, nil
 }
 
+func (a *Agent) isClosed() bool {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	return a.closed
+}
+
+// addSession registers the session and closes the one it replaces
+func (a *Agent) addSession(s *leaseSession) error {
+	a.lock.Lock()
+	if a.closed {
+		a.lock.Unlock()
+		return errAgentClosed
+	}
+
+	old, replaced := a.sessions.Load(s.addr)
+	a.sessions.Store(s.addr, s)
+	a.lock.Unlock()
+
+	if replaced {
+		old.(*leaseSession).Close()
+	}
+
+	return nil
+}
+
+func (a *Agent) removeSession(s *leaseSession) {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	if cur, ok := a.sessions.Load(s.addr); ok && cur == s {
+		a.sessions.Delete(s.addr)
+	}
+}
+
+func (a *Agent) addIncoming(conn net.Conn) bool {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	if a.closed {
+		return false
+	}
+
+	a.incoming[conn] = struct{}{}
+	return true
+}
+
+func (a *Agent) removeIncoming(conn net.Conn) {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	delete(a.incoming, conn)
+}
+
 func (a *Agent) Find(addr string) (Session, bool) {
 	return nil, false
 }
@@ -143,7 +205,13 @@ func (a *Agent) Wait() error {
 }
 
 func (a *Agent) Close() error {
-	a.dial = closedDialer
+	a.lock.Lock()
+	a.closed = true
+	for conn := range a.incoming {
+		conn.Close()
+	}
+	a.lock.Unlock()
+
 	a.listener.Close()
 	a.sessions.Range(func(key, value interface{}) bool {
 		if s, ok := value.(Session); ok {
@@ -159,6 +227,11 @@ func (a *Agent) Close() error {
 func (a *Agent) handleIncoming(conn net.Conn) error {
 	defer conn.Close()
 
+	if !a.addIncoming(conn) {
+		return errAgentClosed
+	}
+	defer a.removeIncoming(conn)
+
 	if a.config.TLS != nil {
 		conn = tls.Server(conn, a.config.TLS)
 	}
@@ -246,7 +319,7 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
+	s.parent.removeSession(s)
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
-- 
2.43.0


From 0aa6fe2f4c99bd5bfd62ce1898e6955aa6bedd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 33/50] fix: release the timeout of every ping of a ping loop

---
 lease/agent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 6b24bc4..f7748f4 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -282,8 +282,9 @@ type Session interface {
 func PingLoop(ctx context.Context, sess Session, interval time.Duration) error {
 
 	for {
-		ctx0, _ := context.WithTimeout(ctx, interval)
+		ctx0, cancel := context.WithTimeout(ctx, interval)
 		sess.Ping(ctx0) // TODO ignore error atm, introduce arbitrator later
+		cancel()
 
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From eb159b1ea8babf461eb2b4378f67f676d24e3711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 34/50] fix: Bootstrap could miss that a routing node was found

The change of the phase was only noticed by somebody already waiting on the
channel that was replaced with it, so a node found while the seeds were
pinged was missed for good. The phase was also read without its lock, and
changed twice by two messages at once.
---
 federation/sitenode.go        | 20 +++++++++++++++-----
 federation/sitenode_boot.go   | 15 +++++++--------
 federation/sitenode_sender.go |  3 ++-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6421165..b9ef1b3 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -96,22 +96,32 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 }
 
 func (s *SiteNode) changePhase(newPhase NodePhase) {
+	s.phaseLock.Lock()
+	defer s.phaseLock.Unlock()
+
 	if s.phase == newPhase {
 		return
 	}
 
-	s.phaseLock.Lock()
-	defer s.phaseLock.Unlock()
-
 	s.phase = newPhase
 	close(s.phaseChanged)
 	s.phaseChanged = make(chan int)
 }
 
+// currentPhase returns the phase and a channel that is closed when it changes
+func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
+	s.phaseLock.RLock()
+	defer s.phaseLock.RUnlock()
+
+	return s.phase, s.phaseChanged
+}
+
 func (s *SiteNode) onPartnerChanged(p PartnerNodeInfo, isNew bool) {
 	// found at least 1 R node, start join
-	if p.Phase == NodePhaseRouting && s.phase == NodePhaseBooting {
-		s.changePhase(NodePhaseJoining)
+	if p.Phase == NodePhaseRouting {
+		if phase, _ := s.currentPhase(); phase == NodePhaseBooting {
+			s.changePhase(NodePhaseJoining)
+		}
 	}
 }
 
diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..2b67829 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,11 +10,12 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
-
 	for {
+		phase, phaseChanged := s.currentPhase()
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
 			if err := s.votePing(seed.Id); err != nil {
 				log.Printf("send vote ping to %v failed %v", seed.Address, err)
@@ -22,10 +23,8 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-phaseChanged:
+			// continue
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 03ddcbe..c1105f5 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -92,6 +92,7 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 }
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
+	phase, _ := s.currentPhase()
 
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
@@ -99,7 +100,7 @@ func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 			Instance:          s.instance,
 			Address:           s.transportServer.Addr().String(),
 			LeaseAgentAddress: s.leaseAgent.Addr().String(),
-			Phase:             s.phase,
+			Phase:             phase,
 		},
 	})
 
-- 
2.43.0


From 8e84b0bc9149ca7abbfc4c20f9e9f417bd3eef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 35/50] fix: two updates of a partner at once could keep the
 older one

The instance was compared before the lock for the update was taken.
---
 federation/sitenode_parteners.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..9036aef 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -15,15 +15,17 @@ type PartnerNodeInfo struct {
 }
 
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
+	p := h.PartnerNodeInfo
 
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[h.Instance.Id]
+	changed := !found || old.Instance.InstanceId < h.Instance.InstanceId
+	if changed {
 		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	}
+	s.partenersRWLock.Unlock()
+
+	if changed {
 		s.onPartnerChanged(p, !found)
 	}
 }
-- 
2.43.0


From 8b2530bb7b3a9a823fe28df555b77b03a00f2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 36/50] fix: do not call the filter of KnownPartnerNodes with
 the lock held

---
 federation/sitenode_parteners.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 9036aef..3c09439 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -32,12 +32,19 @@ func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
 
 func (s *SiteNode) KnownPartnerNodes(filter func(PartnerNodeInfo) bool) []PartnerNodeInfo {
 	s.partenersRWLock.RLock()
-	defer s.partenersRWLock.RUnlock()
-	var lst []PartnerNodeInfo
+	all := make([]PartnerNodeInfo, 0, len(s.parteners))
 
 	for _, p := range s.parteners {
-		if filter(*p) {
-			lst = append(lst, *p)
+		all = append(all, *p)
+	}
+	s.partenersRWLock.RUnlock()
+
+	var lst []PartnerNodeInfo
+
+	// not under the lock, the filter may well ask for partners itself
+	for _, p := range all {
+		if filter(p) {
+			lst = append(lst, p)
 		}
 	}
 
-- 
2.43.0


From 3b80154fe51b9eb5f24a3438d8be7d0ff44a4b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 37/50] fix: closest partner was whichever partner came last

The result pointed to the loop variable, and a partner at the very largest
distance was not found even if it was the only one.
---
 federation/sitenode_parteners.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 3c09439..5333434 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -57,12 +57,13 @@ func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bo
 	max := u128max
 
 	for _, p := range s.KnownPartnerNodes(filter) {
+		p := p
 		diff := uint128(p.Instance.Id).sub(uint128(id))
 		if diff == u128zero {
 			return &p
 		}
 
-		if diff.cmp(max) < 0 {
+		if cur == nil || diff.cmp(max) < 0 {
 			max = diff
 			cur = &p
 		}
-- 
2.43.0


From 255e9a4a8779dda6d6ff52c4504d612be884a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:43 +0000
Subject: [PATCH 38/50] fix: discovery pinged one partner many times and others
 never

---
 federation/sitenode_boot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 2b67829..0320a63 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -53,6 +53,7 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 		wg.Add(len(discovered))
 
 		for _, partner := range discovered {
+			partner := partner
 			go func(p *PartnerNodeInfo) {
 				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
-- 
2.43.0


From 07656b1eb37ba12cae2544bed1485d5aa1618d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 39/50] fix: discovery ignored its context

---
 federation/sitenode_boot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 0320a63..dc4dbf3 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -64,7 +64,11 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 
 		wg.Wait()
 
-		time.Sleep(1 * time.Second) // wait for voteping reply
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(1 * time.Second): // wait for voteping reply
+		}
 
 		found := false
 		for _, partner := range s.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true }) {
-- 
2.43.0


From 98364f3cb0c2717f4026706ec9f0dce1f820b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 40/50] fix: ranges that wrap around contain the ids above
 their begin

---
 federation/nodeid_range.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/federation/nodeid_range.go b/federation/nodeid_range.go
index 0297462..154f49d 100644
--- a/federation/nodeid_range.go
+++ b/federation/nodeid_range.go
@@ -15,16 +15,7 @@ func (r *NodeIdRange) Contains(id NodeID) bool {
 	i := uint128(id)
 
 	if s.cmp(e) > 0 {
-
-		if s.cmp(i) <= 0 && u128max.cmp(e) <= 0 {
-			return true
-		}
-
-		if u128zero.cmp(i) <= 0 && i.cmp(e) <= 0 {
-			return true
-		}
-
-		return false
+		return s.cmp(i) <= 0 || i.cmp(e) <= 0
 	}
 
 	return s.cmp(i) <= 0 && i.cmp(e) <= 0
-- 
2.43.0


From b4a3ce0f7020859192de03bebe512599272ac356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 41/50] fix: a negative or too large number is not a node id

---
 federation/nodeid_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index a0af3bf..f4a23ea 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -17,7 +17,7 @@ func NodeIDFromHex(v string) (NodeID, error) {
 
 	i, ok := new(big.Int).SetString(v, 16)
 
-	if !ok {
+	if !ok || i.Sign() < 0 || i.BitLen() > 128 {
 		return u, fmt.Errorf("fail to convert %v to Uint128", v)
 	}
 
-- 
2.43.0


From 90de29b5d961b309ab62e75a28cf0c1cd8ea6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 42/50] fix: node id of a name without an instance panicked

---
 federation/nodeid_generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index f4a23ea..7de3d31 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -91,6 +91,10 @@ func NodeIDFromV4Generator(v string) (nodeId NodeID) {
 	// recalculate hi base on index in name
 	idx := strings.LastIndexFunc(v, func(r rune) bool { return r == '.' || r == '_' })
 
+	if idx < 0 {
+		return
+	}
+
 	roleName := v[:idx]
 	instance_s := v[idx+1:]
 
-- 
2.43.0


From 3f075559d63cb8aa4d7fa5bd09e06e64b7b5fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 43/50] fix: joining reported success whatever came of its
 query

---
 federation/sitenode_join.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/federation/sitenode_join.go b/federation/sitenode_join.go
index 84855f9..52697b3 100644
--- a/federation/sitenode_join.go
+++ b/federation/sitenode_join.go
@@ -30,7 +30,9 @@ func (s *SiteNode) neighborhoodQuery(ctx context.Context) error {
 
 	var global GlobalLease
 
-	serialization.Unmarshal(reply.Body, &global)
+	if err := serialization.Unmarshal(reply.Body, &global); err != nil {
+		return err
+	}
 
 	fmt.Println("reply", global)
 
@@ -38,7 +40,5 @@ func (s *SiteNode) neighborhoodQuery(ctx context.Context) error {
 }
 
 func (s *SiteNode) Join(ctx context.Context) error {
-	s.neighborhoodQuery(ctx)
-
-	return nil
+	return s.neighborhoodQuery(ctx)
 }
-- 
2.43.0


From fcf306694ab936b76d4df61daffd693f8301c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 44/50] fix: data races, stale errors and leaks in the
 connection pool

The connection and the error of the dial were read while they were set,
a connection dialed while the node was closed stayed open, closing a pooled
connection for the second time removed the one that had replaced it, and
the error could be read before the dial had set it.
---
 federation/sitenode_sender.go | 63 +++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index c1105f5..e14f5c3 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -2,6 +2,7 @@ package federation
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 
@@ -11,50 +12,77 @@ import (
 
 type Dialer func(addr string) (*transport.Client, error)
 
+var errConnClosed = errors.New("connection closed")
+
 type cachedConn struct {
 	parent  *SiteNode
 	partner *PartnerNodeInfo
-	conn    *transport.Client
 	init    sync.Once
 	close   sync.Once
+
+	lock    sync.Mutex // guards conn, closed and lasterr
+	conn    *transport.Client
+	closed  bool
 	lasterr error
 }
 
-func (c *cachedConn) Conn() *transport.Client {
-	if c.conn != nil {
-		return c.conn
-	}
-
+// Conn returns either a connection or an error, and will recreate if err
+func (c *cachedConn) Conn() (*transport.Client, error) {
 	c.init.Do(func() {
 		conn, err := c.parent.clientDialer(c.partner.Address)
 
 		if err != nil {
-			c.lasterr = err
+			c.setConn(nil, err)
 			c.Close()
 			return
 		}
 
 		conn.SetMessageCallback(c.parent.onMessage)
 
+		if !c.setConn(conn, nil) {
+			conn.Close()
+			return
+		}
+
 		go func() {
 			defer c.Close()
 			conn.Wait()
 		}()
-
-		c.conn = conn
 	})
 
-	return c.conn // maybe nil and will recreate if err
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	return c.conn, c.lasterr
 }
 
-func (c *cachedConn) Close() error {
-	cc, ok := c.parent.connPool.LoadAndDelete(c.partner.Address)
-	if !ok {
-		return nil
+// setConn returns false if the connection comes too late, after Close
+func (c *cachedConn) setConn(conn *transport.Client, err error) bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if err == nil && c.closed {
+		c.lasterr = errConnClosed
+		return false
 	}
 
-	cc.(*cachedConn).close.Do(func() {
-		tc := cc.(*cachedConn).conn
+	c.conn = conn
+	c.lasterr = err
+	return true
+}
+
+func (c *cachedConn) Close() error {
+	c.close.Do(func() {
+		// nobody else removes c, and another one may have taken its place only after that
+		if cur, ok := c.parent.connPool.Load(c.partner.Address); ok && cur == c {
+			c.parent.connPool.Delete(c.partner.Address)
+		}
+
+		c.lock.Lock()
+		tc := c.conn
+		c.closed = true
+		c.lock.Unlock()
+
 		if tc != nil {
 			tc.Close()
 		}
@@ -69,8 +97,7 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 		partner: p,
 	})
 
-	cc := c.(*cachedConn)
-	return cc.Conn(), cc.lasterr
+	return c.(*cachedConn).Conn()
 }
 
 func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
-- 
2.43.0


From 39ddca1a18f71452d02a96850692f335dba62a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 45/50] fix: closing a site node left routed requests waiting

Nothing released the requests waiting for a routed reply, and a message
sent while the node was closed put a new connection into its pool.
---
 federation/sitenode.go        | 6 ++++++
 federation/sitenode_sender.go | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index b9ef1b3..5775257 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -4,6 +4,7 @@ import (
 	"crypto/tls"
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/tg123/phabrik/lease"
 	"github.com/tg123/phabrik/transport"
@@ -24,6 +25,7 @@ type SiteNode struct {
 	requestTable       transport.RequestTable
 	clientDialer       Dialer
 	connPool           sync.Map
+	closed             int32
 
 	parteners       map[NodeID]*PartnerNodeInfo
 	partenersRWLock sync.RWMutex
@@ -162,6 +164,8 @@ func (s *SiteNode) Serve() error {
 }
 
 func (s *SiteNode) Close() error {
+	atomic.StoreInt32(&s.closed, 1)
+
 	s.transportServer.Close()
 	s.leaseAgent.Close()
 
@@ -173,5 +177,7 @@ func (s *SiteNode) Close() error {
 		return true
 	})
 
+	s.requestTable.Close()
+
 	return nil
 }
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index e14f5c3..f6d0f6c 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/tg123/phabrik/common"
 	"github.com/tg123/phabrik/transport"
@@ -97,7 +98,13 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 		partner: p,
 	})
 
-	return c.(*cachedConn).Conn()
+	cc := c.(*cachedConn)
+
+	if atomic.LoadInt32(&s.closed) != 0 {
+		cc.Close()
+	}
+
+	return cc.Conn()
 }
 
 func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
-- 
2.43.0


From 3a029c1111660d49c91c1a35037edc726fd3c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 46/50] fix: do not dial for a node that is closed

---
 federation/sitenode_sender.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index f6d0f6c..f3ffd76 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -102,6 +102,7 @@ func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
 
 	if atomic.LoadInt32(&s.closed) != 0 {
 		cc.Close()
+		return nil, errConnClosed
 	}
 
 	return cc.Conn()
-- 
2.43.0


From fbfb85387eaf80544cf9f40bd4bc2511384a4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 47/50] fix: naming requests ignored their context

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..6fee21d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c11254b5f170891a592ab9066deb1903197ad0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 48/50] fix: notifications that can not be decoded were
 acknowledged and delivered

---
 naming/naming.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 6fee21d..b943c71 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -151,11 +151,13 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 		err := serialization.Unmarshal(bam.Body, &b)
 		if err != nil {
 			log.Printf("ServiceNotificationRequest unmarshal err %v", err)
+			return
 		}
 
 		reply, err := NewNamingMessage("ServiceNotificationReply")
 		if err != nil {
 			log.Printf("ServiceNotificationRequest NewNamingMessage err %v", err)
+			return
 		}
 
 		reply.Headers.RelatesTo = bam.Headers.Id
-- 
2.43.0


From eaa9c0d6a80f841bcb76f2131e111aa517e37c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 49/50] fix: failures reported by the naming gateway were taken
 for results

GetApplicationList read a failure reply as a query result, and panicked
without a list in it, and nobody looked at the fault header.
---
 naming/naming.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index b943c71..c0ebbda 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -183,6 +183,10 @@ func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message)
 		return nil, err
 	}
 
+	if reply.Headers.ErrorCode != transport.FabricErrorCodeSuccess {
+		return nil, fmt.Errorf("reply message contains err header, code: %v", reply.Headers.ErrorCode)
+	}
+
 	body := reply.Body
 	if reply.Headers.Action == "ClientOperationFailure" {
 		var b struct {
@@ -365,7 +369,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
@@ -386,5 +390,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no list")
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From a55ecc2fb1b6a96ed96a39f719b93ec193dc6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 50/50] fix: read the first frame of a piped connection with
 the configured checksum settings

---
 transport/piper.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 7a90cf2..4a2ea56 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -35,11 +35,14 @@ func NewPiper(l net.Listener, config PiperConfig) (*Piper, error) {
 func (p *Piper) handle(conn net.Conn) error {
 	defer conn.Close()
 
-	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, frameReadConfig{
-		CheckFrameHeaderCRC: true,
-		CheckFrameBodyCRC:   false,
-	})
+	rcfg := frameReadConfig{}
+	if p.config.TLS == nil {
+		// frames of the tls handshake carry no checksums
+		rcfg.CheckFrameHeaderCRC = !p.config.DisableCheckFrameHeaderCRC
+		rcfg.CheckFrameBodyCRC = p.config.CheckFrameBodyCRC
+	}
 
+	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, rcfg)
 	if err != nil {
 		return nil
 	}
-- 
2.43.0

