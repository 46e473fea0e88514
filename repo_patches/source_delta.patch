From 1afa482a12e88d056067df1a2f69eab4b873fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 01/42] fix: read polling packets completely and reject
 truncated ones

Packet bodies were read with a single Read call: a body split across two
reads was cut short and its tail parsed as the next header, a truncated
payload was accepted with zero padding, and base64 data with padding kept
trailing zero bytes.
---
 engine/payload.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..a029042 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
@@ -40,7 +41,10 @@ func (p *Payload) readFrom(r byteReader) (n int64, err error) {
 			n += int64(nn)
 			if err != nil {
 				if err == io.EOF {
-					return n, nil
+					if nn == 0 { // between packets
+						return n, nil
+					}
+					err = io.ErrUnexpectedEOF
 				}
 				return n, err
 			}
@@ -53,7 +57,10 @@ func (p *Payload) readFrom(r byteReader) (n int64, err error) {
 			n += int64(nn)
 			if err != nil {
 				if err == io.EOF {
-					return n, nil
+					if nn == 0 { // between packets
+						return n, nil
+					}
+					err = io.ErrUnexpectedEOF
 				}
 				return n, err
 			}
@@ -143,17 +150,12 @@ func (p *Packet) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
-	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
-	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	p.data, err = readBody(pr, l)
+	n += len(p.data)
+	if err != nil || p.msgType != MessageTypeBinary {
+		return n, err
 	}
-	_, err = rd.Read(p.data)
+	p.data, err = base64.StdEncoding.DecodeString(string(p.data))
 	return n, err
 }
 
@@ -273,10 +275,16 @@ func (p *packet2) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	p.data, err = readBody(pr, l)
+	return n + len(p.data), err
+}
+
+// readBody reads exactly length bytes from r, growing the buffer along with the data received.
+func readBody(r io.Reader, length int) ([]byte, error) {
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(length))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	return buf.Bytes(), err
 }
-- 
2.43.0


From 936c138c3063bbdef20c9d393c34b888b1344cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 02/42] fix: reject impossible packet lengths in polling
 payloads

A declared length of zero, or one that overflows int, reached make with a
negative size and panicked.
---
 engine/payload.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/engine/payload.go b/engine/payload.go
index a029042..3a813fe 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -6,6 +6,7 @@ import (
 	"encoding/base64"
 	"errors"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -173,6 +174,9 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			return n, 0, ErrInvalidPayload
 		}
 		length = length*10 + int(b-'0')
+		if length > math.MaxInt32 {
+			return n, 0, ErrInvalidPayload
+		}
 	}
 	b, err := r.ReadByte()
 	if err != nil {
@@ -191,6 +195,10 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		p.msgType = MessageTypeString
 	}
 	length--
+	if length < 0 {
+		err = ErrInvalidPayload
+		return
+	}
 	p.pktType = PacketType(b - '0')
 	return
 }
@@ -256,6 +264,10 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			return
 		}
 		length = length*10 + int(b)
+		if length > math.MaxInt32 {
+			err = ErrInvalidPayload
+			return
+		}
 	}
 	b, err = r.ReadByte()
 	if err != nil {
@@ -267,6 +279,9 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	}
 	p.pktType = PacketType(b)
 	length--
+	if length < 0 {
+		err = ErrInvalidPayload
+	}
 	return
 }
 
-- 
2.43.0


From 9b33fc3c6bf608991ab6ffa043e01f9ba5f2cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 03/42] fix: set the polling content type before the response
 header is sent

WriteHeader was called first, so the Content-Type chosen for XHR, XHR2 and
JSONP responses never reached the client.
---
 engine/polling.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/engine/polling.go b/engine/polling.go
index b753e32..1608956 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -211,7 +211,6 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
 		if jsonp := q.Get(queryJSONP); jsonp != "" {
-- 
2.43.0


From 73e6cddc17a6d509bc54c305a84aa7b0c1752bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:36 +0000
Subject: [PATCH 04/42] fix: emit valid JavaScript in JSONP polling responses

The payload is already a quoted JSON string; quoting it again (around the
encoder's newline) produced a syntax error.
---
 engine/polling.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/polling.go b/engine/polling.go
index 1608956..665b8aa 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -309,7 +309,7 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, jsonp, bytes.TrimSpace(buf.Bytes()))
 	return err
 }
 
-- 
2.43.0


From 9d603302e71f8fae29c0e6e709f1d801e5b97adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 05/42] fix: accept only integers as JSONP index

The query parameter was copied verbatim into the JavaScript response.
---
 engine/polling.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index 665b8aa..fa97eca 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -11,6 +11,7 @@ import (
 	"mime"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -206,14 +207,21 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	switch r.Method {
 	case "GET":
+		q := r.URL.Query()
+		jsonp := q.Get(queryJSONP)
+		if jsonp != "" {
+			if _, err := strconv.ParseUint(jsonp, 10, 64); err != nil {
+				http.Error(w, "invalid jsonp index", http.StatusBadRequest)
+				return
+			}
+		}
 		pkt, err := p.ReadPacketOut(r.Context())
 		if err != nil {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
-		if jsonp := q.Get(queryJSONP); jsonp != "" {
+		if jsonp != "" {
 			err = writeJSONP(w, jsonp, pkt)
 		} else if b64 == "1" {
 			err = writeXHR(w, pkt)
-- 
2.43.0


From 7d994ae70d77ab1a9eba539307423c2e4190602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 06/42] fix: do not serve a session on the request of a failed
 upgrade

After a failed probe the hijacked request was passed on to the polling
connection as a poll: it took the next packet and lost it writing to the
hijacked response.
---
 engine/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/server.go b/engine/server.go
index 63485de..4a05119 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -162,6 +162,7 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 				return
 			}
 			s.upgrade(ß, transportName, conn)
+			return // w is hijacked, or of no use to the session's current transport
 		}
 		ß.ServeHTTP(w, r)
 	}
-- 
2.43.0


From aae34daba5403761b1c0c1eb3f8c81f7669e2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 07/42] fix: read a session's current transport under its lock

An upgrade replaces the connection and the transport name under the lock,
but Close, ServeHTTP, LocalAddr, RemoteAddr and the server's request
handling read them without it: a data race, and Close could close the
connection that had just been replaced.
---
 engine/server.go |  5 ++++-
 engine/socket.go | 25 +++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 4a05119..fde0f4e 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -156,7 +156,10 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		ß.RLock()
+		current := ß.transportName
+		ß.RUnlock()
+		if transportName := transport.Name(); current != transportName {
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..2d7e74d 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"encoding/json"
+	"net"
 	"net/http"
 	"sync"
 	"time"
@@ -47,7 +48,10 @@ func (s *Socket) Read() (p *Packet, err error) {
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.Conn.Close()
+		s.RLock()
+		conn := s.Conn
+		s.RUnlock()
+		err = conn.Close()
 	})
 	return
 }
@@ -93,11 +97,28 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	s.RLock()
+	conn := s.Conn
+	s.RUnlock()
+	if handler, ok := conn.(http.Handler); ok {
 		handler.ServeHTTP(w, r)
 	}
 }
 
+// LocalAddr returns the local network address.
+func (s *Socket) LocalAddr() net.Addr {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn.LocalAddr()
+}
+
+// RemoteAddr returns the remote network address.
+func (s *Socket) RemoteAddr() net.Addr {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn.RemoteAddr()
+}
+
 // Sid returns socket session id, assigned by server.
 func (s *Socket) Sid() string {
 	return s.id
-- 
2.43.0


From 6eb126e8765a9f9be3b1b1f60d42e8da5ce7daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 08/42] fix: keep packets whose write a transport upgrade
 interrupts

Pausing the polling connection made a blocked WritePacket return
ErrPollingConnPaused, which the emitter ignored: the packet was lost. It is
now written again once the upgrade is over. The old connection is flushed
under the session lock, so that a write that is still in progress cannot
slip a packet behind the flush.
---
 engine/emitter.go | 27 +++++++++++++++++----------
 engine/server.go  |  2 +-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..747aeda 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -59,11 +59,7 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		}
 	}
 }
@@ -72,13 +68,24 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		default:
 			return
 		}
 	}
 }
+
+// write sends p on the current transport; a write cut short by a transport upgrade is repeated on the transport
+// in use afterwards.
+func (e *emitter) write(p *Packet) {
+	for {
+		e.so.barrier.Wait()
+		e.so.RLock()
+		e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
+		err := e.so.WritePacket(p)
+		e.so.RUnlock()
+		if err != ErrPollingConnPaused {
+			return
+		}
+	}
+}
diff --git a/engine/server.go b/engine/server.go
index fde0f4e..d149973 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -214,6 +214,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
+	ß.Lock() // no write is in progress from here on
 	conn.Close()
 
 	for _, packet := range conn.FlushOut() {
@@ -221,7 +222,6 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		newConn.WritePacket(packet)
 	}
 
-	ß.Lock()
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.Conn.copyHeaderFrom(conn)
-- 
2.43.0


From 776dfa42189831f4666b72936a98d73133fe87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 09/42] fix: call no event handlers while a transport upgrade
 blocks the emitter

Packets left on the old transport were handled inside the upgrade, with the
barrier still closed: a handler that emitted more than the emitter's queue
holds, or a close packet, deadlocked the session. They also ran concurrently
with a handler that the session's reader was still in. The reader now
delivers them, before anything from the new transport.
---
 engine/server.go | 16 +++++++++-------
 engine/socket.go |  8 ++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index d149973..8c3e58a 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -164,14 +164,19 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			if err != nil {
 				return
 			}
-			s.upgrade(ß, transportName, conn)
+			if p := s.upgrade(ß, transportName, conn); p != nil {
+				s.fire(ß, EventUpgrade, p.msgType, p.data)
+			}
 			return // w is hijacked, or of no use to the session's current transport
 		}
 		ß.ServeHTTP(w, r)
 	}
 }
 
-func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
+// upgrade switches ß to newConn and returns the upgrade packet, or nil if ß keeps its transport. Packets left on the
+// old transport are passed on to the session's reader: no event handler is called before the barrier is lifted, as
+// handlers may emit to ß or close it.
+func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) (upgrade *Packet) {
 	ß.barrier.Pause()
 	defer ß.barrier.Resume()
 
@@ -225,10 +230,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.Conn.copyHeaderFrom(conn)
+	ß.pending = append(ß.pending, conn.FlushIn()...)
 	ß.Unlock()
-
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
-	}
-	s.fire(ß, EventUpgrade, p.msgType, p.data)
+	return p
 }
diff --git a/engine/socket.go b/engine/socket.go
index 2d7e74d..88d3f93 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -17,6 +17,7 @@ type Socket struct {
 	id            string
 	barrier       Barrier
 	emitter       *emitter
+	pending       []*Packet // received on a former transport, not read yet
 	once          sync.Once
 	sync.RWMutex
 }
@@ -36,7 +37,14 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 func (s *Socket) Read() (p *Packet, err error) {
 	s.RLock()
 	conn := s.Conn
+	pending := len(s.pending) > 0
 	s.RUnlock()
+	if pending {
+		s.Lock()
+		p, s.pending = s.pending[0], s.pending[1:]
+		s.Unlock()
+		return
+	}
 	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
 		return
 	}
-- 
2.43.0


From 7f906b4848f5868e1b76055221950302654b470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 10/42] fix: do not end a session because its former transport
 is closed

The reader, back from a handler while an upgrade completed, could read from
the replaced connection and take its ErrPollingConnClosed for the end of the
session.
---
 engine/socket.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/socket.go b/engine/socket.go
index 88d3f93..9ee1153 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -45,10 +45,17 @@ func (s *Socket) Read() (p *Packet, err error) {
 		s.Unlock()
 		return
 	}
-	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err != nil {
-		return
+	if err = conn.SetReadDeadline(time.Now().Add(s.readTimeout)); err == nil {
+		p, err = conn.ReadPacket()
+	}
+	if err != nil {
+		s.RLock()
+		replaced := s.Conn != conn
+		s.RUnlock()
+		if replaced { // the error is due to the upgrade
+			return s.Read()
+		}
 	}
-	p, err = conn.ReadPacket()
 	return
 }
 
-- 
2.43.0


From d96f2ef60b7d78856051b8aaaa4d30faeeb515d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 11/42] fix: abandon the upgrade of a session that is being
 closed

Close only closes the transport it finds, so a connection switched to
afterwards stayed open and kept the dead session alive.
---
 engine/emitter.go | 10 ++++++++++
 engine/server.go  |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/engine/emitter.go b/engine/emitter.go
index 747aeda..87fdea1 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -32,6 +32,16 @@ func (e *emitter) close() {
 	close(e.done)
 	e.wg.Wait()
 }
+
+func (e *emitter) isClosed() bool {
+	select {
+	case <-e.done:
+		return true
+	default:
+		return false
+	}
+}
+
 func (e *emitter) submit(p *Packet) error {
 	select {
 	case <-e.done:
diff --git a/engine/server.go b/engine/server.go
index 8c3e58a..f5cab9f 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -221,6 +221,12 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) (upgrad
 
 	ß.Lock() // no write is in progress from here on
 	conn.Close()
+	if ß.emitter.isClosed() {
+		ß.Unlock()
+		newConn.Close()
+		conn.Resume()
+		return
+	}
 
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
-- 
2.43.0


From 7906557c5880a6019fbf676160bb03ebf54bfac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 12/42] fix: fire EventClose exactly once per session

The server fired it for a close packet and again when the reader ended; the
client did not fire it when the connection was lost.
---
 engine/client.go | 4 ++--
 engine/server.go | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index 4fab733..7889f47 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -60,6 +60,7 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		}
 	}()
 	go func() {
+		defer c.fire(ß, EventClose, MessageTypeString, nil)
 		defer ß.Close()
 		var p *Packet
 		var err error
@@ -86,8 +87,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
 	case PacketTypeClose:
-		c.fire(ß, EventClose, p.msgType, p.data)
-		return ß.Close()
+		return ß.Close() // the reader fires EventClose
 	case PacketTypePing:
 	case PacketTypePong:
 	case PacketTypeMessage:
diff --git a/engine/server.go b/engine/server.go
index f5cab9f..9e6838a 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -88,8 +88,7 @@ func (s *Server) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
 	case PacketTypeClose:
-		s.fire(ß, EventClose, p.msgType, p.data)
-		return ß.Close()
+		return ß.Close() // the reader fires EventClose
 	case PacketTypePing:
 		err = ß.Emit(EventPong, p.msgType, p.data)
 		s.fire(ß, EventPing, p.msgType, p.data)
-- 
2.43.0


From 1519f84062f40cd5e768d14d705145ee402d05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 13/42] fix: send a client's accepted packets before closing
 its connection

Client.Close closed the connection under the emitter, dropping packets that
Emit had accepted.
---
 engine/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/client.go b/engine/client.go
index 7889f47..3c56c0c 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -104,7 +104,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.Socket.Close()
 	})
 	return
 }
-- 
2.43.0


From 66068f5950496839d3c88ea1fcdc7f2a561369e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 14/42] fix: close the connection when the client handshake
 fails

---
 engine/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/client.go b/engine/client.go
index 3c56c0c..b199a8f 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -22,6 +22,11 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 	if err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
 	p, err := conn.ReadPacket()
 	if err != nil {
 		return
-- 
2.43.0


From ab9e5f2387ef656fd4c6dfe61efeac473697dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 15/42] fix: drop sessions the closed server no longer serves

A session created while or after the server was closed stayed in the session
table (or in the channel's buffer) for ever, its connection open and its
emitter running.
---
 engine/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index 9e6838a..5f885f8 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -26,7 +26,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 	s := &Server{
 		pingInterval:   interval,
 		pingTimeout:    timeout,
-		ßchan:          make(chan *Socket, 1),
+		ßchan:          make(chan *Socket),
 		done:           done,
 		sessionManager: newSessionManager(),
 		eventHandlers:  newEventHandlers(),
@@ -145,6 +145,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		ß.transportName = transport.Name()
 		select {
 		case <-s.done:
+			s.sessionManager.Remove(ß.id)
+			ß.Close()
 			return
 		case s.ßchan <- ß:
 		}
-- 
2.43.0


From bef6c5487b21f55172c488b763a2ac493fb2cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 16/42] fix: open a session before its packets are handled

---
 engine/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 5f885f8..1ff4a77 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -59,6 +59,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 				go func() {
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
+					onOpen(ß)
 					var p *Packet
 					var err error
 					for {
@@ -76,8 +77,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						}
 					}
 				}()
-
-				onOpen(ß)
 			}
 		}
 	}()
-- 
2.43.0


From 137d4a7424c56715978330d5b7e4166062c11039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 17/42] fix: set up a client before its packets are handled

---
 client.go        | 11 ++++++-----
 engine/client.go |  8 ++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 440f251..ce87b50 100644
--- a/client.go
+++ b/client.go
@@ -21,10 +21,12 @@ func NewClient() (c *Client) {
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
 func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Dialer, parser Parser) (err error) {
-	e, err := engine.Dial(rawurl, requestHeader, dialer)
-	if err != nil {
-		return
-	}
+	_, err = engine.Dial(rawurl, requestHeader, dialer, func(e *engine.Client) { c.init(e, parser) })
+	return
+}
+
+// init sets up c upon e, which handles no packet yet
+func (c *Client) init(e *engine.Client, parser Parser) {
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
 	c.socket = socket
@@ -49,7 +51,6 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 		socket.Close()
 		detachall(c, socket)
 	}))
-	return
 }
 
 // Emit send event messages to namespace `nsp`
diff --git a/engine/client.go b/engine/client.go
index b199a8f..bcffe9f 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -16,8 +16,9 @@ type Client struct {
 	once      sync.Once
 }
 
-// Dial connects to a engine.io server represented by `rawurl` and create Client instance on success.
-func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, err error) {
+// Dial connects to a engine.io server represented by `rawurl` and create Client instance on success. Each init is called
+// with the new Client before any packet is handled.
+func Dial(rawurl string, requestHeader http.Header, dialer Dialer, init ...func(*Client)) (c *Client, err error) {
 	conn, err := dialer.Dial(rawurl, requestHeader)
 	if err != nil {
 		return
@@ -49,6 +50,9 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		eventHandlers: newEventHandlers(),
 		closeChan:     closeChan,
 	}
+	for _, fn := range init {
+		fn(c)
+	}
 
 	go func() {
 		var err error
-- 
2.43.0


From 993842b6751755289e09ac9b0e2ac6bf2c9015b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 18/42] fix: end the session when a write fails

---
 engine/emitter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/emitter.go b/engine/emitter.go
index 87fdea1..ba21430 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -93,6 +93,9 @@ func (e *emitter) write(p *Packet) {
 		e.so.RLock()
 		e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
 		err := e.so.WritePacket(p)
+		if err != nil && err != ErrPollingConnPaused { // fatal: end the session rather than skip a packet
+			e.so.Conn.Close()
+		}
 		e.so.RUnlock()
 		if err != ErrPollingConnPaused {
 			return
-- 
2.43.0


From d674b35261589bb5f4ae54f72bbf80fcf4f8abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 19/42] fix: call OnDisconnect handlers without holding the
 socket's lock

---
 socket.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index 0cdf2e5..06eebb4 100644
--- a/socket.go
+++ b/socket.go
@@ -84,15 +84,16 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	sock.mutex.Lock()
-	for k := range sock.acks {
-		delete(sock.acks, k)
+	acks := sock.acks
+	sock.acks = make(map[string]*ackHandle)
+	sock.mutex.Unlock()
+	for k := range acks {
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From 4039b304d1a6e1ee6a27650c1e765fda7f78e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 20/42] fix: fire an acknowledgement callback at most once, and
 release the lock of an invalid one

---
 handle.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/handle.go b/handle.go
index 491bd76..1c85580 100644
--- a/handle.go
+++ b/handle.go
@@ -59,13 +59,11 @@ type ackHandle struct {
 }
 
 func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-	a.mutex.RLock()
+	a.mutex.Lock()
 	fn, ok := a.ackmap[id]
-	a.mutex.RUnlock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
 	if ok {
-		a.mutex.Lock()
-		delete(a.ackmap, id)
-		a.mutex.Unlock()
 		_, err = fn.Call(so, au, data, buffer)
 	}
 	return
@@ -73,8 +71,9 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 
 func (a *ackHandle) onAck(callback interface{}) uint64 {
 	id := atomic.AddUint64(&a.id, 1)
+	fn := newCallback(callback) // panics if invalid
 	a.mutex.Lock()
-	a.ackmap[id] = newCallback(callback)
+	a.ackmap[id] = fn
 	a.mutex.Unlock()
 	return id
 }
-- 
2.43.0


From 0ce01a3f6b76f32bf752e6344eb96931b6a5152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 21/42] fix: accept nil as an event argument

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 06eebb4..fe5a5d8 100644
--- a/socket.go
+++ b/socket.go
@@ -127,7 +127,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
+		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
 			p.ID = newid(ack.onAck(args[i]))
 		} else {
 			data = append(data, args[i])
-- 
2.43.0


From d6a00ff71f7a0e71457125c74bb945d6ae27e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 22/42] fix: send the frames of a packet contiguously, and no
 empty text frame for msgpack

---
 socket.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index fe5a5d8..9870ff5 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	order   sync.Mutex // held while the frames of a packet are sent
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -156,8 +157,12 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
-		return
+	s.order.Lock()
+	defer s.order.Unlock()
+	if b != nil {
+		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+			return
+		}
 	}
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
-- 
2.43.0


From 8d3dfa94ce9a89dcb0e742fd79eb1f0af130b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 23/42] fix: do not send received attachments back with an
 acknowledgement

---
 parser_default.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_default.go b/parser_default.go
index 09349ad..c6a0080 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -37,6 +37,7 @@ func (defaultEncoder) preprocess(p *Packet) {
 		p.Namespace = "/" + p.Namespace
 	}
 	p.attachments = 0
+	p.buffer = nil
 	if d, ok := p.Data.([]interface{}); ok {
 		p.buffer = make([][]byte, 0, len(d))
 		for i := range d {
-- 
2.43.0


From c74d6e8c7e953c2a364e2bdbf75eb30e2fd2e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 24/42] fix: report the error of an attachment that cannot be
 encoded

---
 parser_default.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index c6a0080..6f2dc32 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -32,7 +32,7 @@ func (d defaultEncoder) Encode(p *Packet) ([]byte, [][]byte, error) {
 	return buf.Bytes(), p.buffer, nil
 }
 
-func (defaultEncoder) preprocess(p *Packet) {
+func (defaultEncoder) preprocess(p *Packet) error {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
@@ -44,7 +44,10 @@ func (defaultEncoder) preprocess(p *Packet) {
 			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
 				d[i] = &placeholder{num: p.attachments}
 				p.attachments++
-				bb, _ := b.MarshalBinary()
+				bb, err := b.MarshalBinary()
+				if err != nil {
+					return err
+				}
 				p.buffer = append(p.buffer, bb)
 			}
 		}
@@ -57,10 +60,13 @@ func (defaultEncoder) preprocess(p *Packet) {
 			p.Type = PacketTypeBinaryAck
 		}
 	}
+	return nil
 }
 
 func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
-	d.preprocess(p)
+	if err = d.preprocess(p); err != nil {
+		return
+	}
 
 	if err = w.WriteByte(byte(p.Type) + '0'); err != nil {
 		return
-- 
2.43.0


From cad1645dfe90c84347a465312357575dff550de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 25/42] fix: report acknowledgements that cannot be decoded

---
 client.go | 6 +++++-
 server.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index ce87b50..663c290 100644
--- a/client.go
+++ b/client.go
@@ -147,7 +147,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
diff --git a/server.go b/server.go
index 2d4fa96..3523a21 100644
--- a/server.go
+++ b/server.go
@@ -176,7 +176,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
-- 
2.43.0


From 71609b2503d212af93b4b945e850fee9e27cf76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 26/42] fix: guard the namespaces and their event callbacks
 against concurrent access

---
 client.go | 11 ++++++++++-
 handle.go |  8 +++++++-
 server.go | 10 +++++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 663c290..55d3188 100644
--- a/client.go
+++ b/client.go
@@ -2,6 +2,7 @@ package socketio
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/zyxar/socketio/engine"
 )
@@ -11,6 +12,7 @@ type Client struct {
 	engine *engine.Client
 	*socket
 	nsps    map[string]*namespace
+	nspLock sync.RWMutex
 	onError func(err interface{})
 }
 
@@ -77,6 +79,8 @@ func (c *Client) OnError(fn func(interface{})) {
 func (c *Client) Namespace(nsp string) Namespace { return c.creatensp(nsp) }
 
 func (c *Client) creatensp(nsp string) *namespace {
+	c.nspLock.Lock()
+	defer c.nspLock.Unlock()
 	n, ok := c.nsps[nsp]
 	if !ok {
 		n = &namespace{callbacks: make(map[string]*callback)}
@@ -85,7 +89,12 @@ func (c *Client) creatensp(nsp string) *namespace {
 	return n
 }
 
-func (c *Client) getnsp(nsp string) (n *namespace, ok bool) { n, ok = c.nsps[nsp]; return }
+func (c *Client) getnsp(nsp string) (n *namespace, ok bool) {
+	c.nspLock.RLock()
+	n, ok = c.nsps[nsp]
+	c.nspLock.RUnlock()
+	return
+}
 
 // process is the Packet process handle on client side
 func (c *Client) process(sock *socket, p *Packet) {
diff --git a/handle.go b/handle.go
index 1c85580..c1f5295 100644
--- a/handle.go
+++ b/handle.go
@@ -11,6 +11,7 @@ type namespace struct {
 	onConnect    func(so Socket)
 	onDisconnect func(so Socket)
 	onError      func(so Socket, err ...interface{})
+	mutex        sync.RWMutex // guards callbacks
 }
 
 // Namespace is socket.io `namespace` abstraction
@@ -40,12 +41,17 @@ func (e *namespace) OnError(fn func(so Socket, err ...interface{})) Namespace {
 }
 
 func (e *namespace) OnEvent(event string, callback interface{}) Namespace {
-	e.callbacks[event] = newCallback(callback)
+	fn := newCallback(callback) // panics if invalid
+	e.mutex.Lock()
+	e.callbacks[event] = fn
+	e.mutex.Unlock()
 	return e
 }
 
 func (e *namespace) fireEvent(so Socket, event string, args []byte, buffer [][]byte, au ArgsUnmarshaler) ([]reflect.Value, error) {
+	e.mutex.RLock()
 	fn, ok := e.callbacks[event]
+	e.mutex.RUnlock()
 	if ok {
 		return fn.Call(so, au, args, buffer)
 	}
diff --git a/server.go b/server.go
index 3523a21..733ed8d 100644
--- a/server.go
+++ b/server.go
@@ -15,6 +15,7 @@ type Server struct {
 	sockLock sync.RWMutex
 	onError  func(err error)
 	nsps     map[string]*namespace
+	nspLock  sync.RWMutex
 }
 
 // NewServer creates a socket.io server instance upon underlying engine.io transport
@@ -87,6 +88,8 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 func (s *Server) Namespace(nsp string) Namespace { return s.creatensp(nsp) }
 
 func (s *Server) creatensp(nsp string) *namespace {
+	s.nspLock.Lock()
+	defer s.nspLock.Unlock()
 	n, ok := s.nsps[nsp]
 	if !ok {
 		n = &namespace{callbacks: make(map[string]*callback)}
@@ -95,7 +98,12 @@ func (s *Server) creatensp(nsp string) *namespace {
 	return n
 }
 
-func (s *Server) getnsp(nsp string) (n *namespace, ok bool) { n, ok = s.nsps[nsp]; return }
+func (s *Server) getnsp(nsp string) (n *namespace, ok bool) {
+	s.nspLock.RLock()
+	n, ok = s.nsps[nsp]
+	s.nspLock.RUnlock()
+	return
+}
 
 // ServeHTTP implements http.Handler interface
 func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) { s.engine.ServeHTTP(w, r) }
-- 
2.43.0


From dc4626bf913f40bff78cd301ddb0c28ea11bdb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 27/42] fix: do not modify a websocket transport shared by
 concurrent requests

---
 engine/transport.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/engine/transport.go b/engine/transport.go
index 5711544..e397656 100644
--- a/engine/transport.go
+++ b/engine/transport.go
@@ -85,10 +85,11 @@ func (websocketTransport) Name() string {
 }
 
 func (t *websocketTransport) Accept(w http.ResponseWriter, r *http.Request) (Conn, error) {
-	if t.Upgrader.CheckOrigin == nil { // allow all connections by default
-		t.Upgrader.CheckOrigin = func(_ *http.Request) bool { return true }
+	upgrader := t.Upgrader
+	if upgrader.CheckOrigin == nil { // allow all connections by default
+		upgrader.CheckOrigin = func(_ *http.Request) bool { return true }
 	}
-	c, err := t.Upgrader.Upgrade(w, r, w.Header())
+	c, err := upgrader.Upgrade(w, r, w.Header())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a01667b765a0cff084bc44871815a933efdc0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 28/42] fix: call OnConnect and OnDisconnect once per namespace
 joined

---
 client.go |  6 ++----
 server.go |  7 +++----
 socket.go | 13 ++++++++++---
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 55d3188..2e25f65 100644
--- a/client.go
+++ b/client.go
@@ -105,13 +105,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
-		if nsp.onConnect != nil {
+		if sock.attachnsp(p.Namespace) && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/server.go b/server.go
index 733ed8d..85c5095 100644
--- a/server.go
+++ b/server.go
@@ -125,7 +125,7 @@ func (s *Server) process(sock *socket, p *Packet) {
 	}
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
+		attached := sock.attachnsp(p.Namespace)
 		if err := sock.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: p.Namespace,
@@ -134,12 +134,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
 			}
 		}
-		if nsp.onConnect != nil {
+		if attached && nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
-		if nsp.onDisconnect != nil {
+		if sock.detachnsp(p.Namespace) && nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
diff --git a/socket.go b/socket.go
index 9870ff5..fadd7a0 100644
--- a/socket.go
+++ b/socket.go
@@ -64,19 +64,26 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 	}
 }
 
-func (s *socket) attachnsp(nsp string) {
+// attachnsp joins nsp and reports whether it was not joined yet
+func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if _, ok := s.acks[nsp]; ok {
+		return false
+	}
 	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
-	s.mutex.Unlock()
+	return true
 }
 
-func (s *socket) detachnsp(nsp string) {
+// detachnsp leaves nsp and reports whether it was joined
+func (s *socket) detachnsp(nsp string) bool {
 	s.mutex.Lock()
 	_, ok := s.acks[nsp]
 	if ok {
 		delete(s.acks, nsp)
 	}
 	s.mutex.Unlock()
+	return ok
 }
 
 type nspStore interface {
-- 
2.43.0


From 2ee6c1505f89e78ae45ff4aaf68570904b45631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 29/42] fix: fire no events of a namespace the client has not
 joined

---
 server.go | 2 +-
 socket.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 85c5095..9817f94 100644
--- a/server.go
+++ b/server.go
@@ -117,7 +117,7 @@ func (s *Server) OnError(fn func(err error)) { s.onError = fn }
 // process is the Packet process handle on server side
 func (s *Server) process(sock *socket, p *Packet) {
 	nsp, ok := s.getnsp(p.Namespace)
-	if !ok {
+	if !ok || p.Type != PacketTypeConnect && !sock.attached(p.Namespace) {
 		if p.Type > PacketTypeDisconnect {
 			sock.emitError(p.Namespace, ErrorNamespaceUnavaialble.Error())
 		}
diff --git a/socket.go b/socket.go
index fadd7a0..885034a 100644
--- a/socket.go
+++ b/socket.go
@@ -86,6 +86,14 @@ func (s *socket) detachnsp(nsp string) bool {
 	return ok
 }
 
+// attached reports whether nsp is joined
+func (s *socket) attached(nsp string) bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	_, ok := s.acks[nsp]
+	return ok
+}
+
 type nspStore interface {
 	getnsp(nsp string) (n *namespace, ok bool)
 }
-- 
2.43.0


From 0f4a25eb5a6cefda4c576403a97684751ae0f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 30/42] fix: refuse polling requests of a websocket session

---
 engine/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/server.go b/engine/server.go
index 1ff4a77..548bc2f 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -160,6 +160,10 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		current := ß.transportName
 		ß.RUnlock()
 		if transportName := transport.Name(); current != transportName {
+			if transportName != transportWebsocket { // no upgrade, cf. Parameters.Upgrades
+				http.Error(w, "invalid transport", http.StatusBadRequest)
+				return
+			}
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
-- 
2.43.0


From dbf9a63ffb94800019c78bf8f4d2bf104f709fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 31/42] fix: decode maps whose key type is a named string type

---
 parser_msgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..154881b 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -205,7 +205,7 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 		if err != nil {
 			return
 		}
-		v.SetMapIndex(reflect.ValueOf(string(key)), val.Elem())
+		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())
 	}
 	return
 }
-- 
2.43.0


From 3cbfada187c54eb7b26825c49e005d4a13a0fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 32/42] fix: report a failure to answer for an unavailable
 namespace

---
 server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 9817f94..fcbd287 100644
--- a/server.go
+++ b/server.go
@@ -119,7 +119,9 @@ func (s *Server) process(sock *socket, p *Packet) {
 	nsp, ok := s.getnsp(p.Namespace)
 	if !ok || p.Type != PacketTypeConnect && !sock.attached(p.Namespace) {
 		if p.Type > PacketTypeDisconnect {
-			sock.emitError(p.Namespace, ErrorNamespaceUnavaialble.Error())
+			if err := sock.emitError(p.Namespace, ErrorNamespaceUnavaialble.Error()); err != nil && s.onError != nil {
+				s.onError(err)
+			}
 		}
 		return
 	}
-- 
2.43.0


From 48b4c03ac349a6a8c6009e4b3510223e039effdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 33/42] fix: reject impossible packet lengths on 32-bit
 platforms

---
 engine/payload.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index 3a813fe..d9d9052 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -173,10 +173,10 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
-		length = length*10 + int(b-'0')
-		if length > math.MaxInt32 {
+		if length >= math.MaxInt32/10 {
 			return n, 0, ErrInvalidPayload
 		}
+		length = length*10 + int(b-'0')
 	}
 	b, err := r.ReadByte()
 	if err != nil {
@@ -263,11 +263,11 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
-		length = length*10 + int(b)
-		if length > math.MaxInt32 {
+		if length >= math.MaxInt32/10 {
 			err = ErrInvalidPayload
 			return
 		}
+		length = length*10 + int(b)
 	}
 	b, err = r.ReadByte()
 	if err != nil {
-- 
2.43.0


From dc8f0b2ad4cc878342777957ec59e9ca29d07be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 34/42] fix: do not issue a session id without random bytes

---
 engine/session.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/session.go b/engine/session.go
index eb4f693..a653567 100644
--- a/engine/session.go
+++ b/engine/session.go
@@ -56,6 +56,8 @@ func generateSidBytes(length int) []byte { // length > 7
 	k[3] = byte(now >> 16)
 	k[4] = byte(now >> 8)
 	k[5] = byte(now)
-	io.ReadFull(rand.Reader, k[6:])
+	if _, err := io.ReadFull(rand.Reader, k[6:]); err != nil {
+		panic(err) // an id without it could be guessed
+	}
 	return k
 }
-- 
2.43.0


From 7bdf975e2418f7c81ba52d214c9e376178bc2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 35/42] fix: refuse nil functions as callbacks when they are
 registered

---
 callback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/callback.go b/callback.go
index 6f7eaeb..fbef298 100644
--- a/callback.go
+++ b/callback.go
@@ -11,7 +11,7 @@ type callback struct {
 
 func newCallback(fn interface{}) *callback {
 	v := reflect.ValueOf(fn)
-	if v.Kind() != reflect.Func {
+	if v.Kind() != reflect.Func || v.IsNil() {
 		panic("invalid callback function")
 	}
 	t := v.Type()
-- 
2.43.0


From eb81b24711fc995de5064c8e02315e784b70fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 36/42] fix: reject announced numbers of attachments that
 overflow

---
 parser_default.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index 6f2dc32..14ae47e 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/url"
 	"reflect"
 	"regexp"
@@ -231,6 +232,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			if s[j] < '0' || s[j] > '9' {
 				return nil, ErrUnknownPacket
 			}
+			if p.attachments > (math.MaxInt32-9)/10 {
+				return nil, ErrUnknownPacket
+			}
 			p.attachments = p.attachments*10 + int(s[j]-'0')
 		}
 		i = j + 1
-- 
2.43.0


From df317344a144203caab15411dea120b956432dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 37/42] fix: reject message ids that overflow

---
 parser_default.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index 14ae47e..a4fa68e 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -268,6 +268,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 		var id = uint64(s[i] - '0')
 		for ; j < len(s); j++ {
 			if s[j] >= '0' && s[j] <= '9' {
+				if d := uint64(s[j] - '0'); id > (math.MaxUint64-d)/10 {
+					return nil, ErrUnknownPacket
+				}
 				id = id*10 + uint64(s[j]-'0')
 			} else {
 				break
-- 
2.43.0


From 0da7e26fef58055d2793b1ae21695d2b6723aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 38/42] fix: reject msgpack packets nested too deeply

---
 parser_msgp.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 154881b..a370c2f 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -286,13 +286,53 @@ func (msgpackDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 	return
 }
 
+// maxDepth limits how deep arrays and maps may be nested: msgp skips and decodes them recursively
+const maxDepth = 10000
+
+// checkDepth returns an error if data does not start with an object whose nesting is within maxDepth
+func checkDepth(data []byte) (err error) {
+	left := []uint64{1} // number of objects left to read at each level
+	for len(left) > 0 {
+		top := len(left) - 1
+		if left[top] == 0 {
+			left = left[:top]
+			continue
+		}
+		left[top]--
+		var sz uint32
+		var size uint64
+		switch msgp.NextType(data) {
+		case msgp.ArrayType:
+			sz, data, err = msgp.ReadArrayHeaderBytes(data)
+			size = uint64(sz)
+		case msgp.MapType:
+			sz, data, err = msgp.ReadMapHeaderBytes(data)
+			size = uint64(sz) * 2
+		default:
+			data, err = msgp.Skip(data)
+		}
+		if err != nil {
+			return err
+		}
+		if size > 0 {
+			if len(left) > maxDepth {
+				return fmt.Errorf("nested deeper than %d", maxDepth)
+			}
+			left = append(left, size)
+		}
+	}
+	return nil
+}
+
 func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	var p Packet
 	switch msgType {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
-		_, err = p.UnmarshalMsg(data)
+		if err = checkDepth(data); err == nil {
+			_, err = p.UnmarshalMsg(data)
+		}
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From ae12a6f06c323bf545902044a170ab9a83d1d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 39/42] fix: acknowledge with a list in any case

A callback without results was answered by an acknowledgement without
data, which the peer's decoder rejects: its ack callback was never called.
---
 client.go | 11 ++++-------
 server.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/client.go b/client.go
index 2e25f65..e371106 100644
--- a/client.go
+++ b/client.go
@@ -131,14 +131,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v)) // a list in any case
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
diff --git a/server.go b/server.go
index fcbd287..132150b 100644
--- a/server.go
+++ b/server.go
@@ -162,14 +162,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v)) // a list in any case
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
-- 
2.43.0


From c4b4e9ac81a99b96e245a352ed42a6c6bf83cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 40/42] fix: recognise a placeholder that is the first element

The attachment of a binary acknowledgement whose first argument is binary
was not expected, and the packet rejected.
---
 parser_default.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index a4fa68e..1f92bc9 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -320,14 +320,18 @@ func extractEvent(b []byte) (event string, left []byte, match bool) {
 }
 
 func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
-	if m := placeholderExp.FindAllSubmatch(b, -1); m != nil {
+	m := placeholderExp.FindAllSubmatch(b, -1)
+	if m != nil {
 		buffer = make([][]byte, len(m))
 	}
-	left = placeholderExp.ReplaceAllLiteral(b, nil)
+	left = placeholderExp.ReplaceAll(b, []byte("$1"))
+	if m != nil && len(m[0][1]) > 0 && bytes.HasPrefix(left, []byte("[,")) { // the first element has been removed
+		left = bytes.Replace(left, []byte("[,"), []byte("["), 1)
+	}
 	return
 }
 
-var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
+var placeholderExp = regexp.MustCompile(`(?:(^\[)|\s*,)\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
 var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
 
 type placeholder struct {
-- 
2.43.0


From 6c5426d9ed43f494e99be0a3ce21048a539491c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:54 +0000
Subject: [PATCH 41/42] fix: decode event names as the JSON strings they are

The encoder escapes names, the decoder cut them at the first quote and
left the escapes in: such events never reached their callback.
---
 parser_default.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 1f92bc9..a4b166d 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -312,7 +312,9 @@ func newid(id uint64) *uint64 {
 
 func extractEvent(b []byte) (event string, left []byte, match bool) {
 	if sub := eventExp.FindSubmatch(b); sub != nil {
-		event = string(sub[1])
+		if json.Unmarshal(sub[1], &event) != nil {
+			return
+		}
 		left = eventExp.ReplaceAll(b, []byte{'['})
 		match = true
 	}
@@ -332,7 +334,7 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 }
 
 var placeholderExp = regexp.MustCompile(`(?:(^\[)|\s*,)\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
+var eventExp = regexp.MustCompile(`^\[\s*(?P<event>"(?:[^"\\]|\\.)+")\s*,?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From c6793c9481c576a09db024383affa6e068897422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 42/42] fix: leave the transport of a closing session to its
 sender

An upgrade abandoned because the session is being closed had closed the
old transport by then: packets accepted before were never written.
---
 engine/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index 548bc2f..7ed680d 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -224,13 +224,13 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) (upgrad
 	}
 
 	ß.Lock() // no write is in progress from here on
-	conn.Close()
 	if ß.emitter.isClosed() {
 		ß.Unlock()
 		newConn.Close()
 		conn.Resume()
 		return
 	}
+	conn.Close()
 
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
-- 
2.43.0

