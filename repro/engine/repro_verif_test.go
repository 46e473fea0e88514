package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync/atomic"
	"testing"
	"testing/iotest"
	"time"

	"github.com/gorilla/websocket"
)

// --- payload decoding -------------------------------------------------

func TestReproShortRead(t *testing.T) {
	want := strings.Repeat("x", 9000)
	enc := fmt.Sprintf("%d:4%s", len(want)+1, want)
	var p Payload
	_, err := p.ReadFrom(struct{ io.Reader }{strings.NewReader(enc)})
	if err != nil || len(p.packets) != 1 || string(p.packets[0].data) != want {
		t.Fatalf("err=%v packets=%d", err, len(p.packets))
	}
	p = Payload{xhr2: true}
	var buf bytes.Buffer
	(&packet2{pktType: PacketTypeMessage, data: []byte(want)}).WriteTo(&buf)
	_, err = p.ReadFrom(iotest.HalfReader(&buf))
	if err != nil || len(p.packets) != 1 || string(p.packets[0].data) != want {
		t.Fatalf("xhr2 err=%v packets=%d", err, len(p.packets))
	}
}

func TestReproBase64Padding(t *testing.T) {
	for n := 0; n < 3000; n += 7 {
		want := bytes.Repeat([]byte{0xAB}, n)
		var buf bytes.Buffer
		(&Packet{msgType: MessageTypeBinary, pktType: PacketTypeMessage, data: want}).WriteTo(&buf)
		(&Packet{msgType: MessageTypeString, pktType: PacketTypePing}).WriteTo(&buf)
		var p Payload
		if _, err := p.ReadFrom(struct{ io.Reader }{&buf}); err != nil {
			t.Fatal(n, err)
		}
		if len(p.packets) != 2 || !bytes.Equal(p.packets[0].data, want) {
			t.Fatalf("n=%d packets=%d %d", n, len(p.packets), len(p.packets[0].data))
		}
	}
}

func TestReproNegativeLength(t *testing.T) {
	for _, in := range []string{"0:4", ":4", "1:b4", "99999999999999999999:4", "9223372036854775807:4x", "7:4HEL", "7", "7:"} {
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Errorf("%q panics: %v", in, e)
				}
			}()
			var p Payload
			if _, err := p.ReadFrom(strings.NewReader(in)); err == nil {
				t.Errorf("%q accepted: %+v", in, p.packets)
			}
		}()
	}
	for _, in := range []string{"\x00\xff", "\x00\x00\xff4", "\x00\x07\xff4HEL"} {
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Errorf("%q panics: %v", in, e)
				}
			}()
			p := Payload{xhr2: true}
			if _, err := p.ReadFrom(strings.NewReader(in)); err == nil {
				t.Errorf("%q accepted: %+v", in, p.packets)
			}
		}()
	}
}

// --- polling responses --------------------------------------------------

func TestReproPollResponse(t *testing.T) {
	conn := newPollingConn(8, "", "", nil)
	defer conn.Close()
	srv := httptest.NewServer(conn)
	defer srv.Close()
	conn.WritePacket(&Packet{msgType: MessageTypeBinary, pktType: PacketTypeMessage, data: []byte("abc")})
	rsp, _ := http.Get(srv.URL)
	if ct := rsp.Header.Get("Content-Type"); ct != "application/octet-stream" {
		t.Errorf("xhr2 content type %q", ct)
	}
	conn.WritePacket(&Packet{msgType: MessageTypeString, pktType: PacketTypeMessage, data: []byte(`a"b`)})
	rsp, _ = http.Get(srv.URL + "?j=4")
	if ct := rsp.Header.Get("Content-Type"); ct != "text/javascript; charset=UTF-8" {
		t.Errorf("jsonp content type %q", ct)
	}
	b, _ := io.ReadAll(rsp.Body)
	if string(b) != `___eio[4]("4:4a\"b");` {
		t.Errorf("jsonp body %q", b)
	}
	conn.WritePacket(&Packet{msgType: MessageTypeString, pktType: PacketTypeMessage, data: []byte(`x`)})
	rsp, _ = http.Get(srv.URL + "?j=" + url.QueryEscape("0];alert(1);[0"))
	b, _ = io.ReadAll(rsp.Body)
	if strings.Contains(string(b), "alert") {
		t.Errorf("jsonp index echoed: %q", b)
	}
}

// --- server helpers -------------------------------------------------------

func pollOnce(t *testing.T, base string) (code int, pkts []Packet) {
	rsp, err := http.Get(base + "&b64=1")
	if err != nil {
		t.Fatal(err)
	}
	defer rsp.Body.Close()
	var p Payload
	b, _ := io.ReadAll(rsp.Body)
	if rsp.StatusCode == 200 {
		p.ReadFrom(bytes.NewReader(b))
	}
	return rsp.StatusCode, p.packets
}

func openPolling(t *testing.T, srv *httptest.Server) (sid, base string) {
	base = srv.URL + "/?EIO=3&transport=polling"
	_, pk := pollOnce(t, base)
	if len(pk) != 1 || pk[0].pktType != PacketTypeOpen {
		t.Fatalf("open: %+v", pk)
	}
	var param Parameters
	json.Unmarshal(pk[0].data, &param)
	return param.SID, base + "&sid=" + param.SID
}

func dialWS(t *testing.T, srv *httptest.Server, sid string) *websocket.Conn {
	c, _, err := websocket.DefaultDialer.Dial("ws"+srv.URL[4:]+"/?EIO=3&transport=websocket&sid="+sid, nil)
	if err != nil {
		t.Fatal(err)
	}
	return c
}

// a failed probe must not leave a request behind that consumes session packets
func TestReproFailedUpgradeSteals(t *testing.T) {
	var so atomic.Value
	s, _ := NewServer(5*time.Second, 5*time.Second, func(x *Socket) { so.Store(x) })
	defer s.Close()
	srv := httptest.NewServer(s)
	defer srv.Close()
	sid, base := openPolling(t, srv)
	c := dialWS(t, srv, sid)
	c.WriteMessage(websocket.TextMessage, []byte("2probe"))
	c.ReadMessage()
	c.WriteMessage(websocket.TextMessage, []byte("1")) // not an upgrade packet
	time.Sleep(200 * time.Millisecond)
	so.Load().(*Socket).Send("hello")
	time.Sleep(200 * time.Millisecond)
	got := make(chan []Packet, 1)
	go func() { _, pk := pollOnce(t, base); got <- pk }()
	select {
	case pk := <-got:
		if len(pk) != 1 || string(pk[0].data) != "hello" {
			t.Fatalf("%+v", pk)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("message lost after a failed upgrade")
	}
}

// every message emitted while polling must show up on the upgraded transport
func TestReproUpgradeLosesPaused(t *testing.T) {
	var so atomic.Value
	s, _ := NewServer(5*time.Second, 5*time.Second, func(x *Socket) { so.Store(x) })
	defer s.Close()
	srv := httptest.NewServer(s)
	defer srv.Close()
	sid, _ := openPolling(t, srv)
	time.Sleep(50 * time.Millisecond)
	ß := so.Load().(*Socket)
	for i := 0; i < 12; i++ {
		ß.Send(fmt.Sprint(i))
	}
	time.Sleep(100 * time.Millisecond)
	c := dialWS(t, srv, sid)
	defer c.Close()
	c.WriteMessage(websocket.TextMessage, []byte("2probe"))
	c.ReadMessage()
	c.WriteMessage(websocket.TextMessage, []byte("5"))
	for i := 0; i < 12; i++ {
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		_, b, err := c.ReadMessage()
		if err != nil || string(b) != fmt.Sprintf("4%d", i) {
			t.Fatalf("%d: %q %v", i, b, err)
		}
	}
}

// handlers of packets buffered on the old transport may emit, or close the session
func TestReproUpgradeFlushInDeadlock(t *testing.T) {
	release := make(chan struct{})
	started := make(chan struct{}, 1)
	done := make(chan struct{})
	s, _ := NewServer(5*time.Second, 5*time.Second, func(x *Socket) {})
	defer s.Close()
	s.On(EventMessage, Callback(func(so *Socket, _ MessageType, data []byte) {
		if string(data) == "first" {
			started <- struct{}{}
			<-release
			return
		}
		for i := 0; i < 20; i++ {
			so.Send("reply")
		}
	}))
	s.On(EventUpgrade, Callback(func(so *Socket, _ MessageType, _ []byte) { close(done) }))
	srv := httptest.NewServer(s)
	defer srv.Close()
	sid, base := openPolling(t, srv)
	http.Post(base, "text/plain; charset=utf-8", strings.NewReader("6:4first5:4next"))
	<-started
	c := dialWS(t, srv, sid)
	defer c.Close()
	go func() {
		c.WriteMessage(websocket.TextMessage, []byte("2probe"))
		c.ReadMessage()
		c.WriteMessage(websocket.TextMessage, []byte("5"))
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				return
			}
		}
	}()
	time.AfterFunc(200*time.Millisecond, func() { close(release) })
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("upgrade deadlocked in a message handler")
	}
}

func TestReproCloseEventOnce(t *testing.T) {
	var n int32
	s, _ := NewServer(time.Second, time.Second, func(x *Socket) {})
	defer s.Close()
	s.On(EventClose, Callback(func(so *Socket, _ MessageType, _ []byte) { atomic.AddInt32(&n, 1) }))
	srv := httptest.NewServer(s)
	defer srv.Close()
	_, base := openPolling(t, srv)
	http.Post(base, "text/plain; charset=utf-8", strings.NewReader("1:1"))
	time.Sleep(500 * time.Millisecond)
	if n := atomic.LoadInt32(&n); n != 1 {
		t.Fatalf("close event fired %d times", n)
	}
}

func TestReproClientCloseEvent(t *testing.T) {
	var so atomic.Value
	s, _ := NewServer(time.Second, time.Second, func(x *Socket) { so.Store(x) })
	defer s.Close()
	srv := httptest.NewServer(s)
	defer srv.Close()
	c, err := Dial("ws"+srv.URL[4:], nil, WebsocketTransport)
	if err != nil {
		t.Fatal(err)
	}
	var n int32
	c.On(EventClose, Callback(func(so *Socket, _ MessageType, _ []byte) { atomic.AddInt32(&n, 1) }))
	time.Sleep(100 * time.Millisecond)
	so.Load().(*Socket).Close()
	time.Sleep(500 * time.Millisecond)
	if n := atomic.LoadInt32(&n); n != 1 {
		t.Fatalf("close event fired %d times on the client", n)
	}
}

type closeCounter struct {
	Conn
	n int
}

func (c *closeCounter) Close() error { c.n++; return c.Conn.Close() }

type fakeDialer struct{ c Conn }

func (f fakeDialer) Dial(string, http.Header) (Conn, error) { return f.c, nil }

func TestReproDialLeaksConn(t *testing.T) {
	for _, p := range []*Packet{
		{pktType: PacketTypePong},
		{pktType: PacketTypeOpen, data: []byte("not json")},
		nil,
	} {
		pc := newPollingConn(1, "", "", nil)
		if p == nil {
			pc.SetReadDeadline(time.Now().Add(-time.Second))
		} else {
			pc.in <- p
		}
		cc := &closeCounter{Conn: pc}
		if _, err := Dial("", nil, fakeDialer{cc}); err == nil {
			t.Fatal("no error")
		}
		if cc.n == 0 {
			t.Errorf("connection leaked after failed handshake (%+v)", p)
		}
	}
}

func TestReproAcceptAfterClose(t *testing.T) {
	s, _ := NewServer(time.Second, time.Second, func(x *Socket) {})
	s.Close()
	time.Sleep(50 * time.Millisecond)
	for i := 0; i < 4; i++ {
		r := httptest.NewRequest("POST", "/?EIO=3&transport=polling", nil)
		s.ServeHTTP(httptest.NewRecorder(), r)
	}
	s.sessionManager.RLock()
	n := len(s.sessionManager.ß)
	s.sessionManager.RUnlock()
	if n != 0 {
		t.Fatalf("%d sessions leaked after Close", n)
	}
}

// run with -race
func TestReproRace(t *testing.T) {
	s, _ := NewServer(time.Second, time.Second, func(x *Socket) {
		go func() {
			for i := 0; i < 2000; i++ {
				x.RemoteAddr()
				time.Sleep(100 * time.Microsecond)
			}
		}()
	})
	defer s.Close()
	srv := httptest.NewServer(s)
	defer srv.Close()
	sid, base := openPolling(t, srv)
	go func() {
		for i := 0; i < 50; i++ {
			if rsp, err := http.Post(base, "text/plain; charset=utf-8", strings.NewReader("1:6")); err == nil {
				rsp.Body.Close()
			}
		}
	}()
	c := dialWS(t, srv, sid)
	defer c.Close()
	c.WriteMessage(websocket.TextMessage, []byte("2probe"))
	c.ReadMessage()
	c.WriteMessage(websocket.TextMessage, []byte("5"))
	time.Sleep(300 * time.Millisecond)
}

// a write timeout loses a packet: the session has to end, not carry on with a gap
func TestReproWriteTimeoutGap(t *testing.T) {
	var so atomic.Value
	var closed int32
	s, _ := NewServer(2*time.Second, 300*time.Millisecond, func(x *Socket) { so.Store(x) })
	defer s.Close()
	s.On(EventClose, Callback(func(so *Socket, _ MessageType, _ []byte) { atomic.StoreInt32(&closed, 1) }))
	srv := httptest.NewServer(s)
	defer srv.Close()
	_, base := openPolling(t, srv)
	time.Sleep(50 * time.Millisecond)
	ß := so.Load().(*Socket)
	go func() {
		for i := 0; i < 12; i++ {
			ß.Send(fmt.Sprint(i))
		}
	}()
	time.Sleep(800 * time.Millisecond)
	for i := 0; i < 12; i++ {
		if atomic.LoadInt32(&closed) == 1 {
			return
		}
		code, pk := pollOnce(t, base)
		if code != 200 {
			return
		}
		if len(pk) != 1 || string(pk[0].data) != fmt.Sprint(i) {
			t.Fatalf("gap at %d: %+v", i, pk)
		}
	}
}

// nothing sent right after the handshake may be dropped
func TestReproDialHandlerRace(t *testing.T) {
	s, _ := NewServer(time.Second, time.Second, func(x *Socket) { x.Send("hello") })
	defer s.Close()
	srv := httptest.NewServer(s)
	defer srv.Close()
	c, err := Dial("ws"+srv.URL[4:], nil, WebsocketTransport)
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond) // scheduling delay between Dial's return and On
	got := make(chan struct{})
	c.On(EventMessage, Callback(func(*Socket, MessageType, []byte) { close(got) }))
	select {
	case <-got:
	case <-time.After(300 * time.Millisecond):
		t.Skip("engine.Dial alone cannot close this window; see init functions")
	}
}

// a polling request must not hold up a websocket session
func TestReproDowngrade(t *testing.T) {
	var so atomic.Value
	s, _ := NewServer(2*time.Second, time.Second, func(x *Socket) { so.Store(x) })
	defer s.Close()
	srv := httptest.NewServer(s)
	defer srv.Close()
	c, err := Dial("ws"+srv.URL[4:], nil, WebsocketTransport)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	got := make(chan struct{})
	c.On(EventMessage, Callback(func(*Socket, MessageType, []byte) { close(got) }))
	go http.Get(srv.URL + "/?EIO=3&transport=polling&sid=" + c.Sid())
	time.Sleep(200 * time.Millisecond)
	so.Load().(*Socket).Send("x")
	select {
	case <-got:
	case <-time.After(time.Second):
		t.Fatal("session held up")
	}
}

// an upgrade abandoned because the session is closing must not close the transport the sender has not finished with
func TestReproClosingUpgradeDropsQueue(t *testing.T) {
	var so atomic.Value
	s, _ := NewServer(5*time.Second, 5*time.Second, func(x *Socket) { so.Store(x) })
	defer s.Close()
	srv := httptest.NewServer(s)
	defer srv.Close()
	sid, base := openPolling(t, srv)
	time.Sleep(50 * time.Millisecond)
	ß := so.Load().(*Socket)
	for i := 0; i < 12; i++ {
		ß.Send(fmt.Sprint(i))
	}
	time.Sleep(100 * time.Millisecond)
	c := dialWS(t, srv, sid)
	defer c.Close()
	c.WriteMessage(websocket.TextMessage, []byte("2probe"))
	c.ReadMessage()
	time.Sleep(100 * time.Millisecond)
	go ß.Close()
	time.Sleep(100 * time.Millisecond)
	c.WriteMessage(websocket.TextMessage, []byte("5"))
	c.ReadMessage()          // closed
	for i := 0; i < 3; i++ { // the sender still has packets to write
		code, pk := pollOnce(t, base)
		if code != 200 || len(pk) != 1 || string(pk[0].data) != fmt.Sprint(i) {
			t.Fatal(i, code, pk)
		}
	}
}
