package socketio

import (
	"bytes"
	"encoding/json"
	"errors"
	"net/http/httptest"
	"reflect"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/tinylib/msgp/msgp"
	"github.com/zyxar/socketio/engine"
)

func reproServer(t *testing.T) (*Server, *httptest.Server) {
	s, err := NewServer(time.Second, time.Second, DefaultParser)
	if err != nil {
		t.Fatal(err)
	}
	srv := httptest.NewServer(s)
	t.Cleanup(func() { srv.Close(); s.Close() })
	return s, srv
}

type raw struct{ *websocket.Conn }

func reproDial(t *testing.T, srv *httptest.Server) raw {
	c, _, err := websocket.DefaultDialer.Dial("ws"+srv.URL[4:]+"/?EIO=3&transport=websocket", nil)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Close() })
	return raw{c}
}

func (c raw) send(s string) { c.WriteMessage(websocket.TextMessage, []byte(s)) }

func (c raw) next(t *testing.T) string {
	c.SetReadDeadline(time.Now().Add(time.Second))
	_, b, err := c.ReadMessage()
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func TestReproDisconnectHandlerDeadlock(t *testing.T) {
	s, srv := reproServer(t)
	done := make(chan struct{})
	s.Namespace("/").OnDisconnect(func(so Socket) { so.Emit("bye"); close(done) })
	c := reproDial(t, srv)
	c.next(t)
	c.next(t)
	c.Close()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("OnDisconnect handler deadlocked")
	}
}

func TestReproAckOnce(t *testing.T) {
	for i := 0; i < 2000; i++ {
		a := &ackHandle{ackmap: make(map[uint64]*callback)}
		var n int32
		id := a.onAck(func() { atomic.AddInt32(&n, 1) })
		done := make(chan struct{}, 4)
		for j := 0; j < 4; j++ {
			go func() { a.fireAck(nil, id, []byte("[]"), nil, newDefaultDecoder()); done <- struct{}{} }()
		}
		for j := 0; j < 4; j++ {
			<-done
		}
		if n != 1 {
			t.Fatalf("fired %d times", n)
		}
	}
}

func TestReproInvalidAckKeepsLock(t *testing.T) {
	a := &ackHandle{ackmap: make(map[uint64]*callback)}
	func() { defer func() { recover() }(); a.onAck(func(chan int) {}) }()
	if !a.mutex.TryLock() {
		t.Fatal("lock kept")
	}
}

func TestReproNilArg(t *testing.T) {
	s, srv := reproServer(t)
	s.Namespace("/").OnConnect(func(so Socket) { so.Emit("e", nil) })
	c := reproDial(t, srv)
	c.next(t)
	c.next(t)
	if m := c.next(t); m != "42[\"e\",null]\n" {
		t.Fatalf("%q", m)
	}
}

type failing struct{}

func (failing) MarshalBinary() ([]byte, error) { return nil, errors.New("no") }

func TestReproMarshalBinaryError(t *testing.T) {
	if _, _, err := (defaultEncoder{}).Encode(&Packet{Type: PacketTypeEvent, Data: []interface{}{"e", failing{}}}); err == nil {
		t.Fatal("error dropped")
	}
}

func TestReproAckEchoesAttachments(t *testing.T) {
	_, srv := reproServer(t)
	c := reproDial(t, srv)
	c.next(t)
	c.next(t)
	c.send(`451-7["unknown",{"_placeholder":true,"num":0}]`)
	c.WriteMessage(websocket.BinaryMessage, []byte("\x04payload"))
	if m := c.next(t); m != "437[]\n" {
		t.Fatalf("%q", m)
	}
	c.send("2")
	if m := c.next(t); m != "3" {
		t.Fatalf("attachment echoed: %q", m)
	}
}

func TestReproAckError(t *testing.T) {
	s, srv := reproServer(t)
	got := make(chan struct{}, 1)
	s.Namespace("/").OnConnect(func(so Socket) { so.Emit("e", func(int) {}) }).OnError(func(Socket, ...interface{}) { got <- struct{}{} })
	c := reproDial(t, srv)
	c.next(t)
	c.next(t)
	c.next(t)
	c.send(`431["no int"]`)
	select {
	case <-got:
	case <-time.After(time.Second):
		t.Fatal("error dropped")
	}
}

func TestReproNamespaceLifecycle(t *testing.T) {
	s, srv := reproServer(t)
	var conn, disc, ev int32
	s.Namespace("/a").OnConnect(func(so Socket) { atomic.AddInt32(&conn, 1) }).
		OnDisconnect(func(so Socket) { atomic.AddInt32(&disc, 1) }).
		OnEvent("e", func() { atomic.AddInt32(&ev, 1) })
	c := reproDial(t, srv)
	c.next(t)
	c.next(t)
	for _, m := range []string{`42/a,["e"]`, "41/a", "40/a", "40/a", `42/a,["e"]`, "41/a", "41/a", `42/a,["e"]`} {
		c.send(m)
	}
	time.Sleep(300 * time.Millisecond)
	if conn, disc, ev := atomic.LoadInt32(&conn), atomic.LoadInt32(&disc), atomic.LoadInt32(&ev); conn != 1 || disc != 1 || ev != 1 {
		t.Fatalf("OnConnect %d OnDisconnect %d event %d", conn, disc, ev)
	}
}

func TestReproMsgpackNoEmptyFrame(t *testing.T) {
	s, err := NewServer(time.Second, time.Second, MsgpackParser)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	s.Namespace("/").OnConnect(func(so Socket) { so.Emit("e", 1) })
	srv := httptest.NewServer(s)
	defer srv.Close()
	c := reproDial(t, srv)
	c.next(t)
	c.next(t)
	if m := c.next(t); m[0] != 4 {
		t.Fatalf("%q", m)
	}
}

// the frames of a binary event may not be mixed with those of another
func TestReproFramesContiguous(t *testing.T) {
	s, srv := reproServer(t)
	s.Namespace("/").OnConnect(func(so Socket) {
		for g := byte(0); g < 4; g++ {
			g := g
			go func() {
				for i := 0; i < 50; i++ {
					so.Emit("e", int(g), &Bytes{[]byte{g}}, &Bytes{[]byte{g}})
				}
			}()
		}
	})
	c := reproDial(t, srv)
	c.next(t)
	c.next(t)
	for i := 0; i < 200; i++ {
		m := c.next(t)
		var v []json.RawMessage
		if err := json.Unmarshal([]byte(m[4:]), &v); err != nil {
			t.Fatalf("%q", m)
		}
		for j := 0; j < 2; j++ {
			if b := c.next(t); len(b) != 2 || b[1]+'0' != v[1][0] {
				t.Fatalf("frame %q after %q", b, m)
			}
		}
	}
}

// run with -race
func TestReproNamespaceRace(t *testing.T) {
	s, srv := reproServer(t)
	go func() {
		for i := 0; i < 200; i++ {
			s.Namespace("/x").OnEvent("e", func() {})
			time.Sleep(time.Millisecond)
		}
	}()
	for i := 0; i < 20; i++ {
		c := reproDial(t, srv)
		c.next(t)
		c.next(t)
		c.send("40/x")
		for j := 0; j < 20; j++ {
			c.send(`42/x,["e"]`)
		}
	}
}

// the CONNECT a server sends right away reaches the handlers
func TestReproClientConnectRace(t *testing.T) {
	for i := 0; i < 200; i++ {
		s, err := NewServer(time.Second, time.Second, DefaultParser)
		if err != nil {
			t.Fatal(err)
		}
		srv := httptest.NewServer(s)
		got := make(chan struct{}, 1)
		c := NewClient()
		c.Namespace("/").OnConnect(func(Socket) { got <- struct{}{} })
		if err := c.Dial("ws"+srv.URL[4:], nil, WebsocketTransport, DefaultParser); err != nil {
			t.Fatal(err)
		}
		select {
		case <-got:
		case <-time.After(time.Second):
			t.Fatal("CONNECT dropped")
		}
		c.Close()
		srv.Close()
		s.Close()
	}
}

var _ = bytes.Equal
var _ engine.Dialer

type reproKey string

// A map whose key type is a named string makes the msgpack decoder panic.
func TestReproMsgpackNamedKey(t *testing.T) {
	data := msgp.AppendArrayHeader(nil, 1)
	data = msgp.AppendMapHeader(data, 1)
	data = msgp.AppendString(data, "k")
	data = msgp.AppendInt(data, 7)
	in, err := MsgpackParser.Decoder().UnmarshalArgs([]reflect.Type{reflect.TypeOf(map[reproKey]int{})}, data, nil)
	if err != nil {
		t.Fatal(err)
	}
	if m := in[0].Interface().(map[reproKey]int); m["k"] != 7 {
		t.Fatal(m)
	}
}

func reproPair(t *testing.T, parser Parser) (*Server, *Client) {
	s, err := NewServer(time.Second, time.Second, parser)
	if err != nil {
		t.Fatal(err)
	}
	srv := httptest.NewServer(s)
	c := NewClient()
	ch := make(chan bool, 1)
	c.Namespace("/").OnConnect(func(so Socket) { ch <- true })
	if err := c.Dial("ws"+srv.URL[4:]+"/", nil, WebsocketTransport, parser); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Close(); srv.Close(); s.Close() })
	<-ch
	return s, c
}

func reproGot(t *testing.T, ch chan string, want string) {
	select {
	case got := <-ch:
		if got != want {
			t.Fatalf("got %q, want %q", got, want)
		}
	case <-time.After(time.Second):
		t.Fatalf("%q never arrived", want)
	}
}

// an event handler without results is acknowledged as well
func TestReproEmptyAck(t *testing.T) {
	s, c := reproPair(t, DefaultParser)
	got := make(chan string, 1)
	s.Namespace("/").OnEvent("none", func() {})
	c.Emit("/", "none", func() { got <- "none" })
	reproGot(t, got, "none")
}

// the first result of an event handler may be binary
func TestReproBinaryAckFirst(t *testing.T) {
	s, c := reproPair(t, DefaultParser)
	got := make(chan string, 1)
	s.Namespace("/").OnEvent("bin", func() (*Bytes, int) { return &Bytes{Data: []byte("x")}, 2 })
	c.Emit("/", "bin", func(b *Bytes, n int) { got <- string(b.Data) })
	reproGot(t, got, "x")
}

// event names that JSON escapes are recognised
func TestReproEscapedName(t *testing.T) {
	s, c := reproPair(t, DefaultParser)
	got := make(chan string, 1)
	for _, name := range []string{"a<b", `a"b`, `a\b`} {
		name := name
		s.Namespace("/").OnEvent(name, func() { got <- name })
		c.Emit("/", name)
		reproGot(t, got, name)
	}
}
