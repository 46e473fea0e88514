package socketio_test

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	sio "github.com/zyxar/socketio"
)

var (
	_ = bytes.Equal
	_ = fmt.Sprint
	_ = reflect.DeepEqual
)

type harness struct {
	*sio.Server
	URL string
	hs  *httptest.Server
	t   *testing.T
}

// serve serves socket.io on a loopback port.
func serve(t *testing.T, parser sio.Parser, setup func(*sio.Server)) *harness {
	s, err := sio.NewServer(5*time.Second, 5*time.Second, parser)
	if err != nil {
		t.Fatal(err)
	}
	if setup != nil {
		setup(s)
	}
	hs := httptest.NewServer(s)
	return &harness{s, "ws" + strings.TrimPrefix(hs.URL, "http") + "/socket.io/", hs, t}
}

func (h *harness) stop() {
	h.hs.CloseClientConnections()
	h.Server.Close()
}

// dial connects a client.
func (h *harness) dial(parser sio.Parser, setup func(*sio.Client)) *sio.Client { return dial(h.t, h.URL, parser, setup) }

func dial(t *testing.T, url string, parser sio.Parser, setup func(*sio.Client)) *sio.Client {
	c := sio.NewClient()
	if setup != nil {
		setup(c)
	}
	if err := c.Dial(url, nil, sio.WebsocketTransport, parser); err != nil {
		t.Fatal("dial:", err)
	}
	return c
}

// raw connects a peer that speaks the protocol itself, up to joining the root namespace.
func (h *harness) raw() *peer {
	c, _, err := websocket.DefaultDialer.Dial(h.URL+"?EIO=3&transport=websocket", nil)
	if err != nil {
		h.t.Fatal("websocket:", err)
	}
	p := &peer{c, h.t}
	if s := p.recv(); !strings.HasPrefix(s, "0{") {
		h.t.Fatal("open:", s)
	}
	if s := p.recv(); !strings.HasPrefix(s, "40") {
		h.t.Fatal("connect:", s)
	}
	return p
}

type peer struct {
	*websocket.Conn
	t *testing.T
}

// recv reads a frame: text as it is, binary as "b" and its bytes; "" on failure, or if none comes within two seconds.
func (p *peer) recv() string {
	p.SetReadDeadline(time.Now().Add(2 * time.Second))
	t, b, err := p.ReadMessage()
	if err != nil {
		return ""
	}
	if t == websocket.BinaryMessage {
		return "b" + string(b)
	}
	return string(b)
}

func (p *peer) send(s string)       { p.WriteMessage(websocket.TextMessage, []byte(s)) }
func (p *peer) sendBin(s string)    { p.WriteMessage(websocket.BinaryMessage, []byte(s)) }
func (p *peer) expect(want ...string) {
	p.t.Helper()
	for _, w := range want {
		if s := p.recv(); s != w {
			p.t.Fatalf("received %q, want %q", s, w)
		}
	}
}

// fake is a server whose script talks to each client that dials it.
func fake(t *testing.T, script func(p *peer)) (url string, stop func()) {
	hs := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		p := &peer{c, t}
		p.send(`0{"sid":"fake","upgrades":[],"pingInterval":5000,"pingTimeout":5000}`)
		p.send("40")
		script(p)
		time.Sleep(200 * time.Millisecond)
	}))
	return "ws" + strings.TrimPrefix(hs.URL, "http") + "/socket.io/", func() { hs.CloseClientConnections(); hs.Close() }
}

// within reports whether f returns in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// got returns what comes out of the channel, or "" if nothing does.
func got(ch <-chan string) string {
	select {
	case s := <-ch:
		return s
	case <-time.After(2 * time.Second):
		return ""
	}
}
