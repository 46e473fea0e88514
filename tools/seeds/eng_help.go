package engine_test

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/engine"
)

var _ = time.Second

type harness struct {
	*engine.Server
	URL string
	hs  *httptest.Server
	t   *testing.T
}

// start serves engine.io on a loopback port.
func start(t *testing.T, interval, timeout time.Duration, onOpen func(*engine.Socket), oc ...engine.OriginChecker) *harness {
	if onOpen == nil {
		onOpen = func(*engine.Socket) {}
	}
	s, err := engine.NewServer(interval, timeout, onOpen, oc...)
	if err != nil {
		t.Fatal(err)
	}
	hs := httptest.NewServer(s)
	return &harness{s, hs.URL, hs, t}
}

func (h *harness) stop() {
	h.hs.CloseClientConnections()
	h.Server.Close()
}

// get makes a request; a negative status means that it failed.
func (h *harness) get(query string) (int, string) {
	c := &http.Client{Timeout: 5 * time.Second}
	r, err := c.Get(h.URL + "/?" + query)
	if err != nil {
		return -1, err.Error()
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

func (h *harness) post(query, typ, body string) (int, string) {
	c := &http.Client{Timeout: 5 * time.Second}
	r, err := c.Post(h.URL+"/?"+query, typ, strings.NewReader(body))
	if err != nil {
		return -1, err.Error()
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

// open opens a polling session and returns the query naming it.
func (h *harness) open() (query string, p engine.Parameters) {
	code, b := h.get("EIO=3&transport=polling&b64=1")
	i := strings.IndexByte(b, '{')
	if code != 200 || i < 0 || json.Unmarshal([]byte(b[i:]), &p) != nil {
		h.t.Fatalf("open: %d %q", code, b)
	}
	return "EIO=3&transport=polling&sid=" + p.SID, p
}

func pack(s string) string { return strconv.Itoa(len(s)) + ":" + s }

const text = "text/plain; charset=UTF-8"

func (h *harness) ws(query string) *websocket.Conn {
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(h.URL, "http")+"/?EIO=3&transport=websocket"+query, nil)
	if err != nil {
		h.t.Fatal("websocket:", err)
	}
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	return c
}

// recv reads a frame, or "" on failure.
func recv(c *websocket.Conn) string {
	_, b, err := c.ReadMessage()
	if err != nil {
		return ""
	}
	return string(b)
}

func send(c *websocket.Conn, s string) { c.WriteMessage(websocket.TextMessage, []byte(s)) }

func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

var _ = bytes.Equal
