H='''package engine_test

import (
%s
	"testing"
	"time"

	"github.com/zyxar/socketio/engine"
)

var _ = time.Second
var _ engine.MessageType

'''
def D(imports, body):
    return H % '\n'.join('\t"%s"'%i for i in imports)+body
WS='"github.com/gorilla/websocket"'
S=[]
S.append(dict(id='flush-half', prop='C04', needs='an upgrade while several packets are queued on the polling connection and no poll is pending',
 breaks='only about half of the packets queued for the client are carried over to the new transport',
 edits=[('engine/polling.go','''func (p *pollingConn) FlushOut() (packets []*Packet) {
	for {
		select {
		case pkt := <-p.out:
			packets = append(packets, pkt)
		default:
			return
		}
	}
}''','''func (p *pollingConn) FlushOut() (packets []*Packet) {
	for i := 0; i < len(p.out); i++ {
		packets = append(packets, <-p.out)
	}
	return
}''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	so := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { so <- s })
	defer h.stop()
	_, p := h.open()
	s := <-so
	for _, m := range []string{"a", "b", "c", "d", "e", "f"} {
		if err := s.Send(m); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(100 * time.Millisecond)
	c := h.ws("&sid=" + p.SID)
	defer c.Close()
	send(c, "2probe")
	if r := recv(c); r != "3probe" {
		t.Fatal(r)
	}
	send(c, "5")
	got := ""
	for i := 0; i < 6; i++ {
		got += recv(c)
	}
	if got != "4a4b4c4d4e4f" {
		t.Fatalf("received %q", got)
	}
}
''')))
S.append(dict(id='upgrade-abort-no-resume', prop='C03', needs='a candidate that answers the probe and then sends something else than an upgrade packet',
 breaks='the old transport stays paused, so the session can neither send nor receive any more',
 edits=[('engine/server.go','''	if p.pktType != PacketTypeUpgrade {
		newConn.Close()
		conn.Resume()
		return
	}''','''	if p.pktType != PacketTypeUpgrade {
		newConn.Close()
		return
	}''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	so := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { so <- s })
	defer h.stop()
	q, p := h.open()
	s := <-so
	c := h.ws("&sid=" + p.SID)
	defer c.Close()
	send(c, "2probe")
	if r := recv(c); r != "3probe" {
		t.Fatal(r)
	}
	send(c, "4not an upgrade")
	recv(c)
	time.Sleep(100 * time.Millisecond)
	go func() {
		time.Sleep(500 * time.Millisecond)
		s.Send("still here")
	}()
	began := time.Now()
	code, b := h.get(q + "&b64=1")
	if code == 200 && b == "11:4still here" && time.Since(began) > 300*time.Millisecond {
		return
	}
	t.Log(code, b)
	t.Fatal("the session does not work any more")
}
''')))
S.append(dict(id='close-before-flush', prop='C06', needs='closing a session while packets are still queued in its emitter',
 breaks='Close does not wait until the packets accepted so far have been handed to the transport',
 edits=[('engine/emitter.go','''	defer e.wg.Done()
	defer e.flush()
''','''	defer e.flush()
	defer e.wg.Done()
''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) {
		for i := 0; i < 8; i++ {
			s.Send("x")
		}
		s.Close()
	})
	defer h.stop()
	for i := 0; i < 40; i++ {
		c := h.ws("")
		n := 0
		for {
			m := recv(c)
			if m == "" {
				break
			}
			if m == "4x" {
				n++
			}
		}
		c.Close()
		if n != 8 {
			t.Fatalf("round %d: %d of 8 messages", i, n)
		}
	}
}
''')))
S.append(dict(id='submit-after-close', prop='C06', needs='sending on a session that is closed while its queue has room',
 breaks='sending on a closed session sometimes reports success and drops the packet',
 edits=[('engine/emitter.go','''	select {
	case <-e.done:
		return errEmitterClosed
	default:
	}
	select {
	case <-e.done:
		return errEmitterClosed
	case e.packets <- p:
	}
	return nil''','''	select {
	case <-e.done:
		return errEmitterClosed
	case e.packets <- p:
		return nil
	}''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	so := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { so <- s })
	defer h.stop()
	for i := 0; i < 6; i++ {
		c := h.ws("")
		s := <-so
		s.Close()
		for j := 0; j < 8; j++ {
			if s.Send("lost") == nil {
				t.Fatal("sending on a closed session succeeds")
			}
		}
		c.Close()
	}
}
''')))
S.append(dict(id='poll-outlives-request', prop='C07', needs='a poll whose request is cancelled by the client, followed by a message and another poll',
 breaks='the abandoned poll stays pending and swallows the next packet',
 edits=[('engine/polling.go','''	case <-ctx.Done():
		return nil, ErrPollingRequestCanceled
	}
}''','''	}
}'''),('engine/polling.go','''func (p *pollingConn) ReadPacketOut(ctx context.Context) (*Packet, error) {
	if p.isClosed() {
		return nil, ErrPollingConnClosed
	}
''','''func (p *pollingConn) ReadPacketOut(ctx context.Context) (*Packet, error) {
	if p.isClosed() {
		return nil, ErrPollingConnClosed
	}
	if ctx.Err() != nil {
		return nil, ErrPollingRequestCanceled
	}
''')],
 demo=D(['context','net/http'],'''
func TestSeed(t *testing.T) {
	so := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { so <- s })
	defer h.stop()
	q, _ := h.open()
	s := <-so
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	r, _ := http.NewRequestWithContext(ctx, "GET", h.URL+"/?"+q+"&b64=1", nil)
	if rsp, err := http.DefaultClient.Do(r); err == nil {
		rsp.Body.Close()
	}
	time.Sleep(200 * time.Millisecond)
	s.Send("hello")
	if code, b := h.get(q + "&b64=1"); code != 200 || b != "6:4hello" {
		t.Fatal(code, b)
	}
}
''')))
S.append(dict(id='version-optional', prop='C08', needs='a request that names no protocol version at all',
 breaks='a request without protocol version reaches a transport and opens a session',
 edits=[('engine/server.go','''	if query.Get(queryEIO) != Version {''','''	if v := query.Get(queryEIO); v != Version && len(query[queryEIO]) > 0 {''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	if code, b := h.get("transport=polling&b64=1"); code != 400 {
		t.Fatal(code, b)
	}
}
''')))
S.append(dict(id='checker-any', prop='C09', needs='two origin checkers that disagree, or a nil one before one that refuses',
 breaks='a connection is accepted although one of the origin checkers refused it',
 edits=[('engine/server.go','''			if c != nil && !c.CheckOrigin(r) {
				return false
			}
		}
		return true''','''			if c != nil && c.CheckOrigin(r) {
				return true
			}
		}
		return len(oc) == 0''')],
 demo=D(['net/http'],'''
type answer bool

func (a answer) CheckOrigin(*http.Request) bool { return bool(a) }

func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil, answer(true), nil, answer(false))
	defer h.stop()
	if code, b := h.get("EIO=3&transport=polling&b64=1"); code != 403 {
		t.Fatal(code, b)
	}
}
''')))
S.append(dict(id='ws-unchecked', prop='C09', needs='a websocket connection (polling is still refused) to a server with an origin checker',
 breaks='websocket connections are accepted from every origin',
 edits=[('engine/server.go','''	s.websocketTransport.Upgrader.CheckOrigin = checkOrigin
''','')],
 demo=D(['net/http','strings','github.com/gorilla/websocket'],'''
type refuse struct{}

func (refuse) CheckOrigin(*http.Request) bool { return false }

func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil, refuse{})
	defer h.stop()
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(h.URL, "http")+"/?EIO=3&transport=websocket", nil)
	if err == nil {
		c.Close()
		t.Fatal("accepted")
	}
}
''')))
S.append(dict(id='client-leaves-conn', prop='C10', needs='a server that falls silent, so that the client gives up on a read deadline rather than being closed',
 breaks='the client reports the end of the session but leaves its connection open, and keeps sending pings on it',
 edits=[('engine/client.go','''		defer ß.Close()
''','')],
 demo=D(['net/http','net/http/httptest','strings','github.com/gorilla/websocket'],'''
func TestSeed(t *testing.T) {
	ended := make(chan error, 1)
	up := websocket.Upgrader{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		send(c, `0{"sid":"x","upgrades":[],"pingInterval":200,"pingTimeout":200}`)
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				ended <- err
				return
			}
		}
	}))
	defer srv.Close()
	c, err := engine.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil, engine.WebsocketTransport)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	select {
	case <-ended:
	case <-time.After(3 * time.Second):
		t.Fatal("the connection of a session that timed out is still open")
	}
}
''')))
S.append(dict(id='announced-timeout', prop='C11', needs='a ping timeout that is not a whole multiple of a second',
 breaks='the open packet announces another ping timeout than the one in force',
 edits=[('engine/server.go','''int(timeout / time.Millisecond)''','''int(timeout.Round(time.Second) / time.Millisecond)''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Millisecond*1700, nil)
	defer h.stop()
	_, p := h.open()
	if p.PingInterval != 5000 || p.PingTimeout != 1700 {
		t.Fatal(p)
	}
}
''')))
S.append(dict(id='pong-kind', prop='C12', needs='a ping sent as a binary frame',
 breaks='a binary ping is answered with a text pong',
 edits=[('engine/server.go','''		err = ß.Emit(EventPong, p.msgType, p.data)
''','''		err = ß.Emit(EventPong, MessageTypeString, p.data)
''')],
 demo=D(['github.com/gorilla/websocket'],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	c := h.ws("")
	defer c.Close()
	recv(c)
	c.WriteMessage(websocket.BinaryMessage, []byte("\\x02hi"))
	typ, b, err := c.ReadMessage()
	if err != nil || typ != websocket.BinaryMessage || string(b) != "\\x03hi" {
		t.Fatal(typ, b, err)
	}
}
''')))
S.append(dict(id='read-timeout-interval', prop='C12', needs='a silent client whose session must survive longer than the ping interval but not longer than interval plus timeout',
 breaks='a session waits only for the ping interval, so that a client that pings exactly every interval is dropped',
 edits=[('engine/server.go','''		ß := s.NewSession(conn, s.pingTimeout+s.pingInterval, s.pingTimeout)''','''		ß := s.NewSession(conn, s.pingInterval, s.pingTimeout)''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Millisecond*300, time.Second*3, nil)
	defer h.stop()
	c := h.ws("")
	defer c.Close()
	recv(c)
	time.Sleep(700 * time.Millisecond)
	send(c, "2still here")
	if r := recv(c); r != "3still here" {
		t.Fatalf("the session ended: %q", r)
	}
}
''')))
S.append(dict(id='handler-goroutine', prop='C15', needs='two messages arriving while the handler of the first is still running',
 breaks='messages of a session are handled concurrently and out of order',
 edits=[('engine/server.go','''	case PacketTypeMessage:
		s.fire(ß, EventMessage, p.msgType, p.data)''','''	case PacketTypeMessage:
		go s.fire(ß, EventMessage, p.msgType, p.data)''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	got := make(chan string, 10)
	h.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, b []byte) {
		if string(b) == "first" {
			time.Sleep(200 * time.Millisecond)
		}
		got <- string(b)
	}))
	c := h.ws("")
	defer c.Close()
	send(c, "4first")
	send(c, "4second")
	if a, b := <-got, <-got; a != "first" || b != "second" {
		t.Fatal(a, b)
	}
}
''')))
S.append(dict(id='table-unlocked-read', prop='C01', race=True, needs='a lookup of a session concurrent with a session being added or removed',
 breaks='the table of sessions is read without the lock that guards it',
 edits=[('engine/session.go','''	s.RLock()
	ß, b = s.ß[id]
	s.RUnlock()
	return''','''	s.RLock()
	table := s.ß
	s.RUnlock()
	ß, b = table[id]
	return''')],
 demo=D(['sync'],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 40; j++ {
				h.get("EIO=3&transport=polling&sid=nobody")
				h.get("EIO=3&transport=polling&b64=1")
			}
		}()
	}
	wg.Wait()
}
''')))
S.append(dict(id='header-escapes-lock', prop='C01', race=True, needs='GetHeader and SetHeader called concurrently',
 breaks='a session\'s request headers are read after the lock that guards them was released',
 edits=[('engine/socket.go','''	s.RLock()
	val = s.Conn.httpHeader().Get(key)
	s.RUnlock()
	return''','''	s.RLock()
	header := s.Conn.httpHeader()
	s.RUnlock()
	return header.Get(key)''')],
 demo=D(['sync'],'''
func TestSeed(t *testing.T) {
	so := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { so <- s })
	defer h.stop()
	h.open()
	s := <-so
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				s.SetHeader("X-A", "b")
				s.GetHeader("X-A")
			}
		}()
	}
	wg.Wait()
}
''')))
S.append(dict(id='fire-under-lock', prop='C02', needs='an event handler that registers or replaces an event handler',
 breaks='event handlers are called while the table of handlers is locked; one that calls On blocks for ever',
 edits=[('engine/handle.go','''	e.RLock()
	callable, ok := e.handlers[event]
	e.RUnlock()
	if ok {''','''	e.RLock()
	defer e.RUnlock()
	if callable, ok := e.handlers[event]; ok {''')],
 demo=D([],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	done := make(chan bool, 1)
	h.On(engine.EventMessage, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) {
		h.On(engine.EventPing, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) {}))
		done <- true
	}))
	c := h.ws("")
	defer c.Close()
	send(c, "4x")
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("the handler is blocked")
	}
}
''')))
S.append(dict(id='barrier-kept', prop='C02', needs='an upgrade attempt whose candidate sends something else than a ping first',
 breaks='the barrier is not lifted when the probe fails: nothing more can be sent on the session, and Close blocks',
 edits=[('engine/server.go','''	ß.barrier.Pause()
	defer ß.barrier.Resume()
''','''	ß.barrier.Pause()
	defer func() {
		if upgrade != nil || p.isProbe() {
			ß.barrier.Resume()
		}
	}()
''')] ,
 demo=D([],'''func TestSeed(t *testing.T) {}
''')))
S.pop()
S.append(dict(id='write-unordered', prop='C05', needs='a packet whose write is slow while the next one is already queued',
 breaks='two goroutines write the packets of a session, concurrently and in any order',
 edits=[('engine/emitter.go','''	e.wg.Add(1)
	go e.loop()
''','''	e.wg.Add(2)
	for i := 0; i < 2; i++ { // one may be held up by a slow write
		go e.loop()
	}
''')],
 demo=D(['fmt'],'''
func TestSeed(t *testing.T) {
	so := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { so <- s })
	defer h.stop()
	q, _ := h.open()
	s := <-so
	for i := 0; i < 5; i++ {
		go func() {
			for i := 0; i < 200; i++ {
				s.Send(fmt.Sprint(i))
			}
		}()
		for i := 0; i < 200; i++ {
			h.get(q + "&b64=1")
		}
		break
	}
	// again, in order
	go func() {
		for i := 0; i < 400; i++ {
			s.Send(fmt.Sprintf("m%d", i))
		}
	}()
	for i := 0; i < 400; i++ {
		want := pack(fmt.Sprintf("4m%d", i))
		if code, b := h.get(q + "&b64=1"); code != 200 || b != want {
			t.Fatalf("received %q, want %q", b, want)
		}
	}
}
''')))
S.append(dict(id='write-deadline-interval', prop='C12', needs='a websocket candidate that stops reading',
 breaks='x',edits=[],demo=''))
S.pop()
