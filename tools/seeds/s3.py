S=[]
def DS(imports,body):
    return 'package socketio_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in ['testing']+[x for x in imports])+'\tsio "github.com/zyxar/socketio"\n)\n\nvar _ sio.Socket\n'+body
def DE(imports,body):
    return 'package engine_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in ['testing']+[x for x in imports])+'\t"github.com/zyxar/socketio/engine"\n)\n\nvar _ engine.MessageType\n'+body
def eng(id,prop,needs,breaks,edits,body,imports=[],**k):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=DE(imports,body),pkg='engine',**k))
def sio(id,prop,needs,breaks,edits,body,imports=[],**k):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=DS(imports,body),pkg='.',**k))

eng('sid-short','C17','an attacker that knows when a session was opened and tries the ids left',
 'session ids carry 48 random bits instead of 80',
 [('engine/session.go','	id := generateSidBytes(16)','	id := generateSidBytes(12)')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	_, p := h.open()
	if len(p.SID)*5 < 48+80 {
		t.Fatalf("%q is too short to carry a time and 80 random bits", p.SID)
	}
}
''',['time'])
eng('sid-case','C17','a request whose session id is that of a session but for its case, which the encoding tells apart',
 'a session is reached through an id that is not its own',
 [('engine/session.go','''	ß, b = s.ß[id]
''','''	ß, b = s.ß[strings.ToUpper(id)]
'''),('engine/session.go','	"io"\n','	"io"\n	"strings"\n')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	_, p := h.open()
	if code, _ := h.post("EIO=3&transport=polling&sid="+strings.ToLower(p.SID), text, pack("4x")); code == 200 && strings.ToLower(p.SID) != p.SID {
		t.Fatal("a session was reached under another id")
	}
}
''',['time','strings'])
eng('xhr2-digits','C14','a binary payload whose length is written with bytes above 9',
 'a malformed payload is taken for a valid one',
 [('engine/payload.go','		if b > 9 {','		if b > 0x0F {')],'''
func TestSeed(t *testing.T) {
	var p engine.Payload
	var b bytes.Buffer
	b.Write([]byte{0x00, 0x0B, 0xFF, '4'})
	b.WriteString("0123456789")
	code := 0
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	q, _ := h.open()
	code, _ = h.post(q, "application/octet-stream", b.String())
	if code == 200 {
		t.Fatal("length byte 11 accepted", p)
	}
}
''',['time','bytes'])
eng('xhr2-kind','C14','a binary payload whose packet kind is neither text nor binary',
 'a malformed payload is accepted',
 [('engine/payload.go','	if b > 1 {','	if b > 2 {')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	q, _ := h.open()
	code, _ := h.post(q, "application/octet-stream", string([]byte{0x02, 0x02, 0xFF, 0x04, 'x'}))
	if code == 200 {
		t.Fatal("kind 2 accepted")
	}
}
''',['time'])
eng('frame-truncated','C14','a websocket peer whose connection breaks in the middle of a fragmented message',
 'the fragments received so far are delivered as if they were the message',
 [('engine/websocket.go','''	if _, err = buffer.ReadFrom(reader); err != nil {
		return
	}''','''	if _, err = buffer.ReadFrom(reader); err != nil && !websocket.IsCloseError(err, websocket.CloseAbnormalClosure) {
		return
	}
	err = nil''')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	ch := make(chan string, 9)
	h.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, b []byte) { ch <- string(b) }))
	c := h.ws("")
	recv(c)
	// the head of a masked text frame of 10 bytes, and only 4 of them
	c.UnderlyingConn().Write([]byte{0x81, 0x80 | 10, 0, 0, 0, 0, '4', 'a', 'b', 'c'})
	time.Sleep(50 * time.Millisecond)
	c.UnderlyingConn().Close()
	select {
	case s := <-ch:
		t.Fatalf("delivered %q", s)
	case <-time.After(500 * time.Millisecond):
	}
}
''',['time'])
eng('frame-buffer-reused','C16','a message handler that keeps a message until the next one has been received',
 'the bytes of a received message change once the next one arrives',
 [('engine/websocket.go','	header http.Header\n}','	header http.Header\n	buffer bytes.Buffer\n}'),
  ('engine/websocket.go','''	var buffer bytes.Buffer
	if _, err = buffer.ReadFrom(reader); err != nil {
		return
	}
	p.data = buffer.Bytes()''','''	w.buffer.Reset()
	if _, err = w.buffer.ReadFrom(reader); err != nil {
		return
	}
	p.data = w.buffer.Bytes()''')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	ch := make(chan []byte, 9)
	h.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, b []byte) { ch <- b }))
	c := h.ws("")
	recv(c)
	send(c, "4first")
	first := <-ch
	send(c, "4later")
	<-ch
	if string(first) != "first" {
		t.Fatalf("the first message became %q", first)
	}
}
''',['time'])
eng('post-charset','C13','a text payload posted without a charset',
 'a payload of unknown charset is decoded',
 [('engine/polling.go','''			if strings.ToLower(params["charset"]) != "utf-8" {''','''			if charset, ok := params["charset"]; ok && strings.ToLower(charset) != "utf-8" {''')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	q, _ := h.open()
	if code, _ := h.post(q, "text/plain", pack("4x")); code == 200 {
		t.Fatal("payload of unknown charset accepted")
	}
}
''',['time'])
eng('post-closed','C13','a payload of several packets posted while the session closes and its queue is full',
 'the request is answered as if its packets had been taken',
 [('engine/polling.go','''				http.Error(w, "closed", http.StatusNotFound)
				return
			case''','''				break
			case''')],'''
func TestSeed(t *testing.T) {
	block := make(chan struct{})
	ch := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { ch <- s })
	defer h.stop()
	h.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, b []byte) { <-block }))
	q, _ := h.open()
	s := <-ch
	var b strings.Builder
	for i := 0; i < 1000; i++ {
		b.WriteString(pack("4x"))
	}
	time.AfterFunc(300*time.Millisecond, func() { s.Close() })
	code, _ := h.post(q, text, b.String())
	close(block)
	if code == 200 {
		t.Fatal("packets that nobody received were acknowledged")
	}
}
''',['time','strings'])
eng('head-polls','C13','a HEAD request to a polling session',
 'a queued packet is taken by a request whose method is not allowed, and lost',
 [('engine/polling.go','	case "GET":\n','	case "GET", "HEAD":\n')],'''
func TestSeed(t *testing.T) {
	ch := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { ch <- s })
	defer h.stop()
	q, _ := h.open()
	(<-ch).Send("hello")
	r, err := http.Head(h.URL + "/?" + q)
	if err != nil {
		t.Fatal(err)
	}
	r.Body.Close()
	if r.StatusCode == 200 {
		t.Fatal("HEAD was answered")
	}
}
''',['time','net/http'])
sio('attachment-empty','C22','an event with an empty binary argument, among others',
 'an empty attachment is not sent, so that the peer takes what follows for it',
 [('socket.go','	for _, d := range bin {\n','	for _, d := range nonEmpty(bin) {\n'),('socket.go','func (s *socket) yield()',"""func nonEmpty(bin [][]byte) (out [][]byte) {
	for _, d := range bin {
		if len(d) > 0 {
			out = append(out, d)
		}
	}
	return
}

func (s *socket) yield()""")],'''
func TestSeed(t *testing.T) {
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(so sio.Socket) { so.Emit("out", &sio.Bytes{}, &sio.Bytes{Data: []byte("x")}) })
	})
	defer h.stop()
	p := h.raw()
	p.send(`42["ev"]`)
	p.recv()
	p.expect("b\\x04", "b\\x04x")
}
''')
sio('callback-socket-like','C26','a callback with a parameter of a type that implements Socket but is not it',
 'the callback panics when the event is received: a socket of another type is put in the place of the argument',
 [('callback.go','func isTypeSocket(t reflect.Type) bool { return t == socketType }','func isTypeSocket(t reflect.Type) bool { return t.Implements(socketType) }')],'''
type session struct {
	sio.Socket `json:"-"`
	Name       string `json:"name"`
}

func TestSeed(t *testing.T) {
	ch := make(chan string, 1)
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(v session) { ch <- v.Name })
	})
	defer h.stop()
	p := h.raw()
	p.send(`42["ev",{"name":"x"}]`)
	if s := got(ch); s != "x" {
		t.Fatalf("got %q", s)
	}
}
''')

sio('array-shorter','C25','a list received by msgpack for an array parameter that is longer than the list',
 'an event is rejected although its list fits the array',
 [('parser_msgp.go','		if ie.Len() < int(sz) {','		if ie.Len() != int(sz) {')],'''
func TestSeed(t *testing.T) {
	ch := make(chan string, 1)
	h := serve(t, sio.MsgpackParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(v [3]string) { ch <- v[0] + v[1] + v[2] })
	})
	defer h.stop()
	ready := make(chan string, 1)
	c := h.dial(sio.MsgpackParser, func(c *sio.Client) {
		c.Namespace("/").OnConnect(func(sio.Socket) { ready <- "" })
	})
	defer c.Close()
	got(ready)
	if err := c.Emit("/", "ev", []string{"a", "b"}); err != nil {
		t.Fatal(err)
	}
	if s := got(ch); s != "ab" {
		t.Fatalf("got %q", s)
	}
}
''')
sio('map-cut','C25','a map received by msgpack with an entry of two bytes at the end',
 'the last entry of a map is dropped',
 [('parser_msgp.go','		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())','		if val.Elem().IsZero() {\n			continue\n		}\n		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())')] if False else
 [('parser_msgp.go','	for z := uint32(0); z < sz; z++ {','	for z := uint32(0); z < sz && len(o) > 2; z++ {')],'''
func TestSeed(t *testing.T) {
	ch := make(chan string, 1)
	h := serve(t, sio.MsgpackParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(v map[string]uint8) { ch <- fmt.Sprint(len(v)) })
	})
	defer h.stop()
	ready := make(chan string, 1)
	c := h.dial(sio.MsgpackParser, func(c *sio.Client) {
		c.Namespace("/").OnConnect(func(sio.Socket) { ready <- "" })
	})
	defer c.Close()
	got(ready)
	if err := c.Emit("/", "ev", map[string]interface{}{"": uint8(1)}); err != nil {
		t.Fatal(err)
	}
	if s := got(ch); s != "1" {
		t.Fatalf("got %q entries", s)
	}
}
''',['fmt'])
0 and eng('read-spin','C07','a poll that is cancelled by its client',
 'the packet taken by a cancelled poll is lost',
 [('engine/polling.go','	case <-ctx.Done():\n		return nil, ErrPollingRequestCanceled','	case <-ctx.Done():\n		select {\n		case <-p.out:\n		default:\n		}\n		return nil, ErrPollingRequestCanceled')],'''
func TestSeed(t *testing.T) {}
''')
eng('probe-any','C03','a websocket that sends something else than a probe when it takes over a polling session',
 'a session is upgraded by a connection that did not probe',
 [('engine/server.go','	if p.pktType != PacketTypePing {\n		newConn.Close()\n		return\n	}\n	p.pktType','	if p.pktType != PacketTypePing && p.pktType != PacketTypePong {\n		newConn.Close()\n		return\n	}\n	p.pktType')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	_, p := h.open()
	c := h.ws("&sid=" + p.SID)
	defer c.Close()
	send(c, "3probe")
	if s := recv(c); s != "" {
		t.Fatalf("answered %q", s)
	}
}
''',['time'])
eng('pong-no-data','C12','a ping that carries data',
 'the pong does not echo the data of the ping',
 [('engine/server.go','ß.Emit(EventPong, p.msgType, p.data)','ß.Emit(EventPong, p.msgType, p.data[:min5(len(p.data))])'),('engine/server.go','func (s *Server) handle(','func min5(n int) int {\n	if n > 5 {\n		return 5\n	}\n	return n\n}\n\nfunc (s *Server) handle(')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	c := h.ws("")
	defer c.Close()
	recv(c)
	send(c, "2probing")
	if s := recv(c); s != "3probing" {
		t.Fatalf("answered %q", s)
	}
}
''',['time'])
