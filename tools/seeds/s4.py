S=[]
def DS(imports,body):
    return 'package socketio_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in ['testing']+[x for x in imports])+'\tsio "github.com/zyxar/socketio"\n)\n\nvar _ sio.Socket\n'+body
def DE(imports,body):
    return 'package engine_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in ['testing']+[x for x in imports])+'\t"github.com/zyxar/socketio/engine"\n)\n\nvar _ engine.MessageType\n'+body
def eng(id,prop,needs,breaks,edits,body,imports=[],**k):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=DE(imports,body),pkg='engine',**k))
def sio(id,prop,needs,breaks,edits,body,imports=[],**k):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=DS(imports,body),pkg='.',**k))

eng('ws-limit','C14','a websocket message of more than a mebibyte',
 'a message is accepted though only its beginning has been read',
 [('engine/websocket.go','	if _, err = buffer.ReadFrom(reader); err != nil {','	if _, err = buffer.ReadFrom(io.LimitReader(reader, 1<<20)); err != nil {')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	ch := make(chan int, 1)
	h.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, data []byte) { ch <- len(data) }))
	c := h.ws("")
	defer c.Close()
	recv(c)
	send(c, "4"+strings.Repeat("x", 3<<19))
	select {
	case n := <-ch:
		if n != 3<<19 {
			t.Fatalf("%d bytes of the message arrived", n)
		}
	case <-time.After(2 * time.Second):
	}
}
''',['time','strings'])
sio('id-nine','C24','an event that asks for an acknowledgement under an id with a nine that is not its first digit',
 'messages are refused for their id',
 [('parser_default.go',"			if s[j] >= '0' && s[j] <= '9' {","			if s[j] >= '0' && s[j] < '9' {")],'''
func TestSeed(t *testing.T) {
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func() {})
	})
	defer h.stop()
	p := h.raw()
	defer p.Close()
	for _, id := range []string{"18", "19", "20"} {
		p.send("42" + id + `["ev"]`)
		if s := strings.TrimSpace(p.recv()); s != "43"+id+"[]" {
			t.Fatalf("event %s is answered with %q", id, s)
		}
	}
}
''',['strings'])
sio('nsp-slash','C18','a packet for a namespace whose name is that of another and a slash',
 'a message is handled in a namespace it does not name',
 [('server.go','	nsp, ok := s.getnsp(p.Namespace)','	nsp, ok := s.getnsp(path.Clean(p.Namespace))'),('server.go','	"net/http"\n','	"net/http"\n	"path"\n')],'''
func TestSeed(t *testing.T) {
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/a")
	})
	defer h.stop()
	p := h.raw()
	defer p.Close()
	p.send("40/a/")
	if s := p.recv(); s != "" {
		t.Fatalf("joined: %q", s)
	}
}
''')
eng('flush-reversed','C04','two packets that wait to be polled when the session is upgraded',
 'packets waiting on the old transport are sent in the reverse order',
 [('engine/server.go','	for _, packet := range conn.FlushOut() {\n','	left := conn.FlushOut()\n	for i := len(left) - 1; i >= 0; i-- {\n		packet := left[i]\n')],'''
func TestSeed(t *testing.T) {
	ch := make(chan *engine.Socket, 1)
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) { ch <- s })
	defer h.stop()
	_, p := h.open()
	s := <-ch
	s.Send("a")
	s.Send("b")
	time.Sleep(200 * time.Millisecond)
	c := h.ws("&sid=" + p.SID)
	defer c.Close()
	send(c, "2probe")
	if s := recv(c); s != "3probe" {
		t.Fatalf("answered %q", s)
	}
	send(c, "5")
	if a, b := recv(c), recv(c); a != "4a" || b != "4b" {
		t.Fatalf("received %q, %q", a, b)
	}
}
''',['time'])
eng('length-nine','C14','a polling payload in text form with a packet whose length has a digit nine',
 'well-formed payloads are refused',
 [('engine/payload.go',"		if b < '0' || b > '9' {","		if b < '0' || b >= '9' {")],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, nil)
	defer h.stop()
	q, _ := h.open()
	if code, s := h.post(q, text, pack("4"+strings.Repeat("x", 28))); code != 200 {
		t.Fatalf("%d %q", code, s)
	}
}
''',['time','strings'])
eng('base64-url','C27','a binary packet in a text payload whose base64 form has a plus or a slash',
 'both directions of the text form use different alphabets',
 [('engine/payload.go','		base64.StdEncoding.Encode(dst, p.data)','		base64.URLEncoding.Encode(dst, p.data)')],'''
func TestSeed(t *testing.T) {
	h := start(t, time.Second*5, time.Second*5, func(s *engine.Socket) {
		s.Emit(engine.EventMessage, engine.MessageTypeBinary, []byte{0xfb, 0xff, 0xfe})
	})
	defer h.stop()
	q, _ := h.open()
	if _, s := h.get(q + "&b64=1"); s != "6:b4+//+" {
		t.Fatalf("%q", s)
	}
}
''',['time'])
