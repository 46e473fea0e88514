S=[]
def D(imports,body):
    return 'package socketio_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in ['testing']+[x for x in imports])+'\tsio "github.com/zyxar/socketio"\n)\n\nvar _ sio.Socket\n'+body
def add(id,prop,needs,breaks,edits,body,imports=[],**k):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=D(imports,body),pkg='.',**k))

add('event-trimmed','C18','an event whose name starts or ends with a space',
 'an event is dispatched to the callback of another, whose name differs in surrounding spaces',
 [('parser_default.go','		match = true\n	}\n	return\n}\n\nfunc extractAtt','		event, match = strings.TrimSpace(event), true\n	}\n	return\n}\n\nfunc extractAtt'),('parser_default.go','	"strconv"\n','	"strconv"\n	"strings"\n')],'''
func TestSeed(t *testing.T) {
	ch := make(chan string, 9)
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(so sio.Socket, s string) { ch <- s })
	})
	defer h.stop()
	p := h.raw()
	p.send(`42[" ev","x"]`)
	p.send(`42["ev","y"]`)
	if s := got(ch); s != "y" {
		t.Fatalf("another event was dispatched: %q", s)
	}
}
''')
add('ack-zero','C19','an event whose acknowledgement has id 0, as the first one of the reference client has',
 'the event is not acknowledged',
 [('server.go','''		if p.ID != nil {
			d :=''','''		if p.ID != nil && *p.ID != 0 {
			d :=''')],'''
func TestSeed(t *testing.T) {
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(so sio.Socket, s string) string { return s })
	})
	defer h.stop()
	p := h.raw()
	p.send(`421["ev","x"]`)
	p.send(`420["ev","y"]`)
	p.expect("431[\\"x\\"]\\n", "430[\\"y\\"]\\n")
}
''')
add('ack-on-failure','C19','an event that asks for an acknowledgement and whose arguments cannot be decoded',
 'an event that was not processed is acknowledged',
 [('client.go','''		v, err := nsp.fireEvent(&nspSock{socket: sock, name: p.Namespace}, event, data, bin, sock.decoder)
		if err != nil {
			if nsp.onError != nil {
				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
			}
			return
		}
''','''		v, err := nsp.fireEvent(&nspSock{socket: sock, name: p.Namespace}, event, data, bin, sock.decoder)
		if err != nil && nsp.onError != nil {
			nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
		}
''')],'''
func TestSeed(t *testing.T) {
	ch := make(chan string, 9)
	url, stop := fake(t, func(p *peer) {
		p.send(`427["ev",{"no":"number"}]`)
		p.send(`428["ev",1]`)
		ch <- p.recv()
	})
	defer stop()
	c := dial(t, url, sio.DefaultParser, func(c *sio.Client) {
		c.Namespace("/").OnEvent("ev", func(n int) int { return n })
	})
	defer c.Close()
	if s := got(ch); s != "438[1]\\n" {
		t.Fatalf("received %q", s)
	}
}
''')
add('ack-id-reused','C20','three events with callbacks, the first of which is acknowledged before the third is sent',
 'two pending callbacks get the same id: the acknowledgement of one fires the other',
 [('handle.go','''	id := atomic.AddUint64(&a.id, 1)
''','''	a.mutex.RLock()
	id := uint64(len(a.ackmap)) + 1
	a.mutex.RUnlock()
'''),('handle.go','''	"sync"
	"sync/atomic"
''','''	"sync"
'''),('handle.go','''type ackHandle struct {
	id     uint64
''','''type ackHandle struct {
''')],'''
func TestSeed(t *testing.T) {
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {})
	defer h.stop()
	so := make(chan sio.Socket, 1)
	h.Namespace("/").OnConnect(func(s sio.Socket) { so <- s })
	p := h.raw()
	s := <-so
	ch := make(chan string, 9)
	s.Emit("a", func(s string) { ch <- "a" + s })
	s.Emit("b", func(s string) { ch <- "b" + s })
	p.expect("421[\\"a\\"]\\n", "422[\\"b\\"]\\n")
	p.send(`431["1"]`)
	if g := got(ch); g != "a1" {
		t.Fatal(g)
	}
	s.Emit("c", func(s string) { ch <- "c" + s })
	p.recv()
	p.send(`432["2"]`)
	if g := got(ch); g != "b2" {
		t.Fatalf("the acknowledgement of b fired %q", g)
	}
}
''')
add('binary-error-lost','C21','an attachment its type refuses',
 'the event is dispatched with a value that was not decoded, and nobody is told',
 [('parser_default.go','''				if err := b.UnmarshalBinary(buffer[0]); err != nil {
					return nil, err
				}
				buffer = buffer[1:]
''','''				if err := b.UnmarshalBinary(buffer[0]); err == nil {
					buffer = buffer[1:]
				}
''')],'''
type picky struct{ b []byte }

func (p *picky) MarshalBinary() ([]byte, error) { return p.b, nil }
func (p *picky) UnmarshalBinary(b []byte) error {
	if len(b) != 2 {
		return errors.New("refused")
	}
	p.b = b
	return nil
}

func TestSeed(t *testing.T) {
	ch := make(chan string, 9)
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(so sio.Socket, p *picky) { ch <- "event" }).
			OnError(func(so sio.Socket, err ...interface{}) { ch <- "error" })
	})
	defer h.stop()
	p := h.raw()
	p.send(`451-["ev",{"_placeholder":true,"num":0}]`)
	p.sendBin("\\x04abc")
	if s := got(ch); s != "error" {
		t.Fatalf("got %q", s)
	}
}
''',['errors'])
add('frames-reversed','C22','a message with two attachments',
 'x',[('parser_default.go','	return buf.Bytes(), p.buffer, nil\n','	return buf.Bytes(), p.buffer[:len(p.buffer):len(p.buffer)], nil\n')],'')
S.pop()
add('text-after-binary','C22','x','x',[],'')
S.pop()
add('frames-unlocked-ack','C22','an acknowledgement with an attachment sent while another goroutine emits one',
 'x',[],'')
S.pop()
add('detach-stops','C23','x','x',[],'')
S.pop()
add('fewer-attachments','C24','a message with more placeholders than attachments announced',
 'a message is delivered before its attachments have arrived',
 [('parser_default.go','if len(p.buffer) != p.attachments {','if len(p.buffer) < p.attachments {')],'''
func TestSeed(t *testing.T) {
	d := sio.DefaultParser.Decoder()
	err := d.Add(sio.MessageTypeString, []byte(`51-["ev",{"_placeholder":true,"num":0},{"_placeholder":true,"num":1}]`))
	if err == nil {
		d.Add(sio.MessageTypeBinary, []byte("x"))
		select {
		case <-d.Decoded():
			t.Fatal("delivered with one attachment of two")
		default:
		}
	}
}
''')
add('array-longer','C25','a list one longer than the array it is decoded into','the decoder panics',
 [('parser_msgp.go','if ie.Len() < int(sz) {','if ie.Len()+1 < int(sz) {')],'''
func TestSeed(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	au := sio.MsgpackParser.Decoder().(sio.ArgsUnmarshaler)
	if _, err := au.UnmarshalArgs([]reflect.Type{reflect.TypeOf([2]int{})}, []byte{0x91, 0x93, 1, 2, 3}, nil); err == nil {
		t.Fatal("no error")
	}
}
''',['reflect'])
add('variadic-one','C26','a callback whose only parameter is variadic','it is called with a list where it expects elements, and panics',
 [('callback.go','if e.fn.Type().IsVariadic() {','if len(in) > 1 && e.fn.Type().IsVariadic() {')],'''
func TestSeed(t *testing.T) {
	ch := make(chan string, 9)
	h := serve(t, sio.DefaultParser, func(s *sio.Server) {
		s.Namespace("/").OnEvent("ev", func(s ...string) { ch <- s[0] })
	})
	defer h.stop()
	p := h.raw()
	p.send(`42["ev",["x"]]`)
	if s := got(ch); s != "x" {
		t.Fatalf("got %q", s)
	}
}
''')
add('msgp-id-zero','C27','an acknowledgement with id 0, in MessagePack','the id is written as nil: the peer cannot tell what is acknowledged',
 [('packet.go','''	if z.ID == nil {
		o = msgp.AppendNil(o)
	} else {
''','''	if z.ID == nil || *z.ID == 0 {
		o = msgp.AppendNil(o)
	} else {
''')],'''
func TestSeed(t *testing.T) {
	id := uint64(0)
	_, bin, err := sio.MsgpackParser.Encoder().Encode(&sio.Packet{Type: sio.PacketTypeAck, Namespace: "/", ID: &id, Data: []interface{}{"x"}})
	if err != nil {
		t.Fatal(err)
	}
	d := sio.MsgpackParser.Decoder()
	if err := d.Add(sio.MessageTypeBinary, bin[0]); err != nil {
		t.Fatal(err)
	}
	if p := <-d.Decoded(); p.ID == nil || *p.ID != 0 {
		t.Fatal("the id is lost")
	}
}
''')

add('ack-other-nsp','C20','an acknowledgement for a namespace that has been left, while the root namespace waits for one with the same id',
 'an acknowledgement of one namespace fires the callback of another',
 [('socket.go',"""	ack, ok := s.acks[nsp]
	s.mutex.RUnlock()
	if ok {
		err = ack.""","""	ack := s.acks[nsp]
	if ack == nil {
		ack = s.acks["/"]
	}
	s.mutex.RUnlock()
	if ack != nil {
		err = ack.""")],"""
func TestSeed(t *testing.T) {
	url, stop := fake(t, func(p *peer) {
		p.send("40/x")
		p.send(`42["go"]`)
		p.recv()
		p.send("41/x")
		p.send(`43/x,1["wrong"]`)
		p.send(`431["right"]`)
	})
	defer stop()
	ch := make(chan string, 9)
	c := dial(t, url, sio.DefaultParser, func(c *sio.Client) {
		c.Namespace("/x")
		c.Namespace("/").OnEvent("go", func(so sio.Socket) { so.Emit("a", func(s string) { ch <- s }) })
	})
	defer c.Close()
	if s := got(ch); s != "right" {
		t.Fatalf("fired with %q", s)
	}
}
""")
add('encoder-buffer','C01','two goroutines that emit on one socket at a time',
 "the encoder of a session keeps a buffer that concurrent emitters overwrite for each other",
 [('parser_default.go','type defaultEncoder struct{}\n','type defaultEncoder struct {\n	buf bytes.Buffer // reused\n}\n'),
  ('parser_default.go','func (d defaultEncoder) Encode(','func (d *defaultEncoder) Encode('),
  ('parser_default.go','	var buf bytes.Buffer\n	if err := d.encodeTo(&buf, p)','	d.buf.Reset()\n	if err := d.encodeTo(&d.buf, p)'),
  ('parser_default.go','return buf.Bytes(), p.buffer, nil','return append([]byte(nil), d.buf.Bytes()...), p.buffer, nil')],"""
func TestSeed(t *testing.T) {
	h := serve(t, sio.DefaultParser, nil)
	defer h.stop()
	so := make(chan sio.Socket, 1)
	h.Namespace("/").OnConnect(func(s sio.Socket) { so <- s })
	p := h.raw()
	s := <-so
	const n = 300
	names := map[string]bool{}
	for _, name := range []string{"a", "bbb", "ccccc", "ddddddddd"} {
		name := name
		names[fmt.Sprintf("42[%q]\\n", name)] = true
		go func() {
			for i := 0; i < n; i++ {
				s.Emit(name)
			}
		}()
	}
	for i := 0; i < 4*n; i++ {
		if text := p.recv(); !names[text] {
			t.Fatalf("received %q", text)
		}
	}
}
""",imports=['fmt'],race=True)
add('no-disconnect','C23','a client whose connection is lost rather than closed by the application',
 'OnDisconnect is not called for the namespaces joined',
 [('client.go',"""		socket.Close()
		detachall(c, socket)
""","""		if socket.Close() == nil {
			return // closed by the application
		}
		detachall(c, socket)
""")],"""
func TestSeed(t *testing.T) {
	url, stop := fake(t, func(p *peer) { p.send("40/x"); p.send(`42["ready"]`) })
	defer stop()
	ch := make(chan string, 9)
	c := dial(t, url, sio.DefaultParser, func(c *sio.Client) {
		for _, n := range []string{"/", "/x"} {
			c.Namespace(n).OnDisconnect(func(s sio.Socket) { ch <- "left" })
		}
		c.Namespace("/").OnEvent("ready", func() { ch <- "ready" })
	})
	defer c.Close()
	if s := got(ch); s != "ready" {
		t.Fatal(s)
	}
	if a, b := got(ch), got(ch); a != "left" || b != "left" {
		t.Fatalf("%q %q", a, b)
	}
}
""")
add('attachments-end','C24',"a message that ends right after the count of its attachments",'the decoder panics, in the goroutine that reads the connection',
 [('parser_default.go',"""		i = j + 1
		if i >= len(s) {
			return p, nil
		}
	}

	if s[i] == '/' {""","""		i = j + 1
		if i > len(s) {
			return p, nil
		}
	}

	if s[i] == '/' {""")],"""
func TestSeed(t *testing.T) {
	d := sio.DefaultParser.Decoder()
	d.Add(sio.MessageTypeString, []byte("50-"))
}
""")
add('attachments-hex','C27','a message with ten attachments or more','the count of attachments is not written in decimal',
 [('parser_default.go','io.WriteString(w, strconv.Itoa(p.attachments))',"io.WriteString(w, strconv.FormatInt(int64(p.attachments), 16))")],"""
func TestSeed(t *testing.T) {
	p := &sio.Packet{Type: sio.PacketTypeEvent, Namespace: "/"}
	d := []interface{}{"ev"}
	for i := 0; i < 12; i++ {
		d = append(d, &sio.Bytes{Data: []byte{1}})
	}
	p.Data = d
	b, bin, err := sio.DefaultParser.Encoder().Encode(p)
	if err != nil || len(bin) != 12 || string(b[:4]) != "512-" {
		t.Fatalf("%q %d %v", b, len(bin), err)
	}
}
""")
