id='C05-late-done'; property='C05'
needs='a client that uses the id of a canceled stream again as soon as it has received the completion, and cancels the new stream while the server is still returning from writing this completion'
what='The canceled stream is forgotten only after its completion was written, so a cancel for a new stream with the same id gets lost.'
edits=[('streamer.go','''					s.Done(invocationID)
					_ = s.conn.Completion(invocationID, nil, "")
					break loop
''','''					// The stream has ended when the other side knows it
					if err := s.conn.Completion(invocationID, nil, ""); err == nil {
						s.Done(invocationID)
					}
					break loop
''')]
demo='''
package signalr_test

import (
	"bytes"
	"context"
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

var tick = make(chan int)

func (h *demoHub) Ticks() <-chan int { return tick }

// slowConn delivers the first completion and returns from writing it much later
type slowConn struct {
	net.Conn
	slowed int32
}

func (c *slowConn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	if bytes.Contains(b, []byte(`"type":3`)) && atomic.CompareAndSwapInt32(&c.slowed, 0, 1) {
		time.Sleep(time.Second)
	}
	return n, err
}

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}))
	if err != nil {
		t.Fatal(err)
	}
	cliConn, srvConn := net.Pipe()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() { _ = server.Serve(signalr.NewNetConnection(ctx, &slowConn{Conn: srvConn})) }()
	p := newPeer(t, cliConn)
	p.handshake()
	send := func(i int) {
		select {
		case tick <- i:
		case <-time.After(5 * time.Second):
			t.Fatal("nobody waits for stream items")
		}
	}
	completed := func(d time.Duration) bool {
		for end := time.After(d); ; {
			select {
			case f, ok := <-p.frames:
				if !ok {
					t.Fatal("connection ended")
				}
				if f["type"] == 3.0 {
					return true
				}
			case <-end:
				return false
			}
		}
	}
	p.send(`{"type":4,"invocationId":"1","target":"ticks","arguments":[]}`)
	send(1)
	p.send(`{"type":5,"invocationId":"1"}`)
	time.Sleep(200 * time.Millisecond)
	send(2)
	if !completed(500 * time.Millisecond) {
		t.Fatal("the cancel of the first stream does not stop it")
	}
	// The same again, while the server is still writing the completion
	p.send(`{"type":4,"invocationId":"1","target":"ticks","arguments":[]}`, `{"type":5,"invocationId":"1"}`)
	time.Sleep(2 * time.Second)
	for i := 3; i < 6; i++ {
		send(i)
		if completed(200 * time.Millisecond) {
			return
		}
	}
	t.Fatal("the cancel of the second stream does not stop it")
}
'''
