id='C10-shared-protocol'; property='C10'
needs='two servers with different limits in one process. After a connection to the one with the higher limit, a message between both limits is sent to an older connection of the other one'
what='All connections share the protocol object and with it the limit of the connection that was made last.'
edits=[('loop.go','''	protocol = reflect.New(reflect.ValueOf(protocol).Elem().Type()).Interface().(hubProtocol)
''','''	// The protocols have no state, so there is no need for one per connection
''')]
demo='''
package signalr_test

import (
	"context"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

var called int32

func (h *demoHub) Take(s string) { atomic.AddInt32(&called, 1) }

func (h *demoHub) Hello() string { return "hello" }

func TestSeeded(t *testing.T) {
	var servers []signalr.Server
	for _, limit := range []uint{1000, 100000} {
		server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}),
			signalr.MaximumReceiveMessageSize(limit))
		if err != nil {
			t.Fatal(err)
		}
		servers = append(servers, server)
	}
	var peers []*peer
	var dones []chan struct{}
	hello := func(p *peer) {
		p.send(`{"type":1,"invocationId":"1","target":"hello","arguments":[]}`)
		if f := p.next(10 * time.Second); f == nil || f["result"] != "hello" {
			t.Fatalf("got %v", f)
		}
	}
	for _, server := range servers {
		p, done, cancel := serve(t, server)
		defer cancel()
		p.handshake()
		hello(p)
		peers = append(peers, p)
		dones = append(dones, done)
	}
	hello(peers[0])
	go peers[0].send(`{"type":1,"target":"take","arguments":["` + strings.Repeat("x", 5000) + `"]}`)
	select {
	case <-dones[0]:
	case <-time.After(3 * time.Second):
		t.Error("the connection was not ended")
	}
	if atomic.LoadInt32(&called) != 0 {
		t.Error("a message that is too large was processed")
	}
}
'''
