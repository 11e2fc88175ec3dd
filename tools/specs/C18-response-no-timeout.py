id='C18-response-no-timeout'; property='C18'
needs='a peer that sends a valid handshake request but does not read the response'
what='Writing the handshake response is not limited by the handshake timeout. A peer that never takes the response is never dropped.'
edits=[('server.go','''	ctx, cancelWrite := context.WithTimeout(s.Context(), s.HandshakeTimeout())
	defer cancelWrite()
''','''	// The other side has shown up in time, so there is no need for another timeout
	ctx, cancelWrite := context.WithCancel(s.Context())
	defer cancelWrite()
''')]
demo='''
package signalr_test

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

var connected int32

func (h *demoHub) OnConnected(string) { atomic.AddInt32(&connected, 1) }

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}),
		signalr.HandshakeTimeout(500*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	p, done, cancel := serve(t, server)
	defer cancel()
	p.send(`{"protocol":"json","version":1}`)
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Error("the peer was not dropped after the handshake timeout")
	}
	if atomic.LoadInt32(&connected) != 0 {
		t.Error("the peer was connected to the hub")
	}
}
'''
