id='C12-stop-hangs'; property='C12'
needs='a connection that ends while more than one received message is waiting to be handled, and then Stop of the client'
what='The goroutine which forwards the received messages waits forever for the ended message loop, so Stop never returns.'
edits=[('loop.go','''				select {
				case ch <- result:
				case <-l.hubConn.Context().Done():
					break loop
				}
''','''				ch <- result
''')]
demo='''
package signalr_test

import (
	"strings"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

func TestSeeded(t *testing.T) {
	client, p, cancel := connect(t)
	defer cancel()
	p.read()
	p.send(`{"type":7,"error":"bye"}` + strings.Repeat("\\x1e"+`{"type":6}`, 10))
	waitState(t, client, signalr.ClientClosed)
	stopped := make(chan struct{})
	go func() {
		defer close(stopped)
		client.Stop()
	}()
	select {
	case <-stopped:
	case <-time.After(20 * time.Second):
		t.Fatal("Stop does not return")
	}
}
'''
