id='C11-ping-next-tick'; property='C11'
needs='a message that is sent shortly after a tick of the keep-alive ticker, then silence'
what='When the other side was sent something in the last interval, the ping is postponed to the next regular tick. Almost two intervals can pass without any message.'
edits=[('loop.go','''				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())

				if nextPingIn <= 0 {
''','''				if time.Since(l.hubConn.LastWriteStamp()) >= l.party.keepAliveInterval() {
'''),('loop.go','''				} else {
					keepAliveTicker.Reset(nextPingIn)
				}
				// Don't''','''				}
				// Don't''')]
demo='''
package signalr_test

import (
	"context"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

func (h *demoHub) Hello() string { return "hello" }

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}),
		signalr.KeepAliveInterval(2*time.Second))
	if err != nil {
		t.Fatal(err)
	}
	p, _, cancel := serve(t, server)
	defer cancel()
	p.handshake()
	for round := 0; round < 3; round++ {
		// Wait for a ping
		select {
		case f := <-p.frames:
			if f["type"] != 6.0 {
				t.Fatalf("expected a ping, got %v", f)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("no ping")
		}
		time.Sleep(300 * time.Millisecond)
		p.send(`{"type":1,"invocationId":"1","target":"hello","arguments":[]}`)
		if f := p.next(10 * time.Second); f == nil || f["type"] != 3.0 {
			t.Fatalf("expected a completion, got %v", f)
		}
		start := time.Now()
		select {
		case <-p.frames:
		case <-time.After(10 * time.Second):
		}
		if silence := time.Since(start); silence > 3*time.Second {
			t.Fatalf("nothing was sent for %v", silence)
		}
	}
}
'''
