id='C08-late-item-panic'; property='C08'
needs='a hub method that does not receive from its channel, a stream item that times out, and then the end of the same upload'
what='The goroutine which still waits to send the timed out item panics when the end of the upload closes the channel. This ends the whole process.'
edits=[('streamclient.go','''		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("%v", r)
			}
		}()
''','')]
demo='''
package signalr_test

import (
	"context"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

func (h *demoHub) Ignore(ch <-chan int) { time.Sleep(time.Hour) }

func (h *demoHub) Hello() string { return "hello" }

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}),
		signalr.StreamBufferCapacity(1), signalr.ChanReceiveTimeout(200*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	p, _, cancel := serve(t, server)
	defer cancel()
	p.handshake()
	p.send(`{"type":1,"invocationId":"1","target":"ignore","arguments":[],"streamIds":["s"]}`,
		`{"type":2,"invocationId":"s","item":1}`, `{"type":2,"invocationId":"s","item":2}`)
	time.Sleep(time.Second)
	p.send(`{"type":3,"invocationId":"s"}`)
	time.Sleep(time.Second)
	other, _, cancelOther := serve(t, server)
	defer cancelOther()
	other.handshake()
	other.send(`{"type":1,"invocationId":"1","target":"hello","arguments":[]}`)
	if f := other.next(10 * time.Second); f == nil || f["result"] != "hello" {
		t.Fatalf("got %v", f)
	}
}
'''
