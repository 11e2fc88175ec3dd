id='C04-end-on-loss'; property='C04'
needs='a connection that ends while a client is uploading a stream the hub method is receiving'
what='When the connection ends, the channels of its uploads are closed. The hub method can not tell this from the regular end of the upload, which the client did not send.'
edits=[('loop.go','''	_ = l.dbg.Log(evt, "message loop ended")
''','''	// Don't let hub methods wait for stream items which will never come
	l.streamClient.deleteUpstreamChannels()
	_ = l.dbg.Log(evt, "message loop ended")
'''),('streamclient.go','''func (c *streamClient) deleteUpstreamChannel(invocationID string) {
	c.mx.Lock()
	if upChan, ok := c.upstreamChannels[invocationID]; ok {
		upChan.Close()
		delete(c.upstreamChannels, invocationID)
	}
''','''func (c *streamClient) deleteUpstreamChannels() {
	c.mx.Lock()
	defer c.mx.Unlock()
	for id, upChan := range c.upstreamChannels {
		if upChan.Type().Elem().Kind() != reflect.Interface {
			// Channel of a hub method. The streams we are pulling are ended by their error channel
			upChan.Close()
			delete(c.upstreamChannels, id)
		}
	}
}

func (c *streamClient) deleteUpstreamChannel(invocationID string) {
	c.mx.Lock()
	upChan, ok := c.upstreamChannels[invocationID]
	if ok {
		upChan.Close()
		delete(c.upstreamChannels, invocationID)
	}
''')]
demo='''
package signalr_test

import (
	"context"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

var got = make(chan int, 10)
var ended = make(chan struct{})

func (h *demoHub) Sum(ch <-chan int) int {
	sum := 0
	for i := range ch {
		sum += i
		got <- i
	}
	close(ended)
	return sum
}

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}))
	if err != nil {
		t.Fatal(err)
	}
	p, done, cancel := serve(t, server)
	defer cancel()
	p.handshake()
	p.send(`{"type":1,"invocationId":"1","target":"sum","arguments":[],"streamIds":["s"]}`,
		`{"type":2,"invocationId":"s","item":1}`, `{"type":2,"invocationId":"s","item":2}`)
	for i := 1; i <= 2; i++ {
		select {
		case g := <-got:
			if g != i {
				t.Fatalf("expected item %v, got %v", i, g)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("item does not arrive")
		}
	}
	// The connection breaks
	_ = p.conn.Close()
	<-done
	select {
	case <-ended:
		t.Fatal("the hub method sees the end of an upload which was not ended")
	case <-time.After(2 * time.Second):
	}
}
'''
