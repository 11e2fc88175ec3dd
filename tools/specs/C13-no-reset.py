id='C13-no-reset'; property='C13'
needs='a back-off that gives up after some attempts and a client that loses its connection more often than that, with successful connections in between'
what='The back-off is not reset after a successful connection, so the client gives up although every single reconnect succeeded.'
edits=[('client.go','''			if c.State() == ClientConnected {
				boff.Reset()
			}
''','''			if c.State() == ClientConnected {
				if c.Err() == nil {
					boff.Reset()
				}
			}
''')]
demo='''
package signalr_test

import (
	"context"
	"net"
	"testing"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func TestSeeded(t *testing.T) {
	peers := make(chan *peer, 100)
	client, err := signalr.NewClient(context.Background(), quiet(),
		signalr.WithBackoff(func() backoff.BackOff {
			return backoff.WithMaxRetries(backoff.NewConstantBackOff(50*time.Millisecond), 3)
		}),
		signalr.WithConnector(func() (signalr.Connection, error) {
			cliConn, srvConn := net.Pipe()
			peers <- newPeer(t, srvConn)
			return signalr.NewNetConnection(context.Background(), cliConn), nil
		}))
	if err != nil {
		t.Fatal(err)
	}
	client.Start()
	for i := 0; i < 8; i++ {
		select {
		case p := <-peers:
			p.acceptHandshake()
			p.read()
			// Works when an answer arrives
			waitState(t, client, signalr.ClientConnected)
			result := client.Invoke("hello")
			f := p.next(10 * time.Second)
			if f == nil {
				t.Fatal("no invocation")
			}
			p.send(`{"type":3,"invocationId":"` + f["invocationId"].(string) + `","result":1}`)
			if r := <-result; r.Error != nil {
				t.Fatal(r.Error)
			}
			// The connection breaks
			_ = p.conn.Close()
		case <-time.After(10 * time.Second):
			t.Fatalf("the client gave up after %v connections: %v", i, client.Err())
		}
	}
	client.Stop()
}
'''
