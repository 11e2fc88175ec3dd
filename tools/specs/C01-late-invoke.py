id='C01-late-invoke'; property='C01'
needs='an invocation that is made after the connection has ended, but before the client has noticed: between the end of the message loop and the change of the state'
what='writeMessage does not report that the connection is already canceled. An invocation registered after the pending invocations have been canceled never gets a result.'
edits=[('hubconnection.go','''	err := func() error {
		if c.ctx.Err() != nil {
			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
		}
''','''	err := func() error {
		if c.ctx.Err() != nil {
			// Nobody is interested in messages for a connection which has ended
			return nil
		}
''')]
demo='''
package signalr_test

import (
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

func TestSeeded(t *testing.T) {
	client, p, cancel := connect(t)
	defer cancel()
	// The server closes the connection, but does not read anymore. So the client needs some time to end.
	p.send(`{"type":7}`)
	for i := 0; i < 30; i++ {
		time.Sleep(100 * time.Millisecond)
		result := client.Invoke("method")
		select {
		case r, ok := <-result:
			if !ok || r.Error == nil {
				t.Fatal("success of an invocation nobody has answered")
			}
		case <-time.After(12 * time.Second):
			t.Fatal("invocation does not end")
		}
		if client.State() == signalr.ClientClosed {
			break
		}
	}
}
'''
