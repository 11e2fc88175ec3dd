id='C14-missed-state'; property='C14'
needs='a client that reaches the state between the first look at its state and the registration of the observer in WaitForState'
what='WaitForState looks at the state only before it starts to observe it. When the state changes in between, it waits forever.'
edits=[('client.go','''		defer close(ch)
		defer cancel()
		if c.waitingIsOver(waitFor, ch) {
			return
		}
		for {
''','''		defer close(ch)
		defer cancel()
		for {
''')]
demo='''
package signalr_test

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

func TestSeeded(t *testing.T) {
	for round := 0; round < 300; round++ {
		client, p, cancel := connect(t)
		p.read()
		// The client closes as soon as the server says so
		var wg sync.WaitGroup
		failed := make(chan struct{}, 100)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case err := <-client.WaitForState(context.Background(), signalr.ClientClosed):
						if err != nil {
							failed <- struct{}{}
						}
						return
					case <-time.After(time.Duration(50+i) * time.Microsecond):
						// Try again until the client is closed
						if client.State() != signalr.ClientClosed {
							continue
						}
					}
					// Now it has to be over soon
					select {
					case <-client.WaitForState(context.Background(), signalr.ClientClosed):
					case <-time.After(5 * time.Second):
						failed <- struct{}{}
					}
					return
				}
			}()
		}
		var waits []<-chan error
		stop := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				waits = append(waits, client.WaitForState(context.Background(), signalr.ClientClosed))
				select {
				case <-stop:
					return
				default:
				}
				if len(waits) > 20000 {
					return
				}
			}
		}()
		p.send(`{"type":7}`)
		waitState(t, client, signalr.ClientClosed)
		close(stop)
		wg.Wait()
		if len(failed) > 0 {
			t.Fatal("WaitForState failed")
		}
		for _, w := range waits {
			select {
			case err := <-w:
				if err != nil {
					t.Fatal(err)
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("round %v: WaitForState does not return", round)
			}
		}
		cancel()
	}
}
'''
