id='C02-send-in-loop'; property='C02'
needs='a hub method that is called without an invocation id and takes long, and another invocation on the same connection meanwhile'
what='Invocations without invocation id are executed on the message loop (to keep their order), so a slow method delays all other invocations of the connection.'
edits=[('loop.go','''			// hub method might take a long time
			go func() {
''','''			// hub method might take a long time
			call := func() {
'''),('loop.go','''					l.returnInvocationResult(invocation, result)
				}
			}()
''','''					l.returnInvocationResult(invocation, result)
				}
			}
			if invocation.InvocationID == "" {
				// Nobody waits for the result, so keep the order of the invocations
				call()
			} else {
				go call()
			}
''')]
demo='''
package signalr_test

import (
	"context"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

var release = make(chan struct{})

func (h *demoHub) Wait() { <-release }

func (h *demoHub) Release() string {
	close(release)
	return "released"
}

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}))
	if err != nil {
		t.Fatal(err)
	}
	p, _, cancel := serve(t, server)
	defer cancel()
	p.handshake()
	p.send(`{"type":1,"target":"wait","arguments":[]}`, `{"type":1,"invocationId":"1","target":"release","arguments":[]}`)
	f := p.next(10 * time.Second)
	if f == nil || f["invocationId"] != "1" || f["result"] != "released" {
		t.Fatalf("expected the result of release, got %v", f)
	}
}
'''
