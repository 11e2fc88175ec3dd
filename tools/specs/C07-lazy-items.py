id='C07-lazy-items'; property='C07'
needs='two concurrent hub method calls of one connection which are the first ones to use the items of the hub context'
what='The items are created on first use. When two calls do this at the same time, what one of them stored gets lost.'
edits=[('hubconnection.go','''		items:                     &sync.Map{},
''',''''''),('hubconnection.go','''	return c.items
}
''','''	c.mx.Lock()
	items := c.items
	c.mx.Unlock()
	if items == nil {
		// Most hubs never use the items
		items = &sync.Map{}
		c.mx.Lock()
		c.items = items
		c.mx.Unlock()
	}
	return items
}
''')]
demo='''
package signalr_test

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

func (h *demoHub) Store(key string) {
	h.Items().Store(key, true)
}

func (h *demoHub) Count() int {
	n := 0
	h.Items().Range(func(key, value any) bool { n++; return true })
	return n
}

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(),
		signalr.HubFactory(func() signalr.HubInterface { return &demoHub{} }))
	if err != nil {
		t.Fatal(err)
	}
	const calls = 8
	for round := 0; round < 3000; round++ {
		p, _, cancel := serve(t, server)
		p.handshake()
		var frames []string
		for i := 0; i < calls; i++ {
			frames = append(frames, fmt.Sprintf(`{"type":1,"invocationId":"%v","target":"store","arguments":["k%v"]}`, i, i))
		}
		p.send(strings.Join(frames, "\\x1e"))
		for i := 0; i < calls; i++ {
			if p.next(10*time.Second) == nil {
				t.Fatal("missing completion")
			}
		}
		p.send(`{"type":1,"invocationId":"count","target":"count","arguments":[]}`)
		f := p.next(10 * time.Second)
		if f == nil || f["result"] != float64(calls) {
			t.Fatalf("round %v: stored %v items, but got %v", round, calls, f)
		}
		cancel()
	}
}
'''
