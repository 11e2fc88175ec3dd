id='C06-stale-snapshot'; property='C06'
needs='a connection that joins a group while a message is being sent to the group, and then another message to the group'
what='The members of a group are cached. A join between collecting the members and storing the cache is lost for all messages that follow.'
edits=[('hublifetimemanager.go','''	members map[string]HubConnection
}
''','''	members map[string]HubConnection
	conns   []HubConnection // cache of the members, nil when they have changed
}
'''),('hublifetimemanager.go','''	g.members[id] = conn
	g.mu.Unlock()
''','''	g.members[id] = conn
	g.conns = nil
	g.mu.Unlock()
'''),('hublifetimemanager.go','''	delete(g.members, id)
	g.mu.Unlock()
''','''	delete(g.members, id)
	g.conns = nil
	g.mu.Unlock()
'''),('hublifetimemanager.go','''	g.mu.RLock()
	conns := make([]HubConnection, 0, len(g.members))
	for _, c := range g.members {
		conns = append(conns, c)
	}
	g.mu.RUnlock()
	return conns
''','''	g.mu.RLock()
	conns := g.conns
	if conns != nil {
		g.mu.RUnlock()
		return conns
	}
	conns = make([]HubConnection, 0, len(g.members))
	for _, c := range g.members {
		conns = append(conns, c)
	}
	g.mu.RUnlock()
	g.mu.Lock()
	g.conns = conns
	g.mu.Unlock()
	return conns
''')]
demo='''
package signalr_test

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

var mx sync.Mutex
var ids []string

func (h *demoHub) OnConnected(id string) {
	mx.Lock()
	ids = append(ids, id)
	mx.Unlock()
}

var hubs = make(chan *demoHub, 1000)

func (h *demoHub) Hello() { hubs <- h }

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(),
		signalr.HubFactory(func() signalr.HubInterface { return &demoHub{} }))
	if err != nil {
		t.Fatal(err)
	}
	const members = 4
	var peers []*peer
	for i := 0; i < members; i++ {
		p, _, cancel := serve(t, server)
		defer cancel()
		p.handshake()
		peers = append(peers, p)
	}
	peers[0].send(`{"type":1,"target":"hello","arguments":[]}`)
	hub := <-hubs
	for len(func() []string { mx.Lock(); defer mx.Unlock(); return ids }()) < members {
		time.Sleep(time.Millisecond)
	}
	for round := 0; round < 1500; round++ {
		group := fmt.Sprint("group", round)
		hub.Groups().AddToGroup(group, ids[0])
		var wg sync.WaitGroup
		for i := 1; i < members; i++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				hub.Groups().AddToGroup(group, ids[i])
			}()
			go func() {
				defer wg.Done()
				hub.Clients().Group(group).Send("join")
			}()
		}
		wg.Wait()
		// Now all are members
		hub.Clients().Group(group).Send("final" + group)
		for i, p := range peers {
			for {
				f := p.next(3 * time.Second)
				if f == nil {
					t.Fatalf("member %v did not get the message to %v", i, group)
				}
				if f["target"] == "final"+group {
					break
				}
			}
		}
	}
}
'''
