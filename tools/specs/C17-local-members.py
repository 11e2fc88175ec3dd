id='C17-local-members'; property='C17'; module='ext'
needs='two servers; a connection that is added to a group, or removed from it, by the other server, and a message to the group afterwards'
what='Whether a connection is in a group is looked up in the local cache of the server instead of the set in redis, so changes made by other servers have no effect.'
edits=[('ext/redishublifetimemnager.go','''			isMember, err := r.redisClient.SIsMember(r.ctx, r.groupMembershipKey(groupName), connectionID).Result()
			if err != nil {
				level.Error(r.logger).Log("event", "redis_sismember_failed", "group", groupName, "connectionId", connectionID, "err", err)
				return true // Continue, maybe next check will succeed or Redis recovers
			}
''','''			// The local cache knows the groups of the connection, no need to ask Redis for each message.
			isMember := false
			if groups, ok := r.connectionGroups.Load(connectionID); ok {
				r.groupSetsMx.Lock()
				_, isMember = groups.(map[string]struct{})[groupName]
				r.groupSetsMx.Unlock()
			}
''')]
demo='''
package ext_test

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/go-kit/log"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/ext"
	"github.com/redis/go-redis/v9"
)

type demoHub struct{ signalr.Hub }

func (h *demoHub) Id() string                     { return h.ConnectionID() }
func (h *demoHub) Add(group string, id string)    { h.Groups().AddToGroup(group, id) }
func (h *demoHub) Remove(group string, id string) { h.Groups().RemoveFromGroup(group, id) }

func TestSeeded(t *testing.T) {
	r := startRedis(t)
	var peers []*peer
	var servers []signalr.Server
	for i := 0; i < 2; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		server, err := signalr.NewServer(ctx, quiet(),
			signalr.HubFactory(func() signalr.HubInterface { return &demoHub{} }),
			ext.WithRedisHubLifetimeManager(redis.NewClient(&redis.Options{Addr: r.addr}), log.NewNopLogger()))
		if err != nil {
			t.Fatal(err)
		}
		servers = append(servers, server)
		p, _, cancelPeer := serve(t, server)
		defer cancelPeer()
		p.handshake()
		peers = append(peers, p)
	}
	for i := 0; r.subscribers() < 2; i++ {
		if i > 2000 {
			t.Fatal("servers do not subscribe")
		}
		time.Sleep(10 * time.Millisecond)
	}
	call := func(p *peer, target string, args string) interface{} {
		p.send(fmt.Sprintf(`{"type":1,"invocationId":"%s","target":"%s","arguments":[%s]}`, target, target, args))
		f := p.next(20 * time.Second)
		if f == nil || f["type"] != 3.0 {
			t.Fatalf("%s(%s) was answered with %v", target, args, f)
		}
		return f["result"]
	}
	id := call(peers[0], "id", "").(string)
	// the other server adds the connection to a group
	call(peers[1], "add", fmt.Sprintf(`"g","%s"`, id))
	servers[1].HubClients().Group("g").Send("hello", 1)
	if f := peers[0].next(10 * time.Second); f == nil || f["target"] != "hello" {
		t.Fatalf("added by the other server, the connection received %v", f)
	}
	// and removes it
	call(peers[0], "add", fmt.Sprintf(`"h","%s"`, id))
	call(peers[1], "remove", fmt.Sprintf(`"h","%s"`, id))
	servers[1].HubClients().Group("h").Send("hello", 2)
	if f := peers[0].next(2 * time.Second); f != nil {
		t.Fatalf("removed by the other server, the connection received %v", f)
	}
}
'''
