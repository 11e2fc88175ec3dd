id='C17-one-after-another'; property='C17'; module='ext'
needs='a connection whose peer stops reading until the buffers to it are full, and then messages to other connections of the same server'
what='A server sends the messages that arrive from redis in the order of arrival, one connection after another. A connection that is stuck holds up all others of the server.'
edits=[('ext/redishublifetimemnager.go','''			// Send the invocation asynchronously
			go func(conn signalr.HubConnection, connID string) {
				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
				defer cancel()
				err := conn''','''			// Send the invocation, messages must not overtake each other
			func(conn signalr.HubConnection, connID string) {
				err := conn''')]
demo='''
package ext_test

import (
	"context"
	"strings"
	"testing"
	"time"

	"github.com/go-kit/log"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/ext"
	"github.com/redis/go-redis/v9"
)

type demoHub struct{ signalr.Hub }

func TestSeeded(t *testing.T) {
	r := startRedis(t)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	server, err := signalr.NewServer(ctx, quiet(), signalr.TimeoutInterval(10*time.Minute),
		signalr.HubFactory(func() signalr.HubInterface { return &demoHub{} }),
		ext.WithRedisHubLifetimeManager(redis.NewClient(&redis.Options{Addr: r.addr}), log.NewNopLogger()))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; r.subscribers() < 1; i++ {
		if i > 2000 {
			t.Fatal("server does not subscribe")
		}
		time.Sleep(10 * time.Millisecond)
	}
	// some clients do not read, only the handshake response
	for i := 0; i < 3; i++ {
		stuck, _, cancelStuck := serve(t, server)
		defer cancelStuck()
		go func() { stuck.send(`{"protocol":"json","version":1}`) }()
		if _, err := stuck.conn.Read(make([]byte, 3)); err != nil {
			t.Fatal(err)
		}
	}
	good, _, cancelGood := serve(t, server)
	defer cancelGood()
	good.handshake()
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 5; i++ {
		server.HubClients().All().Send("hello", strings.Repeat("x", 1000))
	}
	for i := 0; i < 5; i++ {
		if f := good.next(10 * time.Second); f == nil || f["target"] != "hello" {
			t.Fatalf("message %d: the client received %v", i, f)
		}
	}
}
'''
