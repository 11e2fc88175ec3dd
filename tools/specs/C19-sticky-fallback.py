id='C19-sticky-fallback'; property='C19'
needs='a websocket request that is refused once, so the client falls back to server-sent events, and later the end of this connection'
what='After the first fallback to server-sent events the client never tries a websocket again, though it works and is preferred.'
edits=[('clientoptions.go','''	return WithConnector(func() (Connection, error) {
		return HttpConnectionFactory(ctx, address, options...)
	})''','''	connOptions := options
	return WithConnector(func() (Connection, error) {
		conn, err := HttpConnectionFactory(ctx, address, connOptions...)
		if _, ok := conn.(*clientSSEConnection); ok {
			// WebSockets do not get through, do not waste a negotiation on each reconnect
			connOptions = append(options[:len(options):len(options)], WithTransports(TransportServerSentEvents))
		}
		return conn, err
	})''')]
demo='''
package signalr_test

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type seededHub struct{ signalr.Hub }

func TestSeeded(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	server, err := signalr.NewServer(ctx, quiet(), signalr.SimpleHubFactory(&seededHub{}))
	if err != nil {
		t.Fatal(err)
	}
	inner := http.NewServeMux()
	server.MapHTTP(signalr.WithHTTPServeMux(inner), "/hub")
	var sockets, events int32
	web := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == "GET" {
			if r.Header.Get("Upgrade") == "" {
				atomic.AddInt32(&events, 1)
			} else if atomic.AddInt32(&sockets, 1) == 1 {
				w.WriteHeader(http.StatusServiceUnavailable)
				return
			}
		}
		inner.ServeHTTP(w, r)
	}))
	defer web.CloseClientConnections()
	client, err := signalr.NewClient(ctx, quiet(), signalr.WithHttpConnection(ctx, web.URL+"/hub"))
	if err != nil {
		t.Fatal(err)
	}
	client.Start()
	waitState(t, client, signalr.ClientConnected)
	if s, e := atomic.LoadInt32(&sockets), atomic.LoadInt32(&events); s != 1 || e != 1 {
		t.Fatalf("%d websocket and %d event requests at first", s, e)
	}
	web.CloseClientConnections()
	for i := 0; i < 300 && atomic.LoadInt32(&sockets)+atomic.LoadInt32(&events) < 3; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	if s, e := atomic.LoadInt32(&sockets), atomic.LoadInt32(&events); s < 2 {
		t.Errorf("the client has reconnected, and made %d websocket and %d event requests up to now", s, e)
	}
}
'''
