id='C15-limit-counts-live'; property='C15'
needs='a configured limit of negotiated connections and at least that many connections which are already established'
what='The limit for negotiated but unused connection ids also counts the established connections. Once there are enough of them, nobody can connect anymore.'
edits=[('httpmux.go','''			var pending int
			for _, c := range h.connectionMap {
				if _, ok := c.(*negotiateConnection); ok {
					pending++
				}
			}
			if pending >= max {
''','''			if len(h.connectionMap) >= int(max) {
''')]
demo='''
package signalr_test

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

func (h *demoHub) Echo(s string) string { return s }

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}),
		signalr.MaxNegotiationConnections(2))
	if err != nil {
		t.Fatal(err)
	}
	router := http.NewServeMux()
	server.MapHTTP(signalr.WithHTTPServeMux(router), "/hub")
	web := httptest.NewServer(router)
	defer web.CloseClientConnections()
	for i := 0; i < 4; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		conn, err := signalr.NewHTTPConnection(ctx, web.URL+"/hub")
		if err != nil {
			t.Fatalf("client %v is refused: %v", i, err)
		}
		client, err := signalr.NewClient(ctx, quiet(), signalr.WithConnection(conn))
		if err != nil {
			t.Fatal(err)
		}
		client.Start()
		waitState(t, client, signalr.ClientConnected)
		if r := <-client.Invoke("Echo", "x"); r.Error != nil || r.Value != "x" {
			t.Fatalf("client %v: %v", i, r)
		}
	}
	// the limit itself
	for i := 0; i < 3; i++ {
		resp, err := http.Post(web.URL+"/hub/negotiate", "", nil)
		if err != nil {
			t.Fatal(err)
		}
		if (resp.StatusCode == 200) != (i < 2) {
			t.Errorf("negotiation %v is answered with %v", i, resp.Status)
		}
		_ = json.NewDecoder(resp.Body).Decode(&struct{}{})
		_ = resp.Body.Close()
	}
}
'''
