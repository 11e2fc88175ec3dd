id='C15-negotiated-origin'; property='C15'
needs='a websocket request with a negotiated id that comes from a page of a foreign origin'
what='The origin of a websocket request is not checked when the request has a negotiated id.'
edits=[('httpmux.go','''	accOptions := &websocket.AcceptOptions{
		CompressionMode:    websocket.CompressionContextTakeover,
		InsecureSkipVerify: h.server.insecureSkipVerify(),
''','''	// Who has a negotiated id has passed the origin checks of the negotiation
	h.mx.RLock()
	_, negotiated := h.connectionMap[request.URL.Query().Get("id")]
	h.mx.RUnlock()
	accOptions := &websocket.AcceptOptions{
		CompressionMode:    websocket.CompressionContextTakeover,
		InsecureSkipVerify: negotiated || h.server.insecureSkipVerify(),
''')]
demo='''
package signalr_test

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

type seededHub struct{ signalr.Hub }

func TestSeeded(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	server, err := signalr.NewServer(ctx, quiet(), signalr.SimpleHubFactory(&seededHub{}))
	if err != nil {
		t.Fatal(err)
	}
	mux := http.NewServeMux()
	server.MapHTTP(signalr.WithHTTPServeMux(mux), "/hub")
	web := httptest.NewServer(mux)
	defer web.CloseClientConnections()
	for _, origin := range []string{web.URL, "https://evil.example"} {
		resp, err := http.Post(web.URL+"/hub/negotiate", "", nil)
		if err != nil {
			t.Fatal(err)
		}
		var n struct{ ConnectionID string }
		if err := json.NewDecoder(resp.Body).Decode(&n); err != nil {
			t.Fatal(err)
		}
		_ = resp.Body.Close()
		ws, _, err := websocket.Dial(ctx, web.URL+"/hub?id="+n.ConnectionID, &websocket.DialOptions{HTTPHeader: http.Header{"Origin": {origin}}})
		if ok := origin == web.URL; ok != (err == nil) {
			t.Errorf("a websocket request from %s: %v", origin, err)
		}
		if ws != nil {
			_ = ws.Close(websocket.StatusNormalClosure, "")
		}
	}
}
'''
