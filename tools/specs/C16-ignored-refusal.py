id='C16-ignored-refusal'; property='C16'
needs='a server-sent events connection and a POST that the server refuses, for example because it has ended the connection'
what='The client takes the refusal of a POST for a success. The message is lost without any error.'
edits=[('clientsseconnection.go','''	if resp.StatusCode != 200 {
''','''	if resp.StatusCode >= 500 {
''')]
demo='''
package signalr_test

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

func TestSeeded(t *testing.T) {
	events := make(chan string, 10)
	var refuse int32
	router := http.NewServeMux()
	router.HandleFunc("/hub/negotiate", func(w http.ResponseWriter, r *http.Request) {
		_, _ = io.WriteString(w, `{"connectionId":"1","negotiateVersion":0,"availableTransports":[{"transport":"ServerSentEvents","transferFormats":["Text"]}]}`)
	})
	router.HandleFunc("/hub", func(w http.ResponseWriter, r *http.Request) {
		if r.Method == "POST" {
			_, _ = io.ReadAll(r.Body)
			if atomic.LoadInt32(&refuse) == 1 {
				w.WriteHeader(http.StatusNotFound)
				return
			}
			events <- "{}"
			return
		}
		w.Header().Set("Content-Type", "text/event-stream")
		w.WriteHeader(200)
		_, _ = io.WriteString(w, ":\\r\\n\\r\\n")
		w.(http.Flusher).Flush()
		for {
			select {
			case e := <-events:
				_, _ = fmt.Fprintf(w, "data: %s\\x1e\\n\\n", e)
				w.(http.Flusher).Flush()
			case <-r.Context().Done():
				return
			}
		}
	})
	web := httptest.NewServer(router)
	defer web.CloseClientConnections()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	conn, err := signalr.NewHTTPConnection(ctx, web.URL+"/hub", signalr.WithTransports(signalr.TransportServerSentEvents))
	if err != nil {
		t.Fatal(err)
	}
	client, err := signalr.NewClient(ctx, quiet(), signalr.WithConnection(conn))
	if err != nil {
		t.Fatal(err)
	}
	client.Start()
	waitState(t, client, signalr.ClientConnected)
	atomic.StoreInt32(&refuse, 1)
	select {
	case err := <-client.Send("message", "x"):
		if err == nil {
			t.Error("the message was refused, but Send reports success")
		}
	case <-time.After(10 * time.Second):
		t.Error("Send reports nothing")
	}
}
'''
