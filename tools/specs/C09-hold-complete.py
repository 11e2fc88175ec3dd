id='C09-hold-complete'; property='C09'
needs='a complete JSON message and the beginning of the next one that arrive in one read, and a pause before the rest arrives'
what='When the last message of a read is incomplete, the complete messages before it are held back until the rest has arrived.'
edits=[('jsonhubprotocol.go','''	// Try getting data until at least one frame is available
	for {
''','''	// Try getting data until complete frames are available
	var complete [][]byte
	for {
'''),('jsonhubprotocol.go','''			if len(frames) > 0 {
				_, _ = remainBuf.ReadFrom(buf)
				return frames, nil
			}
''','''			complete = append(complete, frames...)
			if len(complete) > 0 && buf.Len() == 0 {
				return complete, nil
			}
''')]
demo='''
package signalr_test

import (
	"context"
	"testing"
	"time"

	"github.com/philippseith/signalr"
)

type demoHub struct {
	signalr.Hub
}

func (h *demoHub) Echo(s string) string { return s }

func TestSeeded(t *testing.T) {
	server, err := signalr.NewServer(context.Background(), quiet(), signalr.SimpleHubFactory(&demoHub{}))
	if err != nil {
		t.Fatal(err)
	}
	p, _, cancel := serve(t, server)
	defer cancel()
	p.handshake()
	_, _ = p.conn.Write([]byte(`{"type":1,"invocationId":"1","target":"Echo","arguments":["a"]}` + "\\x1e" + `{"type":1,"invoc`))
	f := p.next(5 * time.Second)
	if f == nil || f["type"] != 3.0 || f["result"] != "a" {
		t.Fatalf("the first invocation was answered with %v", f)
	}
	_, _ = p.conn.Write([]byte(`ationId":"2","target":"Echo","arguments":["b"]}` + "\\x1e"))
	f = p.next(5 * time.Second)
	if f == nil || f["type"] != 3.0 || f["result"] != "b" {
		t.Fatalf("the second invocation was answered with %v", f)
	}
}
'''
