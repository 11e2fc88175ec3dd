id='C03-graceful-truncation'; property='C03'
needs='a server that closes the connection without an error while the client is pulling a stream'
what='Pending invocations and streams are ended without an error when the connection was closed regularly, so a truncated stream looks like a complete one.'
edits=[('invokeclient.go','''func (i *invokeClient) cancelAllInvokes() {
''','''func (i *invokeClient) cancelAllInvokes(loopErr error) {
'''),('invokeclient.go','''			errChan <- errors.New("message loop ended")
''','''			if loopErr != nil {
				errChan <- errors.New("message loop ended")
			}
'''),('loop.go','''	l.invokeClient.cancelAllInvokes()
''','''	l.invokeClient.cancelAllInvokes(err)
''')]
demo='''
package signalr_test

import (
	"testing"
	"time"
)

func TestSeeded(t *testing.T) {
	client, p, cancel := connect(t)
	defer cancel()
	p.read()
	stream := client.PullStream("numbers")
	f := p.next(10 * time.Second)
	if f == nil || f["type"] != 4.0 {
		t.Fatalf("expected a stream invocation, got %v", f)
	}
	id := f["invocationId"].(string)
	p.send(`{"type":2,"invocationId":"`+id+`","item":1}`, `{"type":2,"invocationId":"`+id+`","item":2}`)
	for i := 1.0; i <= 2; i++ {
		if r := <-stream; r.Value != i {
			t.Fatalf("expected item %v, got %v", i, r)
		}
	}
	p.send(`{"type":7}`)
	failed := false
	after := time.After(10 * time.Second)
	for {
		select {
		case r, ok := <-stream:
			if !ok {
				if !failed {
					t.Fatal("the stream was truncated without an error")
				}
				return
			}
			failed = failed || r.Error != nil
		case <-after:
			t.Fatal("stream does not end")
		}
	}
}
'''
