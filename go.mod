module verif

go 1.25.0

require (
	github.com/cenkalti/backoff/v4 v4.3.0
	github.com/coder/websocket v1.8.15
	github.com/go-chi/chi/v5 v5.3.1
	github.com/go-kit/log v0.2.1
	github.com/google/uuid v1.6.0
	github.com/gorilla/mux v1.8.1
	github.com/julienschmidt/httprouter v1.3.0
	github.com/philippseith/signalr v0.11.0
	github.com/philippseith/signalr/ext v0.0.0
	github.com/philippseith/signalr/router v0.0.0
	github.com/redis/go-redis/v9 v9.22.0
	github.com/vmihailenco/msgpack/v5 v5.4.1
)

require (
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/dunglas/httpsfv v1.1.0 // indirect
	github.com/go-logfmt/logfmt v0.6.1 // indirect
	github.com/quic-go/qpack v0.6.0 // indirect
	github.com/quic-go/quic-go v0.61.0 // indirect
	github.com/quic-go/webtransport-go v0.12.0 // indirect
	github.com/teivah/onecontext v1.3.0 // indirect
	github.com/vmihailenco/tagparser/v2 v2.0.0 // indirect
	go.uber.org/atomic v1.11.0 // indirect
	golang.org/x/crypto v0.54.0 // indirect
	golang.org/x/net v0.57.0 // indirect
	golang.org/x/sys v0.47.0 // indirect
	golang.org/x/text v0.40.0 // indirect
)

replace github.com/philippseith/signalr => /repo

replace github.com/philippseith/signalr/ext => /repo/ext

replace github.com/philippseith/signalr/router => /repo/router
