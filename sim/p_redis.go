package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-kit/log"
	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/ext"
)

func init() {
	register(&Scenario{Prop: "C17", Name: "backplane", Weight: 1, Gen: genBackplane, Run: runBackplane,
		Real: []string{"server", "hub clients", "groups", "redis lifetime manager", "go-redis client", "netConnection", "hub protocols"},
		Stub: []string{"TCP stream", "redis server", "clients (scripted)"}})
}

var foreign = []string{
	``, `null`, `{}`, `[]`, `"x"`, `{"t":"OnForeign","a":[1,"x"]}`, `{"t":"OnForeign"}`, `{"t":5}`, `{"t":"OnForeign","a":{}}`,
	`{"t":"OnForeign","a":[1e999]}`, `{"t":"OnForeign","a":[{"x":[1e400]}]}`, `{"t":"OnForeign","a":[1],"c":"nobody"}`, `{"t":"OnForeign","a":[1],"g":"nogroup"}`,
	`{"t":"OnForeign","a":[1],"e":["x",null]}`, `{"t":"OnForeign","a":[1],"e":"x"}`, `{"t":"OnForeign","a":[1],"g":"g0","s":"y"}`, "\x00\xff\xfe", `{"t":"OnForeign","a":[[[[[[[[[]]]]]]]]]}`,
	`{"t":"OnForeign","a":[1]} trailing`,
}

func genBackplane(r *Rand) *Plan {
	p := &Plan{Cfg: map[string]int{}}
	p.schedule(r)
	p.network(r)
	p.calm()
	p.Cfg["percon"] = r.b(25)
	p.Cfg["style"] = r.n(16)
	p.Cfg["servers"] = r.pick(1, 2, 2, 3)
	p.Cfg["clients"] = r.in(2, 5)
	p.Cfg["mixed"] = r.n(4)
	p.Cfg["gnames"] = r.n(4)
	p.Cfg["early"] = r.b(15) // redis is not available when the servers start
	span := r.pick(3000, 300000, 60000000, 200000000)
	pick := func(v ...string) string { return v[r.n(len(v))] }
	n := r.in(2, 24)
	for i := 0; i < n; i++ {
		op := Op{T: int64(r.n(span)), A: r.n(p.Cfg["clients"]), X: r.n(p.Cfg["clients"]), Y: r.n(3), Z: r.n(2)}
		switch r.n(12) {
		case 0, 1, 2:
			op.K = "join"
		case 3:
			op.K = pick("leave", "leaveother", "joinother", "joinother")
		case 4:
			op.K = pick("all", "out-all")
		case 5, 6, 7:
			op.K = pick("group", "out-group")
		case 8:
			op.K = pick("client", "out-client")
		case 9:
			op.K = pick("caller", "join", "stuck")
		case 10:
			op.K = "end"
			op.S = endKinds[r.n(len(endKinds))]
		case 11:
			op.K = pick("all", "group", "foreign", "foreign", "client")
		}
		if op.K == "foreign" {
			op.Y = r.n(len(foreign))
		}
		if op.K != "end" {
			op.S = pick("", "", "bare", "big", "val", "list", "uint", "deep", "long")
		}
		p.Ops = append(p.Ops, op)
	}
	if r.p(50) {
		for i := r.in(1, 2); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: "fault", S: pick("down", "hang", "reset", "reset-some", "server", "dead"), T: int64(r.n(span)), X: r.pick(1, 100, 2000, 10000, 40000), A: r.n(8)})
		}
	}
	return p
}

// window is a time in which redis, or a server, does not work.
type window struct{ from, to int64 }

func runBackplane(e *Env) {
	w := newWorld(e)
	p := e.plan
	rs := newSimRedis(e, w.cfg)
	ns, nc := p.c("servers"), p.c("clients")
	const never = int64(1) << 60
	const settle, recover = 10 * time.Second, 90 * time.Second
	var wmu sync.Mutex
	var wins []*window
	open := func() func() {
		x := &window{e.us(), never}
		wmu.Lock()
		wins = append(wins, x)
		wmu.Unlock()
		return func() {
			wmu.Lock()
			x.to = e.us()
			wmu.Unlock()
		}
	}
	disturbed := func(from int64) bool {
		wmu.Lock()
		defer wmu.Unlock()
		for _, x := range wins {
			if from < x.to+int64(recover/time.Microsecond) {
				return true
			}
		}
		return false
	}
	w.settle = func(s *span, end func()) {
		if s.kind == "join" || s.kind == "leave" {
			if !disturbed(s.us) {
				end()
			}
			return
		}
		go func() {
			time.Sleep(settle)
			if disturbed(s.us) {
				w.mu.Lock()
				s.shaky = true
				w.mu.Unlock()
				return
			}
			end()
		}()
	}
	var mu sync.Mutex
	srvs := make([]signalr.Server, ns)
	stops := make([]context.CancelFunc, ns)
	busy := make([]chan struct{}, ns) // held while a connection is made or the server is replaced
	for i := range busy {
		busy[i] = make(chan struct{}, 1)
	}
	made := 0
	startServer := func(i int) {
		ctx, cancel := context.WithCancel(w.ctx)
		made++
		s := w.server(ctx, i, signalr.TimeoutInterval(10000*time.Second), signalr.KeepAliveInterval(4000*time.Second),
			ext.WithRedisHubLifetimeManager(rs.client(fmt.Sprintf("srv%d.%d", i, made)), log.NewNopLogger()))
		mu.Lock()
		srvs[i], stops[i] = s, cancel
		mu.Unlock()
	}
	srvOf := func(i int) signalr.Server {
		mu.Lock()
		defer mu.Unlock()
		return srvs[i%ns]
	}
	if p.b("early") {
		e.fault("redis-late")
		rs.setDown(true)
		closeWin := open()
		for i := range srvs {
			startServer(i)
		}
		time.Sleep(3 * time.Second)
		rs.setDown(false)
		closeWin()
	} else {
		for i := range srvs {
			startServer(i)
		}
		time.Sleep(5 * time.Second)
	}
	proto := func(i int) string {
		if (p.c("mixed")+i)%2 == 0 {
			return "json"
		}
		return "messagepack"
	}
	var members []*member
	cur := make([]*member, nc)
	for i := 0; i < nc; i++ {
		m := w.connect(srvOf(i), i, proto(i))
		if m == nil {
			return
		}
		members = append(members, m)
		cur[i] = m
	}
	get := func(i int) *member {
		mu.Lock()
		defer mu.Unlock()
		return cur[i]
	}
	// replace takes the member m out, and connects its client again
	replace := func(i int, m *member, reconnect bool) {
		mu.Lock()
		was := cur[i]
		if was == m {
			cur[i] = nil
		}
		mu.Unlock()
		if was != m || !reconnect {
			return
		}
		busy[i%ns] <- struct{}{}
		defer func() { <-busy[i%ns] }()
		if m := w.connect(srvOf(i), i, proto(i)); m != nil {
			mu.Lock()
			members = append(members, m)
			cur[i] = m
			mu.Unlock()
		}
	}
	stuck := false
	base := e.us()
	perActor := make([][]Op, nc+3)
	ops := append([]Op(nil), p.Ops...)
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].T < ops[b].T })
	for i := range ops {
		a := ops[i].A % nc
		op := ops[i]
		op.L = []int{i + 1}
		switch {
		case strings.HasPrefix(op.K, "out-"):
			a = nc
		case op.K == "fault":
			a = nc + 1
		case op.K == "foreign":
			a = nc + 2
		}
		perActor[a] = append(perActor[a], op)
	}
	var wg sync.WaitGroup
	for a := range perActor {
		wg.Add(1)
		go func(a int, ops []Op) {
			defer wg.Done()
			for _, op := range ops {
				e.sleepUntilUs(base + op.T)
				tag := op.L[0]
				g := groupName(p, op.Y)
				otherID := "nobody"
				if op.S == "bare" {
					otherID = ""
				}
				if other := get(op.X % nc); other != nil && !(op.S == "bare" && op.Z == 1) {
					otherID = other.id
				}
				method, args := "", []any{tag}
				if strings.HasPrefix(op.K, "out-") {
					method, args = w.toOut(op, tag)
				}
				s := srvOf(op.A)
				switch op.K {
				case "fault":
					e.fault("redis-" + op.S)
					closeWin := open()
					switch op.S {
					case "down":
						rs.setDown(true)
						time.Sleep(ms(op.X))
						rs.setDown(false)
					case "hang":
						rs.setHang(true)
						time.Sleep(ms(op.X))
						rs.setHang(false)
					case "reset":
						rs.reset(0)
					case "dead":
						lost := rs.loseConns()
						time.Sleep(ms(op.X))
						lost() // the system gives them up
					case "reset-some":
						rs.reset(1 + op.A%2)
					case "server":
						// the server ends with all its connections, another one takes its place
						i := op.A % ns
						gone := map[int]*member{}
						busy[i] <- struct{}{}
						mu.Lock()
						for k, m := range cur {
							if m != nil && k%ns == i {
								m.leaving()
								gone[k] = m
							}
						}
						stop := stops[i]
						mu.Unlock()
						stop()
						time.Sleep(time.Second)
						startServer(i)
						time.Sleep(5 * time.Second)
						<-busy[i]
						for k := 0; k < nc; k++ {
							if m := gone[k]; m != nil {
								replace(k, m, true)
							}
						}
					}
					closeWin()
					continue
				case "foreign":
					e.fault("redis-foreign")
					ch := "signalr:all"
					if op.X == 1 {
						ch = "signalr:group:g0"
					} else if op.X == 2 {
						ch = "signalr:group:"
					}
					rs.publish(ch, foreign[op.Y%len(foreign)])
					continue
				case "out-all":
					done := w.span("all", "", "", tag)
					s.HubClients().All().Send(method, args...)
					done()
					continue
				case "out-group":
					done := w.span("group", "", g, tag)
					s.HubClients().Group(g).Send(method, args...)
					done()
					continue
				case "out-client":
					done := w.span("client", otherID, "", tag)
					s.HubClients().Client(otherID).Send(method, args...)
					done()
					continue
				}
				m := get(a)
				if m == nil {
					continue
				}
				switch op.K {
				case "join":
					method, args = "Join", append(args, g)
				case "leave":
					method, args = "Leave", append(args, g)
				case "joinother":
					method, args = "JoinOther", append(args, g, otherID)
				case "leaveother":
					method, args = "LeaveOther", append(args, g, otherID)
				case "all":
					method = "ToAll"
				case "caller":
					method = "ToCaller"
				case "client":
					method, args = "ToClient", append(args, otherID)
				case "group":
					method, args = "ToGroup", append(args, g)
				case "stuck":
					m.peer.pause(1000 * time.Second)
					e.fault("receiver-stuck")
					mu.Lock()
					m.stuck = true
					stuck = true
					mu.Unlock()
					continue
				case "end":
					m.end(op.S)
					replace(a, m, op.Z == 1)
					continue
				default:
					continue
				}
				if op.Z == 1 && !m.stuck {
					m.call(method, 10*time.Second, args...)
				} else {
					_ = m.peer.send(Msg{Type: mInvoke, Target: method, Args: args})
				}
			}
		}(a, perActor[a])
	}
	wg.Wait()
	time.Sleep(settle + time.Second)
	for disturbed(e.us() - 1) {
		time.Sleep(5 * time.Second)
	}
	if stuck {
		// the others do not notice
		for i := 0; i < 4*ns; i++ {
			for k := range cur {
				if m := get(k); m != nil {
					tag := 2000 + i*nc + k
					method, args := w.toOut(Op{S: "long"}, tag)
					done := w.span("client", m.id, "", tag)
					srvOf(i).HubClients().Client(m.id).Send(method, args...)
					done()
				}
			}
			tag := 3000 + i
			method, args := w.toOut(Op{S: "long"}, tag)
			done := w.span("all", "", "", tag)
			srvOf(i).HubClients().All().Send(method, args...)
			done()
			tag += 100
			g := groupName(p, i)
			method, args = w.toOut(Op{S: "long"}, tag)
			done = w.span("group", "", g, tag)
			srvOf(i).HubClients().Group(g).Send(method, args...)
			done()
		}
		time.Sleep(settle + time.Second)
		w.checkTargets(members, false)
		for _, m := range members {
			m.peer.pause(0)
		}
		time.Sleep(10 * time.Second)
	}
	// everything works again: all connections join a group and every server
	// sends to all of them, to each of them and to the group
	tag := 1000
	for i := range cur {
		if m := get(i); m != nil {
			tag++
			if c := m.call("Join", time.Minute, tag, "final"); c.Err != "" {
				e.fail("backplane-join", "Join of client %d was answered with %v", i, c)
			}
		}
	}
	for i := 0; i < ns; i++ {
		s := srvOf(i)
		tag++
		done := w.span("all", "", "", tag)
		s.HubClients().All().Send("OnMsg", tag, "final")
		done()
		tag++
		done = w.span("group", "", "final", tag)
		s.HubClients().Group("final").Send("OnMsg", tag, "final")
		done()
		for k := range cur {
			if m := get(k); m != nil {
				tag++
				done = w.span("client", m.id, "", tag)
				s.HubClients().Client(m.id).Send("OnMsg", tag, "final")
				done()
			}
		}
	}
	time.Sleep(2*settle + time.Second)
	w.checkTargets(members, true)
	// none of the connections was harmed
	for k := range cur {
		if m := get(k); m != nil {
			if c := m.call("Echo", time.Minute, 5000+k, "alive"); c.Err != "" || c.Result != "alive" {
				e.fail("backplane-harmed", "the connection of client %d does not work anymore: %v", k, c)
			}
		}
	}
	e.count("connections", len(members))
}
