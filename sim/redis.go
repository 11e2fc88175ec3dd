package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/redis/go-redis/v9"
)

// simRedis is a redis server with sets and publish/subscribe, reached over
// the simulated network.
type simRedis struct {
	e     *Env
	cfg   netCfg
	mu    sync.Mutex
	sets  map[string]map[string]bool
	conns []*redisConn
	down  bool // refuses connections
	hang  bool // accepts connections and is silent
	n     int
}

type redisConn struct {
	s          *simRedis
	srv, cli   *simConn
	mu         sync.Mutex
	out        []string
	wake, done chan struct{}
	chans      map[string]bool
	patterns   map[string]bool
	name       string
	subscribed bool
	dead       bool // nothing gets through any more
}

func newSimRedis(e *Env, cfg netCfg) *simRedis {
	return &simRedis{e: e, cfg: cfg, sets: map[string]map[string]bool{}}
}

// client makes a client of the kind a server of the backplane uses.
func (s *simRedis) client(name string) *redis.Client {
	c := redis.NewClient(&redis.Options{Addr: "redis:6379", Protocol: 2, DisableIdentity: true,
		PoolSize: 3, // fewer than the attempts of a command: broken idle connections are not recognised without a real socket
		Dialer:   func(ctx context.Context, network, addr string) (net.Conn, error) { return s.dial(ctx, name) }})
	s.e.cleanup(func() { _ = c.Close() })
	return c
}

func (s *simRedis) dial(ctx context.Context, name string) (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.down {
		return nil, errors.New("dial tcp redis:6379: connection refused")
	}
	s.n++
	name = fmt.Sprintf("%s-redis%d", name, s.n)
	a, b := newStream(s.e, s.cfg, name, "redis")
	c := &redisConn{s: s, srv: b, cli: a, wake: make(chan struct{}, 1), done: make(chan struct{}), chans: map[string]bool{}, patterns: map[string]bool{}, name: name}
	s.conns = append(s.conns, c)
	if s.hang {
		a.Hold(true)
		b.Hold(true)
	}
	go c.writer()
	go c.reader()
	return a, nil
}

// setHang makes the server silent, or lets it go on.
func (s *simRedis) setHang(on bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hang = on
	for _, c := range s.conns {
		c.cli.Hold(on || c.dead)
		c.srv.Hold(on || c.dead)
	}
}

// loseConns makes all connections dead without a sign of it, as when a
// firewall forgets them; new ones work. The result ends them.
func (s *simRedis) loseConns() func() {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := append([]*redisConn(nil), s.conns...)
	for _, c := range s.conns {
		c.dead = true
		c.cli.Hold(true)
		c.srv.Hold(true)
	}
	return func() {
		for _, c := range l {
			c.cli.Reset()
		}
	}
}

// setDown stops the server, or starts it again; the sets survive.
func (s *simRedis) setDown(on bool) {
	s.mu.Lock()
	s.down = on
	s.mu.Unlock()
	if on {
		s.reset(-1)
	}
}

// reset breaks all connections, or every n-th.
func (s *simRedis) reset(n int) {
	s.mu.Lock()
	l := append([]*redisConn(nil), s.conns...)
	s.mu.Unlock()
	for i, c := range l {
		if n <= 0 || i%2 == n%2 {
			c.cli.Reset()
		}
	}
}

func (c *redisConn) send(text string) {
	c.mu.Lock()
	c.out = append(c.out, text)
	c.mu.Unlock()
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *redisConn) writer() {
	for {
		select {
		case <-c.wake:
		case <-c.done:
			return
		}
		c.mu.Lock()
		text := strings.Join(c.out, "")
		c.out = nil
		c.mu.Unlock()
		if text == "" {
			continue
		}
		if _, err := c.srv.Write([]byte(text)); err != nil {
			return
		}
	}
}

func (c *redisConn) reader() {
	r := bufio.NewReader(c.srv)
	defer func() {
		_ = c.srv.Close()
		c.s.mu.Lock()
		for i, x := range c.s.conns {
			if x == c {
				c.s.conns = append(c.s.conns[:i:i], c.s.conns[i+1:]...)
				break
			}
		}
		c.s.mu.Unlock()
		close(c.done)
	}()
	for {
		args, err := readRESP(r)
		if err != nil {
			return
		}
		if len(args) > 0 {
			c.send(c.s.exec(c, args))
		}
	}
}

func readLine(r *bufio.Reader) (string, error) {
	l, err := r.ReadString('\n')
	return strings.TrimSuffix(l, "\r\n"), err
}

func readRESP(r *bufio.Reader) ([]string, error) {
	l, err := readLine(r)
	if err != nil {
		return nil, err
	}
	if len(l) == 0 || l[0] != '*' {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil || n < 0 || n > 10000 {
		return nil, fmt.Errorf("bad array %q", l)
	}
	var args []string
	for i := 0; i < n; i++ {
		l, err := readLine(r)
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimPrefix(l, "$"))
		if err != nil || k < 0 || k > 1<<24 {
			return nil, fmt.Errorf("bad bulk %q", l)
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

func bulk(s string) string    { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func integer(n int) string    { return fmt.Sprintf(":%d\r\n", n) }
func array(l []string) string { return fmt.Sprintf("*%d\r\n%s", len(l), strings.Join(l, "")) }

// publish delivers a message to the subscribers.
func (s *simRedis) publish(channel, payload string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.publishLocked(channel, payload)
}

func (s *simRedis) publishLocked(channel, payload string) int {
	n := 0
	for _, c := range s.conns {
		if c.chans[channel] {
			c.send(array([]string{bulk("message"), bulk(channel), bulk(payload)}))
			n++
		}
		var ps []string
		for p := range c.patterns {
			if ok, _ := path.Match(p, channel); ok {
				ps = append(ps, p)
			}
		}
		sort.Strings(ps)
		for _, p := range ps {
			c.send(array([]string{bulk("pmessage"), bulk(p), bulk(channel), bulk(payload)}))
			n++
		}
	}
	return n
}

// exec executes a command.
func (s *simRedis) exec(c *redisConn, args []string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.e.log("redis %s: %s", c.name, trunc(strings.Join(args, " "), 160))
	const ok = "+OK\r\n"
	few := "-ERR wrong number of arguments\r\n"
	set := func() map[string]bool {
		if s.sets[args[1]] == nil {
			s.sets[args[1]] = map[string]bool{}
		}
		return s.sets[args[1]]
	}
	switch cmd := strings.ToUpper(args[0]); cmd {
	case "PING":
		if c.subscribed {
			return array([]string{bulk("pong"), bulk(strings.Join(args[1:], ""))})
		}
		if len(args) > 1 {
			return bulk(args[1])
		}
		return "+PONG\r\n"
	case "CLIENT", "SELECT", "AUTH", "RESET", "QUIT", "MULTI":
		return ok
	case "PSUBSCRIBE", "SUBSCRIBE", "PUNSUBSCRIBE", "UNSUBSCRIBE":
		m := c.chans
		if cmd[0] == 'P' {
			m = c.patterns
		}
		l := args[1:]
		if len(l) == 0 && strings.Contains(cmd, "UNSUB") {
			for _, k := range sortedKeys(m) {
				l = append(l, k)
			}
			if len(l) == 0 {
				return array([]string{bulk(strings.ToLower(cmd)), "$-1\r\n", integer(len(c.chans) + len(c.patterns))})
			}
		}
		text := ""
		for _, k := range l {
			if strings.Contains(cmd, "UNSUB") {
				delete(m, k)
			} else {
				m[k] = true
			}
			text += array([]string{bulk(strings.ToLower(cmd)), bulk(k), integer(len(c.chans) + len(c.patterns))})
		}
		c.subscribed = len(c.chans)+len(c.patterns) > 0
		return text
	case "PUBLISH":
		if len(args) != 3 {
			return few
		}
		return integer(s.publishLocked(args[1], args[2]))
	case "SADD", "SREM":
		if len(args) < 3 {
			return few
		}
		n := 0
		for _, m := range args[2:] {
			if set()[m] != (cmd == "SADD") {
				n++
			}
			if cmd == "SADD" {
				set()[m] = true
			} else {
				delete(set(), m)
			}
		}
		return integer(n)
	case "SISMEMBER", "SMISMEMBER":
		if len(args) < 3 {
			return few
		}
		var l []string
		for _, m := range args[2:] {
			n := 0
			if set()[m] {
				n = 1
			}
			l = append(l, integer(n))
		}
		if cmd == "SISMEMBER" {
			return l[0]
		}
		return array(l)
	case "SMEMBERS":
		if len(args) != 2 {
			return few
		}
		var l []string
		for _, m := range sortedKeys(set()) {
			l = append(l, bulk(m))
		}
		return array(l)
	case "SCARD":
		if len(args) != 2 {
			return few
		}
		return integer(len(set()))
	case "EXISTS", "DEL":
		n := 0
		for _, k := range args[1:] {
			if len(s.sets[k]) > 0 {
				n++
			}
			if cmd == "DEL" {
				delete(s.sets, k)
			}
		}
		return integer(n)
	case "EXPIRE", "PEXPIRE", "PERSIST":
		return integer(1)
	}
	return fmt.Sprintf("-ERR unknown command '%s'\r\n", args[0])
}
