// Package fakes holds in-process brokers that speak enough of the NATS and the
// Redis protocol for the message buses, over net.Pipe, so that they run inside
// a synctest bubble under its fake clock.
package fakes

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// outbox is an unbounded queue of writes to a connection, sent in order by one
// goroutine, each not before its time.
type outbox struct {
	mu     sync.Mutex
	queue  []outMsg
	wake   chan struct{}
	done   chan struct{}
	closed bool
	last   time.Time
}

type outMsg struct {
	at time.Time
	b  []byte
}

func newOutbox(c net.Conn) *outbox {
	o := &outbox{wake: make(chan struct{}, 1), done: make(chan struct{})}
	go func() {
		for {
			o.mu.Lock()
			var m outMsg
			ok := len(o.queue) > 0
			if ok {
				m = o.queue[0]
				o.queue[0] = outMsg{}
				o.queue = o.queue[1:]
			}
			o.mu.Unlock()
			if !ok {
				select {
				case <-o.wake:
					continue
				case <-o.done:
					return
				}
			}
			if d := time.Until(m.at); d > 0 {
				t := time.NewTimer(d)
				select {
				case <-t.C:
				case <-o.done:
					t.Stop()
					return
				}
			}
			if _, err := c.Write(m.b); err != nil {
				return
			}
		}
	}()
	return o
}

func (o *outbox) send(b []byte, after time.Duration) {
	o.mu.Lock()
	at := time.Now().Add(after)
	if at.Before(o.last) {
		at = o.last
	}
	o.last = at
	o.queue = append(o.queue, outMsg{at, b})
	o.mu.Unlock()
	select {
	case o.wake <- struct{}{}:
	default:
	}
}

func (o *outbox) close() {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.closed {
		o.closed = true
		close(o.done)
	}
}

// Nats is a NATS server.
type Nats struct {
	// Latency, when set, is asked for the delay of each delivery to a client.
	Latency func() time.Duration
	// PickQueue, when set, picks the member of a queue group, of n, that gets a message.
	PickQueue func(n int) int
	Yield     int // how often to yield before reading a command

	mu    sync.Mutex
	conns map[*natsConn]struct{}
	seq   int
	rr    int
	Pubs  int
}

type natsSub struct {
	conn    *natsConn
	subject string
	queue   string
	sid     string
	order   int
}

type natsConn struct {
	s    *Nats
	c    net.Conn
	out  *outbox
	subs map[string]*natsSub
}

func NewNats() *Nats {
	return &Nats{conns: map[*natsConn]struct{}{}}
}

// InProcessConn is used by nats.InProcessServer.
func (s *Nats) InProcessConn() (net.Conn, error) {
	a, b := net.Pipe()
	nc := &natsConn{s: s, c: b, out: newOutbox(b), subs: map[string]*natsSub{}}
	s.mu.Lock()
	s.conns[nc] = struct{}{}
	s.mu.Unlock()
	info, _ := json.Marshal(map[string]any{
		"server_id": "fake", "server_name": "fake", "version": "2.10.0", "proto": 1,
		"go": "go1.21", "host": "127.0.0.1", "port": 4222, "max_payload": 64 << 20, "headers": true, "client_id": 1,
	})
	nc.out.send([]byte("INFO "+string(info)+"\r\n"), 0)
	go nc.serve()
	return a, nil
}

func yield(n int) {
	for range n {
		runtime.Gosched()
	}
}

// Subscriptions counts the live subscriptions, over all connections.
func (s *Nats) Subscriptions() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for c := range s.conns {
		n += len(c.subs)
	}
	return n
}

// Subjects lists the subjects of the live subscriptions.
func (s *Nats) Subjects() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]int{}
	for c := range s.conns {
		for _, x := range c.subs {
			m[x.subject]++
		}
	}
	return m
}

// CloseAll drops every connection.
func (s *Nats) CloseAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.c.Close()
	}
}

func (c *natsConn) serve() {
	defer func() {
		c.s.mu.Lock()
		delete(c.s.conns, c)
		c.s.mu.Unlock()
		c.c.Close()
		c.out.close()
	}()
	r := bufio.NewReader(c.c)
	for {
		yield(c.s.Yield)
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		op, args, _ := strings.Cut(line, " ")
		f := strings.Fields(args)
		switch strings.ToUpper(op) {
		case "CONNECT", "PONG":
		case "PING":
			c.out.send([]byte("PONG\r\n"), 0)
		case "SUB":
			sub := &natsSub{conn: c, subject: f[0], sid: f[len(f)-1]}
			if len(f) == 3 {
				sub.queue = f[1]
			}
			c.s.mu.Lock()
			c.s.seq++
			sub.order = c.s.seq
			c.subs[sub.sid] = sub
			c.s.mu.Unlock()
		case "UNSUB":
			c.s.mu.Lock()
			delete(c.subs, f[0])
			c.s.mu.Unlock()
		case "PUB":
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil {
				return
			}
			buf := make([]byte, n+2)
			if _, err = io.ReadFull(r, buf); err != nil {
				return
			}
			c.s.publish(f[0], buf[:n])
		default:
			c.out.send([]byte("-ERR 'Unknown Protocol Operation'\r\n"), 0)
			return
		}
	}
}

func subjectMatch(pattern, subject string) bool {
	p, s := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i := range p {
		if p[i] == ">" {
			return len(s) > i
		}
		if i >= len(s) || (p[i] != "*" && p[i] != s[i]) {
			return false
		}
	}
	return len(p) == len(s)
}

func (s *Nats) publish(subject string, payload []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Pubs++
	var plain []*natsSub
	groups := map[string][]*natsSub{}
	for c := range s.conns {
		for _, sub := range c.subs {
			if !subjectMatch(sub.subject, subject) {
				continue
			}
			if sub.queue == "" {
				plain = append(plain, sub)
			} else {
				groups[sub.subject+" "+sub.queue] = append(groups[sub.subject+" "+sub.queue], sub)
			}
		}
	}
	for _, g := range groups {
		// map iteration is random: order by subscription
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				if g[j].order < g[i].order {
					g[i], g[j] = g[j], g[i]
				}
			}
		}
		s.rr++
		k := s.rr
		if s.PickQueue != nil {
			k = s.PickQueue(len(g))
		}
		plain = append(plain, g[((k%len(g))+len(g))%len(g)])
	}
	for _, sub := range plain {
		var d time.Duration
		if s.Latency != nil {
			d = s.Latency()
		}
		b := append([]byte(fmt.Sprintf("MSG %s %s %d\r\n", subject, sub.sid, len(payload))), payload...)
		sub.conn.out.send(append(b, '\r', '\n'), d)
	}
}

var errRefused = errors.New("connection refused")
