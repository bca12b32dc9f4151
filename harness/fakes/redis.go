package fakes

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"
)

// Redis is a Redis server: publish, subscribe and SET NX with an expiry.
type Redis struct {
	Latency func() time.Duration // of deliveries
	Yield   int                  // how often to yield before reading a command
	// Fail, when set, may answer a command with an error ("" = none).
	Fail func(cmd []string) string
	// Refuse, when set, says whether a dial is refused.
	Refuse func() bool

	mu        sync.Mutex
	conns     map[*redisConn]struct{}
	keys      map[string]time.Time
	Seq       int
	Published int
	SetNX     int
}

type redisConn struct {
	id   int
	s    *Redis
	c    net.Conn
	out  *outbox
	subs map[string]bool
	dead bool
}

func NewRedis() *Redis {
	return &Redis{conns: map[*redisConn]struct{}{}, keys: map[string]time.Time{}}
}

// Client returns a client of the server.
func (s *Redis) Client() *redis.Client {
	return redis.NewClient(&redis.Options{
		Addr: "127.0.0.1:6379", Protocol: 2, DisableIdentity: true, MaxRetries: -1, PoolSize: 64,
		DialerRetries:  1, // it would wait between them holding locks, which stops the fake clock
		ReadBufferSize: 1024, WriteBufferSize: 1024,
		ContextTimeoutEnabled:    true,
		MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled},
		Dialer:                   func(context.Context, string, string) (net.Conn, error) { return s.dial() },
	})
}

func (s *Redis) dial() (net.Conn, error) {
	s.mu.Lock()
	refused := s.Refuse != nil && s.Refuse()
	s.mu.Unlock()
	if refused {
		return nil, errRefused
	}
	a, b := net.Pipe()
	s.mu.Lock()
	s.Seq++
	c := &redisConn{id: s.Seq, s: s, c: b, out: newOutbox(b), subs: map[string]bool{}}
	s.conns[c] = struct{}{}
	s.mu.Unlock()
	go c.serve()
	return a, nil
}

// SetFail sets what fails from now on.
func (s *Redis) SetFail(f func(cmd []string) string) {
	s.mu.Lock()
	s.Fail = f
	s.mu.Unlock()
}

// SetRefuse sets which dials are refused from now on.
func (s *Redis) SetRefuse(f func() bool) {
	s.mu.Lock()
	s.Refuse = f
	s.mu.Unlock()
}

func (s *Redis) fail(cmd []string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Fail == nil {
		return ""
	}
	return s.Fail(cmd)
}

// Kill drops the connections; those with subscriptions only, when subs is set.
func (s *Redis) Kill(subs bool) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for c := range s.conns {
		if !subs || len(c.subs) > 0 {
			c.dead = true
			c.c.Close()
			delete(s.conns, c)
			n++
		}
	}
	return n
}

// Subscribed counts connections subscribed to a channel.
func (s *Redis) Subscribed(channel string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for c := range s.conns {
		if c.subs[channel] {
			n++
		}
	}
	return n
}

// Channels lists subscribed channels.
func (s *Redis) Channels() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]int{}
	for c := range s.conns {
		for ch := range c.subs {
			m[ch]++
		}
	}
	return m
}

func readCmd(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	out := make([]string, 0, n)
	for range n {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimRight(l, "\r\n")[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err = io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (c *redisConn) serve() {
	defer func() {
		c.s.mu.Lock()
		c.dead = true
		delete(c.s.conns, c)
		c.s.mu.Unlock()
		c.c.Close()
		c.out.close()
	}()
	r := bufio.NewReader(c.c)
	for {
		yield(c.s.Yield)
		cmd, err := readCmd(r)
		if err != nil {
			return
		}
		if len(cmd) == 0 {
			continue
		}
		cmd[0] = strings.ToUpper(cmd[0])
		if msg := c.s.fail(cmd); msg == "DROP" {
			return
		} else if msg != "" {
			c.out.send([]byte("-"+msg+"\r\n"), 0)
			continue
		}
		c.s.mu.Lock()
		var rep string
		switch cmd[0] {
		case "SUBSCRIBE":
			for _, ch := range cmd[1:] {
				c.subs[ch] = true
				rep += fmt.Sprintf("*3\r\n%s%s:%d\r\n", bulk("subscribe"), bulk(ch), len(c.subs))
			}
		case "UNSUBSCRIBE":
			for _, ch := range cmd[1:] {
				delete(c.subs, ch)
				rep += fmt.Sprintf("*3\r\n%s%s:%d\r\n", bulk("unsubscribe"), bulk(ch), len(c.subs))
			}
		case "PING":
			if len(c.subs) > 0 {
				arg := ""
				if len(cmd) > 1 {
					arg = cmd[1]
				}
				rep = "*2\r\n" + bulk("pong") + bulk(arg)
			} else {
				rep = "+PONG\r\n"
			}
		case "PUBLISH":
			n := 0
			c.s.Published++
			for o := range c.s.conns {
				if o.subs[cmd[1]] && !o.dead {
					n++
					var d time.Duration
					if c.s.Latency != nil {
						d = c.s.Latency()
					}
					o.out.send([]byte("*3\r\n"+bulk("message")+bulk(cmd[1])+bulk(cmd[2])), d)
				}
			}
			rep = fmt.Sprintf(":%d\r\n", n)
		case "SET", "SETNX":
			nx, exp := cmd[0] == "SETNX", time.Time{}
			for i := 3; i < len(cmd); i++ {
				switch strings.ToUpper(cmd[i]) {
				case "NX":
					nx = true
				case "EX", "PX":
					v, _ := strconv.ParseInt(cmd[i+1], 10, 64)
					u := time.Second
					if strings.ToUpper(cmd[i]) == "PX" {
						u = time.Millisecond
					}
					exp = time.Now().Add(time.Duration(v) * u)
					i++
				}
			}
			old, ok := c.s.keys[cmd[1]]
			held := ok && (old.IsZero() || old.After(time.Now()))
			c.s.SetNX++
			set := !nx || !held
			if set {
				c.s.keys[cmd[1]] = exp
			}
			switch {
			case cmd[0] == "SETNX" && set:
				rep = ":1\r\n"
			case cmd[0] == "SETNX":
				rep = ":0\r\n"
			case set:
				rep = "+OK\r\n"
			default:
				rep = "$-1\r\n"
			}
		case "HELLO":
			rep = "-ERR unknown command 'HELLO'\r\n"
		default:
			rep = "+OK\r\n"
		}
		c.s.mu.Unlock()
		c.out.send([]byte(rep), 0)
	}
}
