package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"path"
	"strconv"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/redis/go-redis/v9"
)

// fakeRedis is a small in-process server for the commands the shared cache
// store uses. Behaviour of each command can be overridden by hook.
type fakeRedis struct {
	mu    sync.Mutex
	ln    net.Listener
	data  map[string]string
	ttl   map[string]time.Time
	now   func() time.Time
	conns map[net.Conn]bool
	// hook may return a raw reply (and true) instead of normal processing; a
	// nil reply closes the connection.
	hook func(cmd []string) ([]byte, bool)
	log  []string
}

func newFakeRedis() *fakeRedis {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	r := &fakeRedis{ln: ln, data: map[string]string{}, ttl: map[string]time.Time{}, now: time.Now, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			r.mu.Lock()
			r.conns[c] = true
			r.mu.Unlock()
			go r.serve(c)
		}
	}()
	return r
}

func (r *fakeRedis) close() {
	r.ln.Close()
	r.mu.Lock()
	for c := range r.conns {
		c.Close()
	}
	r.mu.Unlock()
}

func readCmd(br *bufio.Reader) ([]string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	l = strings.TrimSpace(l)
	if !strings.HasPrefix(l, "*") {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimSpace(l)[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (r *fakeRedis) serve(c net.Conn) {
	defer func() {
		c.Close()
		r.mu.Lock()
		delete(r.conns, c)
		r.mu.Unlock()
	}()
	br := bufio.NewReader(c)
	for {
		cmd, err := readCmd(br)
		if err != nil {
			return
		}
		r.mu.Lock()
		rep := r.handle(cmd)
		r.mu.Unlock()
		if rep == nil {
			return
		}
		if _, err := c.Write(rep); err != nil {
			return
		}
	}
}

func (r *fakeRedis) handle(cmd []string) []byte {
	name := strings.ToUpper(cmd[0])
	r.log = append(r.log, name)
	if r.hook != nil {
		if rep, ok := r.hook(cmd); ok {
			return rep
		}
	}
	alive := func(k string) bool {
		if _, ok := r.data[k]; !ok {
			return false
		}
		t, ok := r.ttl[k]
		return !ok || r.now().Before(t)
	}
	switch name {
	case "HELLO":
		return []byte("-ERR unknown command 'hello'\r\n")
	case "CLIENT", "SELECT", "PING":
		return []byte("+OK\r\n")
	case "GET":
		if !alive(cmd[1]) {
			return []byte("$-1\r\n")
		}
		return []byte(bulk(r.data[cmd[1]]))
	case "SET":
		r.data[cmd[1]] = cmd[2]
		delete(r.ttl, cmd[1])
		for i := 3; i+1 < len(cmd); i++ {
			n, _ := strconv.ParseInt(cmd[i+1], 10, 64)
			switch strings.ToUpper(cmd[i]) {
			case "EX":
				r.ttl[cmd[1]] = r.now().Add(time.Duration(n) * time.Second)
			case "PX":
				r.ttl[cmd[1]] = r.now().Add(time.Duration(n) * time.Millisecond)
			}
		}
		return []byte("+OK\r\n")
	case "DEL":
		n := 0
		for _, k := range cmd[1:] {
			if alive(k) {
				n++
			}
			delete(r.data, k)
		}
		return []byte(fmt.Sprintf(":%d\r\n", n))
	case "SCAN":
		pat := "*"
		for i := 2; i+1 < len(cmd); i += 2 {
			if strings.ToUpper(cmd[i]) == "MATCH" {
				pat = cmd[i+1]
			}
		}
		var ks []string
		for k := range r.data {
			if ok, _ := path.Match(strings.ReplaceAll(pat, "/", "_"), strings.ReplaceAll(k, "/", "_")); ok && alive(k) {
				ks = append(ks, k)
			}
		}
		ks = sorted(ks)
		// Two keys per round, to exercise the cursor.
		cur, _ := strconv.Atoi(cmd[1])
		end := cur + 2
		next := end
		if end >= len(ks) {
			end, next = len(ks), 0
		}
		if cur > len(ks) {
			cur = len(ks)
		}
		s := fmt.Sprintf("*2\r\n%s*%d\r\n", bulk(strconv.Itoa(next)), end-cur)
		for _, k := range ks[cur:end] {
			s += bulk(k)
		}
		return []byte(s)
	case "DBSIZE":
		n := 0
		for k := range r.data {
			if alive(k) {
				n++
			}
		}
		return []byte(fmt.Sprintf(":%d\r\n", n))
	}
	return []byte("-ERR unknown command\r\n")
}

func (r *fakeRedis) options() redis.Options {
	return redis.Options{Addr: r.ln.Addr().String(), DisableIndentity: true, MaxRetries: -1}
}

type redisStore struct{ srv *fakeRedis }

func newRedisStore() *redisStore { return &redisStore{newFakeRedis()} }

func (s *redisStore) open(up rdns.Resolver, opt rdns.CacheOptions) *rdns.Cache {
	opt.Backend = rdns.NewRedisBackend(rdns.RedisBackendOptions{RedisOptions: s.srv.options(), KeyPrefix: "p:", SyncSet: true})
	return rdns.NewCache("c", up, opt)
}

func (s *redisStore) reopen(up rdns.Resolver, opt rdns.CacheOptions) *rdns.Cache {
	return s.open(up, opt)
}

func (s *redisStore) close() { s.srv.close() }
