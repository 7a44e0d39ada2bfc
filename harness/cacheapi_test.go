package zzverif

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"

	"github.com/go-oidfed/lib/cache"
)

// ---- C24: the cache ----------------------------------------------------------------

// redisModel is a Redis server that understands what a cache needs, with its
// own clock.
type redisModel struct {
	mu   sync.Mutex
	now  time.Duration
	m    map[string]redisEntry
	down bool
	cmds map[string]bool
}

type redisEntry struct {
	v   string
	exp time.Duration // 0: never
}

func (s *redisModel) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		args, err := readRESP(r)
		if err != nil {
			return
		}
		if _, err = io.WriteString(c, s.do(args)); err != nil {
			return
		}
	}
}

func readRESP(r *bufio.Reader) ([]string, error) {
	line := func() (string, error) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err
	}
	l, err := line()
	if err != nil || len(l) < 2 || l[0] != '*' {
		return nil, fmt.Errorf("bad request %q %v", l, err)
	}
	n, _ := strconv.Atoi(l[1:])
	var out []string
	for i := 0; i < n; i++ {
		if l, err = line(); err != nil || len(l) < 2 || l[0] != '$' {
			return nil, fmt.Errorf("bad request %q %v", l, err)
		}
		k, _ := strconv.Atoi(l[1:])
		b := make([]byte, k+2)
		if _, err = io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func (s *redisModel) get(k string) (redisEntry, bool) {
	e, ok := s.m[k]
	if ok && e.exp != 0 && e.exp <= s.now {
		delete(s.m, k)
		ok = false
	}
	return e, ok
}

func (s *redisModel) do(a []string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	cmd := strings.ToUpper(a[0])
	s.cmds[cmd] = true
	bulk := func(e redisEntry, ok bool) string {
		if !ok {
			return "$-1\r\n"
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(e.v), e.v)
	}
	syntax := "-ERR syntax error\r\n"
	switch cmd {
	case "HELLO":
		return "-ERR unknown command 'HELLO'\r\n"
	case "CLIENT", "SELECT":
		return "+OK\r\n"
	case "PING":
		return "+PONG\r\n"
	}
	if s.down {
		return "-LOADING Redis is loading the dataset in memory\r\n"
	}
	unit := func(name string) time.Duration {
		if name == "PX" || name == "PEXPIRE" || name == "PSETEX" {
			return time.Millisecond
		}
		return time.Second
	}
	switch {
	case cmd == "GET" && len(a) == 2:
		return bulk(s.get(a[1]))
	case cmd == "GETDEL" && len(a) == 2:
		r := bulk(s.get(a[1]))
		delete(s.m, a[1])
		return r
	case cmd == "EXISTS":
		n := 0
		for _, k := range a[1:] {
			if _, ok := s.get(k); ok {
				n++
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case cmd == "TTL" || cmd == "PTTL":
		e, ok := s.get(a[1])
		switch {
		case !ok:
			return ":-2\r\n"
		case e.exp == 0:
			return ":-1\r\n"
		case cmd == "TTL":
			return fmt.Sprintf(":%d\r\n", (e.exp-s.now+time.Second/2)/time.Second)
		}
		return fmt.Sprintf(":%d\r\n", (e.exp-s.now)/time.Millisecond)
	case cmd == "DEL" || cmd == "UNLINK":
		n := 0
		for _, k := range a[1:] {
			if _, ok := s.get(k); ok {
				n++
			}
			delete(s.m, k)
		}
		return fmt.Sprintf(":%d\r\n", n)
	case (cmd == "SETEX" || cmd == "PSETEX") && len(a) == 4:
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil || n <= 0 {
			return "-ERR invalid expire time in 'setex' command\r\n"
		}
		s.m[a[1]] = redisEntry{a[3], s.now + time.Duration(n)*unit(cmd)}
		return "+OK\r\n"
	case (cmd == "EXPIRE" || cmd == "PEXPIRE") && len(a) == 3:
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return syntax
		}
		e, ok := s.get(a[1])
		if !ok {
			return ":0\r\n"
		}
		if n <= 0 {
			delete(s.m, a[1])
			return ":1\r\n"
		}
		e.exp = s.now + time.Duration(n)*unit(cmd)
		s.m[a[1]] = e
		return ":1\r\n"
	case cmd == "SET" && len(a) >= 3:
		e := redisEntry{v: a[2]}
		old, had := s.get(a[1])
		for i := 3; i < len(a); i++ {
			switch o := strings.ToUpper(a[i]); o {
			case "EX", "PX":
				if i++; i >= len(a) {
					return syntax
				}
				n, err := strconv.ParseInt(a[i], 10, 64)
				if err != nil || n <= 0 {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				e.exp = s.now + time.Duration(n)*unit(o)
			case "KEEPTTL":
				if had {
					e.exp = old.exp
				}
			case "NX":
				if had {
					return "$-1\r\n"
				}
			case "XX":
				if !had {
					return "$-1\r\n"
				}
			default:
				return syntax
			}
		}
		s.m[a[1]] = e
		return "+OK\r\n"
	}
	return "-ERR unknown command '" + a[0] + "'\r\n"
}

type cacheVal struct {
	S string         `json:"s"`
	L []string       `json:"l"`
	M map[string]any `json:"m"`
	T time.Time
	P *cacheVal
}

func init() {
	ttls := []time.Duration{
		time.Hour, 10 * time.Second, time.Second, 1500 * time.Millisecond, 0, -1, -2, -time.Second, -time.Hour,
	}
	waits := []time.Duration{600 * time.Millisecond, 7 * time.Second, 50 * time.Minute}
	type mEntry struct {
		v   int
		exp time.Duration
	}
	var execs int
	histories := func(depth int, same bool, redisSrv *redisModel) func(c *C) {
		return func(c *C) {
			execs++
			keys := []string{
				cache.EntityStmtCacheKey(fmt.Sprint("https://a", execs), "https://b"), cache.Key(cache.KeyTrustTree, fmt.Sprint("k", execs)),
			}
			ref := map[string]mEntry{}
			var now time.Duration
			down := false
			read := func(k string) bool {
				var got string
				ok, err := cache.Get(k, &got)
				e, want := ref[k]
				want = want && e.exp > now
				ev := fmt.Sprint("value ", e.v)
				if !want {
					ev = ""
				}
				if down {
					// neither known nor to be made up
					if ok && (err == nil) && (!want || got != ev) {
						c.Fail("while the server is down, reading gives %q", got)
						return false
					}
					return true
				}
				if err != nil || ok != want || got != ev {
					c.Fail("reading key %d gives %q, found %v, error %v; should be %q, found %v", indexOf(keys, k), got, ok, err, ev, want)
					return false
				}
				return true
			}
			nv := 0
			for i := 0; i < depth; i++ {
				nOps := 2*len(ttls) + len(waits) + 1
				if redisSrv != nil {
					nOps++
				}
				op := c.Choose(nOps, "op")
				if i == 1 {
					c.Commit()
				}
				switch {
				case op < 2*len(ttls):
					k, ttl := keys[op%2], ttls[op/2]
					if nv++; same {
						nv = 1
					}
					c.labels[len(c.labels)-1] = fmt.Sprintf("set k%d v%d for %v", op%2, nv, ttl)
					err := cache.Set(k, fmt.Sprint("value ", nv), ttl)
					if down {
						if err == nil {
							c.Fail("storing succeeds while the server is down")
							return
						}
						break
					}
					if err != nil {
						c.Fail("storing fails: %v", err)
						return
					}
					ref[k] = mEntry{nv, now + ttl}
				case op < 2*len(ttls)+len(waits):
					d := waits[op-2*len(ttls)]
					c.labels[len(c.labels)-1] = fmt.Sprint("wait ", d)
					now += d
					if redisSrv != nil {
						redisSrv.mu.Lock()
						redisSrv.now += d
						redisSrv.mu.Unlock()
					} else {
						time.Sleep(d)
					}
				case op == 2*len(ttls)+len(waits):
					c.labels[len(c.labels)-1] = "read"
					for _, k := range keys {
						if !read(k) {
							return
						}
					}
				default:
					c.labels[len(c.labels)-1] = "server down or up again"
					down = !down
					redisSrv.mu.Lock()
					redisSrv.down = down
					redisSrv.mu.Unlock()
				}
			}
			c.Commit()
			if redisSrv != nil {
				for _, k := range keys {
					if !read(k) {
						return
					}
				}
				down = false
				redisSrv.mu.Lock()
				redisSrv.down = false
				redisSrv.mu.Unlock()
			}
			st := ""
			for _, k := range keys {
				if !read(k) {
					return
				}
				st += fmt.Sprint(ref[k].v, ":", ref[k].exp-now, ";")
			}
			c.Step(c.labels[len(c.labels)-1], st)
			c.Outcome("history agrees")
		}
	}
	values := func(c *C) {
		execs++
		s := Of(c, "string", "", "x", "ü\x00\xff", strings.Repeat("long", 20000))
		lst := Of(c, "list", []string(nil), []string{"a"}, []string{"", "b"})
		mp := Of(c, "map", map[string]any(nil), map[string]any{"a": "b", "c": []any{"d", true, nil}}, map[string]any{"n": map[string]any{"x": "y"}})
		t := Of(c, "time", time.Time{}, time.Unix(1700000000, 123456789), time.Unix(9999999999, 0))
		nested := c.Choose(2, "nested") == 1
		c.Commit()
		v := cacheVal{S: s, L: lst, M: mp, T: t}
		if nested {
			cp := v
			v.P = &cp
		}
		same := func(a, b cacheVal) bool {
			p, q := a, b
			p.P, q.P, p.T, q.T = nil, nil, time.Time{}, time.Time{}
			if !reflect.DeepEqual(p, q) || !a.T.Equal(b.T) || (a.P == nil) != (b.P == nil) {
				return false
			}
			return a.P == nil || (reflect.DeepEqual(a.P.L, b.P.L) && a.P.S == b.P.S && reflect.DeepEqual(a.P.M, b.P.M) && a.P.T.Equal(b.P.T))
		}
		k := fmt.Sprint("value", execs)
		if err := cache.Set(k, v, time.Hour); err != nil {
			c.Fail("storing fails: %v", err)
			return
		}
		var got, again cacheVal
		ok, err := cache.Get(k, &got)
		if !ok || err != nil || !same(got, v) {
			c.Fail("stored %+v, read %+v, %v, %v", v, got, ok, err)
			return
		}
		// what was read belongs to the reader
		if got.L != nil {
			got.L[0] = "changed"
		}
		if got.M != nil {
			got.M["a"] = "changed"
		}
		if got.P != nil {
			got.P.S = "changed"
		}
		if ok, err = cache.Get(k, &again); !ok || err != nil || !same(again, v) {
			c.Fail("stored %+v, read again after changing what was read %+v, %v, %v", v, again, ok, err)
			return
		}
		// so does what was stored to the writer
		w := cacheVal{L: []string{"a"}, M: map[string]any{"a": "b"}, P: &cacheVal{S: "c"}}
		if err = cache.Set(k, &w, time.Hour); err != nil {
			c.Fail("storing fails: %v", err)
			return
		}
		w.L[0], w.M["a"], w.P.S = "changed", "changed", "changed"
		var r cacheVal
		if ok, err = cache.Get(k, &r); !ok || err != nil || r.L[0] != "a" || r.M["a"] != "b" || r.P.S != "c" {
			c.Fail("what was stored changed with the value: %+v, %v, %v", r, ok, err)
			return
		}
		// nothing is something, too
		for i, none := range []any{[]string(nil), []string{}, map[string]any(nil), (*cacheVal)(nil), "", 0, false, nil} {
			var into any
			k := fmt.Sprint(k, "none", i)
			if err = cache.Set(k, none, time.Hour); err != nil {
				c.Fail("storing %#v fails: %v", none, err)
				return
			}
			if ok, err = cache.Get(k, &into); !ok || err != nil {
				c.Fail("stored %#v, read %v, %v", none, ok, err)
				return
			}
		}
		var miss cacheVal
		if ok, err = cache.Get(k+"x", &miss); ok || err != nil {
			c.Fail("a key that was never stored is found: %v, %v", ok, err)
		}
		c.Step("value", s, lst, mp, t, nested)
		c.Outcome("value kept")
	}
	registry["C24"] = func(x *X) {
		x.ExploreB("in-memory values", 0, values)
		x.ExploreB("in-memory histories", 0, histories(Pick(x, 4, 5), false, nil))
		x.ExploreB("in-memory histories of one value", 0, histories(Pick(x, 4, 5), true, nil))
		x.Explore(
			"capacity", 0, func(c *C) {
				// far below the 100,000 entries that the in-memory cache holds
				ns := []int{1, 10, 129, 1000, 5000}
				if x.Thorough() {
					ns = append(ns, 30000, 60000)
				}
				n := Of(c, "entries", ns...)
				size := Of(c, "size", 0, 100, 4096, 1<<20)
				again := c.Choose(2, "stored twice") == 1
				c.Commit()
				if n*size > 64<<20 {
					c.Discard()
					return
				}
				pad := strings.Repeat("x", size)
				kinds := []string{cache.KeyTrustTree, cache.KeyTrustTreeChains, cache.KeySubordinateListing}
				key := func(i int) string {
					if k := i % (len(kinds) + 1); k < len(kinds) {
						return cache.Key(kinds[k], fmt.Sprintf("capacity %d", i))
					}
					return cache.EntityStmtCacheKey(fmt.Sprintf("capacity %d", i), "issuer")
				}
				defer func() {
					for i := range n {
						_ = cache.Set(key(i), "", 0)
					}
				}()
				rounds := 1
				if again {
					rounds = 2
				}
				for r := range rounds {
					for i := range n {
						if err := cache.Set(key(i), fmt.Sprintf("%d %d %s", r, i, pad), time.Hour); err != nil {
							c.Fail("storing entry %d of %d: %v", i, n, err)
							return
						}
					}
				}
				for i := range n {
					var got string
					ok, err := cache.Get(key(i), &got)
					if !ok || err != nil || got != fmt.Sprintf("%d %d %s", rounds-1, i, pad) {
						c.Fail("entry %d of %d with %d bytes each, stored for an hour, is not what is read: %v, %v", i, n, size, ok, err)
						return
					}
				}
				c.Step("capacity", n, size, again)
				c.Outcome("all entries kept")
			},
		)
		x.Explore(
			"keys", 0, func(c *C) {
				ids := []string{
					"", "a", "b", ":", "a:b", "https://a", "https://a/", "https://a:b", "https://a/?x=y:z", "YQ==", "YQ==:Yg==", "a:YQ==", "entity_statement:a",
					"https://a/~~~", "https://a/???", "ü", "\x00", "https://A",
				}
				kinds := []string{
					cache.KeyEntityStatement, cache.KeyOPMetadata, cache.KeyEntityConfiguration, cache.KeyTrustTree, cache.KeyTrustTreeChains,
					cache.KeyTrustChainResolvedMetadata, cache.KeySubordinateListing,
				}
				a := c.Choose(len(ids), "subject")
				b := c.Choose(len(ids), "issuer")
				c.Commit()
				mine := cache.EntityStmtCacheKey(ids[a], ids[b])
				for i, s := range ids {
					for j, r := range ids {
						c.Step("compare", a, b, i, j)
						if k := cache.EntityStmtCacheKey(s, r); (k == mine) != (i == a && j == b) {
							c.Fail("statements about %q by %q and about %q by %q have keys %q and %q", ids[a], ids[b], s, r, mine, k)
							return
						}
					}
				}
				for k, kind := range kinds {
					key := cache.Key(kind, ids[a])
					if key == mine {
						c.Fail("%s %q and the statement about %q by %q have the same key %q", kind, ids[a], ids[a], ids[b], key)
						return
					}
					for l, other := range kinds {
						if o := cache.Key(other, ids[b]); (o == key) != (k == l && a == b) {
							c.Fail("%s %q and %s %q have keys %q and %q", kind, ids[a], other, ids[b], key, o)
							return
						}
					}
				}
				c.Outcome("distinct keys")
			},
		)
		// from here on with Redis
		srv := &redisModel{m: map[string]redisEntry{}, cmds: map[string]bool{}}
		err := cache.UseRedisCache(
			&redis.Options{
				Addr: "model", MaxRetries: -1, PoolSize: 2, Protocol: 2,
				Dialer: func(context.Context, string, string) (net.Conn, error) {
					a, b := net.Pipe()
					go srv.serve(b)
					return a, nil
				},
			},
		)
		if err != nil {
			x.T.Fatalf("redis: %v", err)
		}
		x.Explore("Redis values", 0, values)
		for _, same := range []bool{false, true} {
			name, depth := "Redis histories", 4
			if same {
				name, depth = "Redis histories of one value", Pick(x, 3, 4)
			}
			h := histories(depth, same, srv)
			x.Explore(
				name, 0, func(c *C) {
					srv.mu.Lock()
					srv.m, srv.now, srv.down = map[string]redisEntry{}, 0, false
					srv.mu.Unlock()
					h(c)
				},
			)
		}
		x.Notes = append(x.Notes, "Redis commands seen: "+strings.Join(keysOf(srv.cmds), " "))
	}
}

func indexOf(l []string, s string) int {
	for i, v := range l {
		if v == s {
			return i
		}
	}
	return -1
}
