package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/unixtime"
)

var _ = context.Background

func init() {
	properties["P18"] = p18
	properties["P19"] = p19
}

// ---- P18

func randChains(c *C) (cs oidfed.TrustChains) {
	n := c.R.Intn(7)
	base := time.Now().Truncate(time.Second)
	for i := 0; i < n; i++ {
		var ch oidfed.TrustChain
		l := c.R.Intn(8)
		if chance(c.R, 0.1) {
			l = 0
		}
		ta := pick(c.R, "https://ta1.example.org", "https://ta2.example.org", "https://ta3.example.org")
		for j := 0; j < l; j++ {
			s := &oidfed.EntityStatement{}
			s.Issuer = fmt.Sprintf("https://e%d.example.org", j)
			s.Subject = fmt.Sprintf("c%d-%d", i, j)
			if j == l-1 {
				s.Issuer = ta
			}
			if j != l-1 && chance(c.R, 0.2) {
				s.Issuer = ta + "x"
			}
			if j != l-1 && chance(c.R, 0.2) {
				s.Issuer = pick(c.R, "https://ta1.example.org", "https://ta2.example.org", "https://ta3.example.org")
			}
			s.ExpiresAt = unixtime.Unixtime{Time: base.Add(time.Duration(c.R.Intn(20000)-3000) * time.Second)}
			ch = append(ch, s)
		}
		cs = append(cs, ch)
	}
	return
}

func chainID(ch oidfed.TrustChain) string {
	var s []string
	for _, st := range ch {
		s = append(s, fmt.Sprintf("%p", st))
	}
	return strings.Join(s, ",")
}

func chainIDs(cs oidfed.TrustChains) (out []string) {
	for _, ch := range cs {
		out = append(out, chainID(ch))
	}
	return
}

func refPathLen(ch oidfed.TrustChain) int {
	if len(ch) < 3 {
		return 0
	}
	return len(ch) - 3
}

func p18(h *H) {
	cache.SetCache(noCache{})
	describe := func(cs oidfed.TrustChains) any {
		var out [][]string
		for _, ch := range cs {
			s := []string{}
			for _, st := range ch {
				s = append(s, st.Issuer+" "+st.Subject)
			}
			out = append(out, s)
		}
		return out
	}
	h.Cases("chain", h.N(3000, 20000), func(c *C) {
		for _, ch := range randChains(c) {
			c.Input = describe(oidfed.TrustChains{ch})
			c.Eval(fmt.Sprintf("path length of %d statements", len(ch)))
			c.Must(ch.PathLen() == refPathLen(ch), "path-len", "PathLen %d for %d statements", ch.PathLen(), len(ch))
			c.Must(oidfed.TrustChainScoringPathLen(ch) == refPathLen(ch), "path-len", "score %d for %d statements", ch.PathLen(), len(ch))
			e := ch.ExpiresAt()
			if len(ch) == 0 {
				c.Must(e.IsZero(), "expires", "expiration of the empty chain %v", e)
				continue
			}
			min := ch[0].ExpiresAt.Time
			pos := 0
			for i, s := range ch {
				if s.ExpiresAt.Before(min) {
					min = s.ExpiresAt.Time
					pos = i
				}
			}
			c.Eval(fmt.Sprintf("expiration of %d statements, earliest %d", len(ch), pos))
			c.Must(e.Equal(min), "expires", "expiration %v instead of %v", e, min)
		}
	})
	h.Cases("filter", h.N(4000, 30000), func(c *C) {
		cs := randChains(c)
		orig := chainIDs(cs)
		c.Input = describe(cs)
		var fs []oidfed.TrustChainsFilter
		var names []string
		want := append(oidfed.TrustChains{}, cs...)
		keep := func(p func(oidfed.TrustChain) bool) {
			var o oidfed.TrustChains
			for _, ch := range want {
				if p(ch) {
					o = append(o, ch)
				}
			}
			want = o
		}
		for i := c.R.Intn(4); i > 0; i-- {
			switch c.R.Intn(5) {
			case 0:
				ta := pick(c.R, "https://ta1.example.org", "https://ta2.example.org", "https://ta3.example.org", "", "https://none.example.org")
				fs = append(fs, oidfed.TrustChainsFilterTrustAnchor(ta))
				names = append(names, "ta "+ta)
				keep(func(ch oidfed.TrustChain) bool { return len(ch) > 0 && ch[len(ch)-1].Issuer == ta })
			case 1:
				fs = append(fs, oidfed.TrustChainsFilterMinPathLength)
				names = append(names, "min")
				min := math.MaxInt
				for _, ch := range want {
					if l := refPathLen(ch); l < min {
						min = l
					}
				}
				keep(func(ch oidfed.TrustChain) bool { return refPathLen(ch) == min })
			case 2:
				m := c.R.Intn(6)
				fs = append(fs, oidfed.TrustChainsFilterMaxPathLength(m))
				names = append(names, fmt.Sprint("max ", m))
				keep(func(ch oidfed.TrustChain) bool { return refPathLen(ch) <= m })
			case 3:
				k := c.R.Intn(4)
				p := func(ch oidfed.TrustChain) bool { return len(ch)%4 != k }
				fs = append(fs, oidfed.NewTrustChainsFilterFromCheckerFnc(p))
				names = append(names, "custom")
				keep(p)
			case 4:
				fs = append(fs, oidfed.NewTrustChainsFilterFromCheckerFnc(func(oidfed.TrustChain) bool { return true }))
				names = append(names, "all")
			}
		}
		got := cs.Filter(fs...)
		c.Eval(fmt.Sprintf("filters %v on %d chains leaving %d", names, len(cs), len(want)))
		c.Must(reflect.DeepEqual(chainIDs(got), chainIDs(want)), "filter", "filters %v keep %s instead of %s", names, jstr(describe(got)), jstr(describe(want)))
		c.Must(reflect.DeepEqual(chainIDs(cs), orig), "input-modified", "filtering modified its input")
		// chains of one resolution must not be affected by reusing the filter
		cs2 := randChains(c)
		for _, f := range fs {
			f.Filter(cs2)
		}
		c.Must(reflect.DeepEqual(chainIDs(cs.Filter(fs...)), chainIDs(want)), "filter-state", "reusing the filters %v changes their answer", names)
	})
	h.Cases("sort", h.N(4000, 30000), func(c *C) {
		cs := randChains(c)
		score := map[string]int{}
		for _, ch := range cs {
			score[chainID(ch)] = c.R.Intn(4)
		}
		scorer := func(ch oidfed.TrustChain) int { return score[chainID(ch)] }
		name := "random"
		if chance(c.R, 0.4) {
			scorer = oidfed.TrustChainScoringPathLen
			name = "path length"
		}
		c.Input = describe(cs)
		orig := append([]string{}, chainIDs(cs)...)
		sc := map[string]int{}
		for _, ch := range cs {
			sc[chainID(ch)] = scorer(ch)
		}
		desc := chance(c.R, 0.5)
		var got oidfed.TrustChains
		if desc {
			got = cs.SortDesc(scorer)
		} else {
			got = cs.SortAsc(scorer)
		}
		c.Eval(fmt.Sprintf("sort desc=%v %s %d chains %v", desc, name, len(cs), sc))
		gi := chainIDs(got)
		a, b := append([]string{}, gi...), append([]string{}, orig...)
		sort.Strings(a)
		sort.Strings(b)
		c.Must(reflect.DeepEqual(a, b), "sort-permutation", "sorting is not a permutation")
		for i := 1; i < len(gi); i++ {
			p, q := sc[gi[i-1]], sc[gi[i]]
			c.Must(p == q || (p < q) != desc, "sort-order", "score %d before %d (desc=%v)", p, q, desc)
		}
	})
	h.Cases("valid-metadata", h.N(300, 2000), func(c *C) {
		w := chainWorld(c, 1+c.R.Intn(3))
		bad := false
		for _, s := range w.all() {
			if s.Iss != s.Sub && chance(c.R, 0.5) {
				v := pick(c.R, "x", "y")
				s.Policy = map[string]any{"openid_relying_party": map[string]any{"client_name": map[string]any{"value": v}}}
			}
		}
		seen := ""
		for _, s := range w.all() {
			if s.Policy != nil {
				v := jstr(s.Policy)
				if seen != "" && seen != v {
					bad = true
				}
				seen = v
			}
		}
		netw.Reset()
		w.Serve()
		c.Input = w.Dump()
		chains := w.resolver().ResolveToValidChainsWithoutVerifyingMetadata()
		c.Eval(fmt.Sprintf("metadata filter, %d chains contradiction=%v", len(chains), bad))
		got := chains.Filter(oidfed.TrustChainsFilterValidMetadata)
		if !c.Must(len(chains) == 1, "setup", "%d chains", len(chains)) {
			return
		}
		c.Must((len(got) == 1) == !bad, "valid-metadata", "filter keeps %d chains, contradiction %v", len(got), bad)
	})
}

// ---- P19

func collectExp(v reflect.Value, out *[]time.Time) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		if es, ok := v.Interface().(*oidfed.EntityStatement); ok {
			*out = append(*out, es.ExpiresAt.Time)
			return
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && (f.Type.Kind() == reflect.Ptr || f.Type.Kind() == reflect.Slice) {
				collectExp(v.Field(i), out)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.String || v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			collectExp(v.Index(i), out)
		}
	}
}

func checkTTLs(c *C, sets []setRec, extra []time.Time) {
	for _, s := range sets {
		var exps []time.Time
		if s.Val != nil {
			switch s.Val.(type) {
			case *oidfed.Metadata:
				exps = extra
			default:
				collectExp(reflect.ValueOf(s.Val), &exps)
			}
		}
		for _, e := range exps {
			if e.IsZero() || s.TTL <= 0 {
				continue
			}
			// the lifetime was computed some time after the start of the case and before it was stored
			if c.Start.Add(s.TTL).After(e.Add(100 * time.Millisecond)) {
				c.Fail("ttl", "entry %q lives %v, longer than a statement that expires in %v", strings.SplitN(s.Key, ":", 2)[0], s.TTL, e.Sub(s.At))
			}
		}
	}
}

func metaOf(ch oidfed.TrustChain) string {
	m, err := ch.Metadata()
	if err != nil {
		return "error"
	}
	return jstr(stripEmpty(norm(m)))
}

type fakeRedis struct {
	mu   sync.Mutex
	sets []string
	m    map[string]string
	exp  map[string]time.Time
}

func (f *fakeRedis) serve(l net.Listener) {
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		go f.conn(conn)
	}
}

func (f *fakeRedis) conn(conn net.Conn) {
	defer conn.Close()
	r := bufio.NewReader(conn)
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		s, err := line()
		if err != nil || !strings.HasPrefix(s, "*") {
			return
		}
		n, _ := strconv.Atoi(s[1:])
		var args []string
		for i := 0; i < n; i++ {
			if s, err = line(); err != nil {
				return
			}
			k, _ := strconv.Atoi(s[1:])
			buf := make([]byte, k+2)
			if _, err = io.ReadFull(r, buf); err != nil {
				return
			}
			args = append(args, string(buf[:k]))
		}
		f.mu.Lock()
		var out string
		switch strings.ToLower(args[0]) {
		case "ping":
			out = "+PONG\r\n"
		case "set":
			f.m[args[1]] = args[2]
			delete(f.exp, args[1])
			ttl := "none"
			if len(args) >= 5 {
				v, _ := strconv.Atoi(args[4])
				unit := time.Second
				if strings.EqualFold(args[3], "px") {
					unit = time.Millisecond
				}
				f.exp[args[1]] = time.Now().Add(time.Duration(v) * unit)
				ttl = (time.Duration(v) * unit).String()
			}
			f.sets = append(f.sets, ttl)
			out = "+OK\r\n"
		case "get":
			v, ok := f.m[args[1]]
			if e, has := f.exp[args[1]]; has && time.Now().After(e) {
				ok = false
			}
			if ok {
				out = fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
			} else {
				out = "$-1\r\n"
			}
		case "hello":
			out = "-ERR unknown command 'HELLO'\r\n"
		default:
			out = "+OK\r\n"
		}
		f.mu.Unlock()
		if _, err = conn.Write([]byte(out)); err != nil {
			return
		}
	}
}

func p19(h *H) {
	// the library's own cache is still installed here
	// no background refreshes: they would carry statements of one case into the cache of the next
	oidfed.ResolverCacheGracePeriod = -time.Hour
	ttls := []time.Duration{-time.Hour, -time.Nanosecond, -2, 0, 1, time.Millisecond * 300, time.Second, time.Hour, math.MinInt64}
	roundtrip := func(c *C, who string) {
		pre := fmt.Sprintf("k%d-%s-", c.Idx, who)
		type rec struct {
			A string
			B int
		}
		at := make([]time.Time, len(ttls))
		for i, ttl := range ttls {
			at[i] = time.Now()
			err := cache.Set(pre+fmt.Sprint(i), rec{"v" + fmt.Sprint(i), i}, ttl)
			c.Must(err == nil, "cache-set", "%s: Set with ttl %v: %v", who, ttl, err)
		}
		check := func(phase string) {
			for i, ttl := range ttls {
				var r rec
				t0 := time.Now()
				ok, err := cache.Get(pre+fmt.Sprint(i), &r)
				c.Eval(fmt.Sprintf("%s ttl %v %s", who, ttl, phase))
				c.Must(err == nil, "cache-get", "%s: Get: %v", who, err)
				if ok {
					c.Must(r == rec{"v" + fmt.Sprint(i), i}, "cache-value", "%s: read %v for entry %d", who, r, i)
				}
				if ttl <= 0 || t0.After(at[i].Add(ttl).Add(20*time.Millisecond)) {
					c.Must(!ok, "cache-expired", "%s: entry with ttl %v is still there after %v", who, ttl, t0.Sub(at[i]))
				} else if ttl >= time.Minute {
					c.Must(ok, "cache-lost", "%s: entry with ttl %v is gone after %v", who, ttl, t0.Sub(at[i]))
				}
			}
		}
		check("at once")
		time.Sleep(400 * time.Millisecond)
		check("after 0.4s")
		// overwriting with an expired entry
		_ = cache.Set(pre+"o", rec{"old", 1}, time.Hour)
		_ = cache.Set(pre+"o", rec{"new", 2}, time.Hour)
		var r rec
		ok, _ := cache.Get(pre+"o", &r)
		c.Must(ok && r.A == "new", "cache-value", "%s: read %v after overwriting", who, r)
		ok, _ = cache.Get(pre+"missing", &r)
		c.Must(!ok, "cache-value", "%s: found an entry that was never stored", who)
	}
	h.Cases("own-cache", h.N(2, 4), func(c *C) { roundtrip(c, "memory") })
	h.Cases("own-cache-world", h.N(24, 100), func(c *C) { sharedCache(c, nil, fmt.Sprintf("w%dx", c.Idx)) })
	h.Cases("redis", h.N(2, 4), func(c *C) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Eval("redis stub not available")
			return
		}
		defer l.Close()
		f := &fakeRedis{m: map[string]string{}, exp: map[string]time.Time{}}
		go f.serve(l)
		if err = cache.UseRedisCache(&redis.Options{Addr: l.Addr().String(), Protocol: 2, DisableIndentity: true}); err != nil {
			c.Eval("redis stub refused: " + err.Error())
			return
		}
		roundtrip(c, "redis")
		for _, s := range f.sets {
			c.Must(s != "none", "cache-immortal", "redis: an entry was stored without expiration")
		}
	})
	cache.SetCache(noCache{})
	h.Cases("keys", h.N(4000, 40000), func(c *C) {
		parts := []string{"", "a", "b", ":", "a:b", "https://a.example.org", "https://a.example.org:443", "aa", "a\x00", "+", "/", "_", "-", "ä", "\xff", "=", "a=", "YQ==", "YQ", "\xfb\xff", "YTpi"}
		a, b, x, y := pick(c.R, parts...), pick(c.R, parts...), pick(c.R, parts...), pick(c.R, parts...)
		if chance(c.R, 0.3) {
			b = a + b
		}
		if chance(c.R, 0.4) { // the same text split at two places
			seps := []string{":", "/", "", ".", "-", "|", " ", ","}
			sep := pick(c.R, seps...)
			ps := []string{pick(c.R, parts...), pick(c.R, parts...), pick(c.R, parts...)}
			a, b, x, y = ps[0], ps[1]+sep+ps[2], ps[0]+sep+ps[1], ps[2]
		}
		c.Input = []string{a, b, x, y}
		c.Eval(fmt.Sprintf("statement keys %q %q vs %q %q", a, b, x, y))
		if a != x || b != y {
			c.Must(cache.EntityStmtCacheKey(a, b) != cache.EntityStmtCacheKey(x, y), "key-collision", "statements %q %q and %q %q share a key", a, b, x, y)
		}
		kinds := []string{
			cache.KeyEntityStatement, cache.KeyOPMetadata, cache.KeyEntityConfiguration, cache.KeyTrustTree,
			cache.KeyTrustTreeChains, cache.KeyTrustChainResolvedMetadata, cache.KeySubordinateListing,
		}
		k1, k2 := pick(c.R, kinds...), pick(c.R, kinds...)
		if k1 != k2 || a != b {
			c.Must(cache.Key(k1, a) != cache.Key(k2, b), "key-collision", "%s %q and %s %q share a key", k1, a, k2, b)
		}
	})
	h.Cases("shared", h.N(1500, 12000), func(c *C) {
		mc := newMapCache()
		cache.SetCache(mc)
		sharedCache(c, mc, "")
		cache.SetCache(noCache{})
	})
	h.Cases("expiry", h.N(600, 5000), func(c *C) {
		// one statement of a chain expires soon; afterwards nothing may come from the cache
		mc := newMapCache()
		cache.SetCache(mc)
		defer cache.SetCache(noCache{})
		w := chainWorld(c, 1+c.R.Intn(3))
		all := w.all()
		i := c.R.Intn(len(all))
		for _, s := range all {
			s.Exp = fp(float64(1000 + c.R.Intn(1000)))
		}
		s := all[i]
		s.Exp = fp(pick(c.R, 50.0, 500.0, 5.0))
		netw.Reset()
		w.Serve()
		c.Input = w.Dump()
		chains := w.resolver().ResolveToValidChains()
		c.Eval(fmt.Sprintf("statement %d of %d expires first (%v)", i, len(all), *s.Exp))
		c.Must(len(chains) == 1, "setup", "%d chains", len(chains))
		min := time.Unix(0, int64((s.now+*s.Exp)*1e9))
		for _, r := range mc.Sets {
			if strings.HasPrefix(r.Key, cache.KeyEntityStatement) {
				continue
			}
			if strings.HasPrefix(r.Key, cache.KeyTrustChainResolvedMetadata) && s.Iss == s.Sub && s.Iss != w.Start && s.Iss != w.TAs[0].ID {
				// an intermediate's configuration is not part of the chain
				continue
			}
			c.Must(!c.Start.Add(r.TTL).After(min.Add(time.Second)), "ttl", "entry %s lives %v although a statement it depends on expires in %v", strings.SplitN(r.Key, ":", 2)[0], r.TTL, min.Sub(r.At))
		}
		checkTTLs(c, mc.Sets, nil)
		// advance: drop everything that expired by then and make the network unreachable for the expired statement
		later := min.Add(2 * time.Second)
		for k, e := range mc.m {
			if e.exp.Before(later) {
				delete(mc.m, k)
			}
		}
		s.Drop = true
		netw.Reset()
		w.Serve()
		chains = w.resolver().ResolveToValidChains()
		c.Must(len(chains) == 0, "stale", "a chain is still returned from the cache after one of its statements expired")
	})
	// entries that cannot be decoded (completely) must not be used
	h.Cases("corrupt", h.N(800, 6000), func(c *C) {
		mc := newMapCache()
		cache.SetCache(mc)
		defer cache.SetCache(noCache{})
		w := randWorld(c.R, Profile{Nodes: 2 + c.R.Intn(4), Edge: 0.6, Policy: 0.3, RandTypes: true})
		netw.Reset()
		w.Serve()
		c.Input = w.Dump()
		ask := func() (out []string) {
			for _, ch := range w.resolver().ResolveToValidChains() {
				out = append(out, chainKey(ch)+metaOf(ch))
			}
			sort.Strings(out)
			return
		}
		cache.SetCache(noCache{})
		ref := ask()
		cache.SetCache(mc)
		ask()
		n := 0
		for round := 0; round < 3; round++ {
			var ks []string
			for k := range mc.m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			only := c.R.Intn(3)
			for _, k := range ks {
				e := mc.m[k]
				if only == 0 && chance(c.R, 0.5) || len(e.data) < 2 || only == 1 && !strings.HasPrefix(k, cache.KeyTrustTreeChains) {
					continue
				}
				e.data = e.data[:1+c.R.Intn(len(e.data)-1)]
				mc.m[k] = e
				n++
			}
			got := ask()
			c.Eval(fmt.Sprintf("%d truncated entries, %d chains", n, len(ref)))
			c.Must(jstr(got) == jstr(ref), "corrupt", "with undecodable cache entries %d chains %s, without cache %d %s", len(got), jstr(got), len(ref), jstr(ref))
		}
	})
	h.Cases("metadata", h.N(1500, 12000), func(c *C) { cachedMetadata(c) })
	h.Cases("op-metadata", h.N(60, 300), func(c *C) {
		mc := newMapCache()
		cache.SetCache(mc)
		defer cache.SetCache(noCache{})
		w := chainWorld(c, 1)
		w.EC[w.Start].Meta = map[string]any{"openid_provider": map[string]any{"issuer": w.Start, "token_endpoint": "x"}}
		netw.Reset()
		w.Serve()
		c.Input = w.Dump()
		leaf := oidfed.FederationLeaf{TrustAnchors: w.anchors()}
		leaf2 := oidfed.FederationLeaf{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs("https://other.example.org")}
		m, err := leaf.ResolveOPMetadata(w.Start)
		c.Eval("op metadata with trusted anchor")
		c.Must(err == nil && m.Issuer == w.Start, "op-metadata", "%v", err)
		_, err = leaf2.ResolveOPMetadata(w.Start)
		c.Eval("op metadata with another anchor afterwards")
		c.Must(err != nil, "op-metadata", "metadata from the cache although the caller does not trust the anchor")
	})
}

var _ = http.MethodGet
var _ = json.Marshal
var _ = msgpack.Marshal

func renameHosts(w *World, tag string) {
	m := map[string]string{}
	var ids []string
	for id := range w.EC {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		m[id] = strings.Replace(id, "https://", "https://"+tag+".", 1)
	}
	for _, id := range ids {
		rename(w, id, m[id])
	}
}

// sharedCache asks a sequence of different questions about one federation while a cache is in use
func sharedCache(c *C, mc *mapCache, tag string) {
	p := Profile{Nodes: 2 + c.R.Intn(4), Edge: 0.5, Sig: 0.05, Time: 0.03, Link: 0.03, Gone: 0.03, Constraint: 0.2, NoPin: 0.3, Policy: 0.3, RandTypes: true}
	w := randWorld(c.R, p)
	if tag != "" {
		renameHosts(w, tag)
	}
	netw.Reset()
	w.Serve()
	c.Input = w.Dump()
	var ids []string
	for id := range w.EC {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	origTAs, origTypes, origStart := w.TAs, w.Types, w.Start
	for q := 0; q < 5; q++ {
		if q > 0 {
			switch c.R.Intn(6) {
			case 0:
				w.Types = []string{pick(c.R, allTypes...)}
			case 1:
				w.Types = nil
			case 2:
				w.Start = pick(c.R, ids...)
			case 3:
				w.TAs = []Anchor{{pick(c.R, ids...), nil}}
			case 4:
				id := pick(c.R, ids...)
				w.TAs = []Anchor{{id, []*Key{keys[c.R.Intn(len(keys))]}}}
				if chance(c.R, 0.5) {
					w.TAs = []Anchor{{id, w.EC[id].Keys}}
				}
			case 5:
				w.TAs, w.Types, w.Start = origTAs, origTypes, origStart
			}
		}
		exp := w.Expected()
		n0 := 0
		if mc != nil {
			n0 = len(mc.Sets)
		}
		var chains oidfed.TrustChains
		r := w.resolver()
		switch c.R.Intn(3) {
		case 0, 1:
			chains = r.ResolveToValidChainsWithoutVerifyingMetadata()
		case 2:
			r.Resolve()
			r.VerifySignatures()
			chains = r.Chains()
		}
		c.Eval(fmt.Sprintf("question %d with cache: %s", q, w.shape(exp)))
		c.Input = map[string]any{"world": w.Dump(), "question": q, "start": w.Start, "types": w.Types}
		compareChains(c, w, exp, chains)
		for _, ch := range chains {
			k := 0
			if mc != nil {
				k = len(mc.Sets)
			}
			m1 := metaOf(ch)
			var exps []time.Time
			for _, s := range ch {
				exps = append(exps, s.ExpiresAt.Time)
			}
			if mc != nil {
				checkTTLs(c, mc.Sets[k:], exps)
			}
			m2 := metaOf(ch)
			c.Must(m1 == m2, "metadata", "metadata from the cache %s instead of %s", m2, m1)
			if mc != nil {
				cache.SetCache(noCache{})
				m3 := metaOf(ch)
				cache.SetCache(mc)
				c.Must(m1 == m3, "metadata", "metadata with cache %s, without %s", m1, m3)
			}
		}
		if mc != nil {
			checkTTLs(c, mc.Sets[n0:], nil)
		}
	}
}

// cachedMetadata compares the metadata resolved with a filled cache to the metadata resolved without a cache
func cachedMetadata(c *C) {
	w := chainWorld(c, 1+c.R.Intn(2))
	types := []string{"openid_relying_party", "openid_provider", "oauth_client", "oauth_authorization_server", "oauth_resource", "federation_entity", "acme_type"}
	t := pick(c.R, types...)
	params := map[string]func() any{
		"organization_name": func() any { return pick[any](c.R, "", "x") }, "display_name": func() any { return pick[any](c.R, "", "y") },
		"contacts": func() any { return pick[any](c.R, []any{}, []any{"a"}, []any{"a", "b"}) },
		"logo_uri": func() any { return pick[any](c.R, "", "https://l") },
		"unknown1": func() any { return pick[any](c.R, "", 0, false, 5, []any{}, []any{"a"}, map[string]any{}) },
	}
	switch t {
	case "openid_relying_party", "oauth_client":
		params["require_auth_time"] = func() any { return chance(c.R, 0.5) }
		params["default_max_age"] = func() any { return c.R.Intn(2) }
		params["redirect_uris"] = func() any { return pick[any](c.R, []any{}, []any{"a"}) }
		params["client_name"] = func() any { return pick[any](c.R, "", "n") }
	case "openid_provider", "oauth_authorization_server":
		params["claims_parameter_supported"] = func() any { return chance(c.R, 0.5) }
		params["scopes_supported"] = func() any { return pick[any](c.R, []any{}, []any{"a"}, []any{"a", "b"}) }
		params["issuer"] = func() any { return pick[any](c.R, "", "n") }
	}
	var names []string
	for p := range params {
		names = append(names, p)
	}
	sort.Strings(names)
	m := map[string]any{}
	for _, p := range names {
		if chance(c.R, 0.5) {
			m[p] = params[p]()
		}
	}
	w.EC[w.Start].Meta = map[string]any{t: m}
	var fetched []*Stmt
	for _, s := range w.all() {
		if s.Iss != s.Sub {
			fetched = append(fetched, s)
		}
	}
	pol := map[string]any{}
	for i := 1 + c.R.Intn(3); i > 0; i-- {
		p := pick(c.R, names...)
		v := params[p]()
		lst, isList := v.([]any)
		switch c.R.Intn(4) {
		case 0:
			pol[p] = map[string]any{"essential": true}
		case 1:
			pol[p] = map[string]any{"default": v, "essential": chance(c.R, 0.5)}
		case 2:
			pol[p] = map[string]any{"value": v}
		case 3:
			if isList {
				pol[p] = map[string]any{"subset_of": append([]any{"a", "c"}, lst...)}
			} else {
				pol[p] = map[string]any{"one_of": []any{v, "other"}}
			}
		}
	}
	fetched[c.R.Intn(len(fetched))].Policy = map[string]any{t: pol}
	netw.Reset()
	w.Serve()
	c.Input = w.Dump()
	ask := func() string {
		cs := w.resolver().ResolveToValidChainsWithoutVerifyingMetadata()
		if len(cs) != 1 {
			return fmt.Sprintf("%d chains", len(cs))
		}
		return metaOf(cs[0])
	}
	cache.SetCache(noCache{})
	ref := ask()
	mc := newMapCache()
	cache.SetCache(mc)
	defer cache.SetCache(noCache{})
	a1 := ask()
	drop := func(prefixes ...string) {
		for k := range mc.m {
			for _, p := range prefixes {
				if strings.HasPrefix(k, p+":") {
					delete(mc.m, k)
				}
			}
		}
	}
	drop(cache.KeyTrustTree, cache.KeyTrustTreeChains, cache.KeyTrustChainResolvedMetadata)
	a2 := ask() // from cached statements
	drop(cache.KeyTrustChainResolvedMetadata)
	a3 := ask() // from cached chains
	drop(cache.KeyTrustTreeChains, cache.KeyTrustChainResolvedMetadata)
	a4 := ask() // from the cached tree
	a5 := ask() // all from the cache
	c.Eval(fmt.Sprintf("metadata of %s with cache, policy %s, metadata %s", t, jstr(pol), jstr(m)))
	for i, a := range []string{a1, a2, a3, a4, a5} {
		c.Must(a == ref, "cached-metadata", "step %d: metadata with cache %s, without %s (policy %s, published %s)", i+1, a, ref, jstr(pol), jstr(m))
	}
}
