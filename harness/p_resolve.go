package main

import (
	"fmt"
	"github.com/go-oidfed/lib/cache"
	"sort"
	"strings"

	oidfed "github.com/go-oidfed/lib"
)

func init() {
	properties["P01"] = p01
	properties["P02"] = p02
	properties["P03"] = p03
	properties["P04"] = p04
	properties["P05"] = p05
	properties["P06"] = p06
	properties["P26"] = p26
}

func nodes(c *C, lo, hi int) int { return lo + c.R.Intn(hi-lo+1) }

// exhaustive3 enumerates all authority-hint graphs over three entities with every choice of anchors
func exhaustive3(h *H, start func(c *C, w *World)) {
	h.Cases(
		"graph3", 512*3, func(c *C) {
			g, ta := c.Idx/3, c.Idx%3
			w := newWorld()
			ids := []string{"https://a.example.org", "https://b.example.org", "https://c.example.org"}
			for i, id := range ids {
				s := &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[i]}, Signer: keys[i],
					Meta: map[string]any{"federation_entity": fedEntity(id)}}
				for j := range ids {
					if g>>(3*i+j)&1 == 1 {
						s.Hints = append(s.Hints, ids[j])
						w.addFetch(ids[j]+"/fetch", id, &Stmt{Iss: ids[j], Sub: id, Iat: fp(-1), Exp: fp(600),
							Keys: []*Key{keys[i]}, Signer: keys[j]})
					}
				}
				w.EC[id] = s
			}
			w.Start = ids[0]
			switch ta {
			case 0:
				w.TAs = []Anchor{{ids[2], []*Key{keys[2]}}}
			case 1:
				w.TAs = []Anchor{{ids[1], nil}, {ids[2], []*Key{keys[2]}}}
			case 2:
				w.TAs = []Anchor{{ids[0], []*Key{keys[0]}}, {ids[2], []*Key{keys[2]}}}
			}
			start(c, w)
		},
	)
}

func generic(h *H, family string, n int, p Profile, lo, hi int, extra func(c *C, w *World, chains oidfed.TrustChains)) {
	h.Cases(
		family, n, func(c *C) {
			pp := p
			pp.Nodes = nodes(c, lo, hi)
			w := randWorld(c.R, pp)
			chains := checkWorld(c, w)
			if extra != nil {
				extra(c, w, chains)
			}
		},
	)
}

func p01(h *H) {
	exhaustive3(h, func(c *C, w *World) { checkWorld(c, w) })
	generic(h, "linkage", h.N(2500, 60000), Profile{Edge: 0.5, Link: 0.12, SelfEdges: true, NoPin: 0.3}, 2, 6, nil)
	generic(h, "linkage-shared-keys", h.N(1500, 30000), Profile{Edge: 0.55, Link: 0.15, SelfEdges: true, NoPin: 0.3, SharedKeys: 0.8}, 3, 6, nil)
	generic(h, "no-anchor", h.N(300, 3000), Profile{Edge: 0.4, SelfEdges: true}, 2, 5,
		func(c *C, w *World, _ oidfed.TrustChains) {
			w.TAs = nil
			if c.R.Intn(2) == 0 {
				w.TAs = []Anchor{{ID: "https://unrelated.example.net"}}
			}
			checkWorld(c, w)
		})
	h.Cases("empty-start", 2, func(c *C) {
		w := newWorld()
		w.TAs = []Anchor{{ID: "https://ta.example.org"}}
		if c.Idx == 1 {
			w.TAs = []Anchor{{ID: ""}}
		}
		checkWorld(c, w)
	})
	// texts that are almost the expected ones
	h.Cases("near", h.N(1500, 15000), func(c *C) {
		w := chainWorld(c, 1+c.R.Intn(3))
		var ids []string
		for id := range w.EC {
			ids = append(ids, id)
		}
		sortStrings(ids)
		all := w.all()
		s := all[c.R.Intn(len(all))]
		switch c.Idx % 6 {
		case 0, 1:
			s.Iss = almost(c.R, s.Iss, ids...)
		case 2, 3:
			s.Sub = almost(c.R, s.Sub, ids...)
		case 4:
			w.TAs[0].ID = almost(c.R, w.TAs[0].ID, ids...)
		case 5:
			for len(s.Hints) == 0 {
				s = all[c.R.Intn(len(all))]
			}
			s.Hints = []string{almost(c.R, s.Hints[0], ids...)}
		}
		checkWorld(c, w)
	})
	// directed: the served configuration of the starting entity is not its own
	h.Cases("lying-start", h.N(300, 2000), func(c *C) {
		w := chainWorld(c, 1+c.R.Intn(3))
		ec := w.EC[w.Start]
		other := "https://victim.example.org"
		switch c.R.Intn(4) {
		case 0:
			ec.Iss = other
		case 1:
			ec.Sub = other
		case 2:
			ec.Iss, ec.Sub = other, other
		case 3:
			w.TAs = append(w.TAs, Anchor{ID: w.Start, Keys: ec.Keys})
			ec.Iss, ec.Sub = pick(c.R, other, w.Start), other
		}
		for _, m := range w.Fetch {
			for sub, s := range m {
				if sub == w.Start && c.R.Intn(2) == 0 {
					m[ec.Iss] = &Stmt{Iss: s.Iss, Sub: ec.Sub, Iat: s.Iat, Exp: s.Exp, Keys: s.Keys, Signer: s.Signer}
				}
			}
		}
		checkWorld(c, w)
	})
}

// chainWorld is a single straight path with k superiors
func chainWorld(c *C, k int) *World {
	w := newWorld()
	ids := []string{"https://leaf.example.org"}
	for i := 1; i <= k; i++ {
		ids = append(ids, fmt.Sprintf("https://sup%d.example.org", i))
	}
	for i, id := range ids {
		s := &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[i]}, Signer: keys[i]}
		if i == 0 {
			s.Meta = leafMeta(c.R, id)
		} else {
			s.Meta = map[string]any{"federation_entity": fedEntity(id)}
		}
		if i < k {
			s.Hints = []string{ids[i+1]}
			w.addFetch(ids[i+1]+"/fetch", id, &Stmt{Iss: ids[i+1], Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[i]}, Signer: keys[i+1]})
		}
		w.EC[id] = s
	}
	w.Start = ids[0]
	w.TAs = []Anchor{{ids[k], []*Key{keys[k]}}}
	return w
}

func (w *World) all() (out []*Stmt) {
	var ids []string
	for id := range w.EC {
		ids = append(ids, "e"+id)
	}
	for ep, m := range w.Fetch {
		for s := range m {
			ids = append(ids, "f"+ep+" "+s)
		}
	}
	sortStrings(ids)
	for _, id := range ids {
		if id[0] == 'e' {
			out = append(out, w.EC[id[1:]])
		} else {
			p := strings.SplitN(id[1:], " ", 2)
			out = append(out, w.Fetch[p[0]][p[1]])
		}
	}
	return
}

func p02(h *H) {
	// every single deviation on every position of a straight chain, with and without pinned keys
	h.Cases("positions", 4*10*8*3, func(c *C) {
		i := c.Idx
		k := 1 + i%4
		i /= 4
		pos := i % 10
		i /= 10
		dev := i % 8
		i /= 8
		w := chainWorld(c, k)
		if i == 1 {
			w.TAs[0].Keys = nil
		}
		if i == 2 {
			w = chainWorld(c, k)
			w.Start = w.TAs[0].ID
		}
		st := w.all()
		if pos >= len(st) {
			return
		}
		s := st[pos]
		switch dev {
		case 0:
			s.Tamper = true
		case 1:
			s.Signer = keys[9]
		case 2:
			s.Keys = []*Key{keys[9]}
		case 3:
			s.Keys = nil
		case 4: // another entity's key of the same federation
			s.Signer = keys[(s.Signer.N+1)%(k+1)]
		case 5: // key is rotated: the statement is signed with a key that only its own configuration publishes
			s.Signer = keys[9]
			w.EC[s.Iss].Keys = append(w.EC[s.Iss].Keys, keys[9])
		case 6: // the anchor publishes other keys than pinned
			ta := w.EC[w.TAs[0].ID]
			ta.Keys, ta.Signer = []*Key{keys[9]}, keys[9]
			if c.R.Intn(2) == 0 {
				ta.Signer = keys[k]
			}
		case 7: // attested keys differ from the published ones but are right
			s.Keys = append([]*Key{keys[9]}, s.Keys...)
		}
		checkWorld(c, w)
	})
	generic(h, "signatures", h.N(3000, 80000), Profile{Edge: 0.5, Sig: 0.12, NoPin: 0.3}, 2, 6, nil)
	generic(h, "signatures-shared-keys", h.N(1500, 30000), Profile{Edge: 0.6, Sig: 0.15, NoPin: 0.3, SharedKeys: 0.4}, 3, 6, nil)
	generic(h, "signatures-layered", h.N(1500, 30000), Profile{Edge: 0.7, Sig: 0.1, NoPin: 0.2, Layered: true}, 4, 7, nil)
	p02order(h)
	// histories of the step-wise methods on one question with a cache: what was looked at before verification must
	// not be what is returned as valid afterwards
	h.Cases("stepwise", h.N(800, 12000), func(c *C) {
		pp := Profile{Edge: 0.6, Sig: 0.15, NoPin: 0.3}
		pp.Nodes = nodes(c, 2, 5)
		w := randWorld(c.R, pp)
		netw.Reset()
		w.Serve()
		cache.SetCache(newMapCache())
		defer cache.SetCache(noCache{})
		exp := w.Expected()
		c.Eval(w.shape(exp))
		c.Input = w.Dump()
		r := w.resolver()
		var chains oidfed.TrustChains
		verified := false
		var steps []string
		for i, n := 0, 2+c.R.Intn(5); i < n; i++ {
			if c.R.Intn(4) == 0 {
				r = w.resolver()
				verified = false
				steps = append(steps, "new resolver")
			}
			k := c.R.Intn(4)
			steps = append(steps, []string{"Resolve", "VerifySignatures", "Chains", "ResolveToValidChainsWithoutVerifyingMetadata"}[k])
			c.Input = map[string]any{"world": w.Dump(), "steps": steps}
			switch k {
			case 0:
				r.Resolve()
				verified = false
			case 1:
				r.VerifySignatures()
				verified = true
			case 2:
				if chains = r.Chains(); verified {
					if len(chains) > 0 {
						compareChains(c, w, exp, chains)
					}
				}
			case 3:
				chains = r.ResolveToValidChainsWithoutVerifyingMetadata()
				compareChains(c, w, exp, chains)
			}
		}
	})
}

// p02order: superiors where only some verify, in every order
func p02order(h *H) {
	h.Cases("hint-order", 6*16, func(c *C) {
		perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
		perm := perms[c.Idx%6]
		bad := c.Idx / 6
		w := newWorld()
		leaf, ta := "https://leaf.example.org", "https://ta.example.org"
		ias := []string{"https://ia.example.org", "https://ib.example.org", "https://ic.example.org"}
		mk := func(id string, k int, hints ...string) {
			w.EC[id] = &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[k]}, Signer: keys[k], Hints: hints,
				Meta: map[string]any{"federation_entity": fedEntity(id)}}
		}
		sub := func(a, e string, ka, ke int) *Stmt {
			s := &Stmt{Iss: a, Sub: e, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[ke]}, Signer: keys[ka]}
			w.addFetch(a+"/fetch", e, s)
			return s
		}
		var hints []string
		for _, i := range perm {
			hints = append(hints, ias[i])
		}
		mk(leaf, 0, hints...)
		mk(ta, 4)
		for i, a := range ias {
			mk(a, i+1, ta)
			s1 := sub(a, leaf, i+1, 0)
			s2 := sub(ta, a, 4, i+1)
			if bad>>i&1 == 1 {
				switch c.R.Intn(4) {
				case 0:
					s1.Tamper = true
				case 1:
					s2.Signer = keys[9]
				case 2:
					s1.Keys = []*Key{keys[9]}
				case 3:
					s2.Keys = []*Key{keys[9]}
				}
			}
		}
		w.Start, w.TAs = leaf, []Anchor{{ta, []*Key{keys[4]}}}
		if bad>>3&1 == 1 {
			w.TAs[0].Keys = nil
		}
		checkWorld(c, w)
	})
	// one resolver object asked again after the question or the federation changed, without a cache
	h.Cases("reuse", h.N(600, 8000), func(c *C) {
		cache.SetCache(noCache{})
		pp := Profile{Edge: 0.6, Sig: 0.1, NoPin: 0.3}
		pp.Nodes = nodes(c, 2, 5)
		w := randWorld(c.R, pp)
		var ids []string
		for id := range w.EC {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		r := w.resolver()
		var steps []string
		for i := 0; i < 4; i++ {
			switch c.R.Intn(4) {
			case 0:
				w.Start = pick(c.R, ids...)
				r.StartingEntity = w.Start
				steps = append(steps, "start at "+w.Start)
			case 1:
				delete(w.EC, w.Start)
				steps = append(steps, w.Start+" goes offline")
			case 2:
				id := pick(c.R, ids...)
				delete(w.EC, id)
				steps = append(steps, id+" goes offline")
			}
			netw.Reset()
			w.Serve()
			exp := w.Expected()
			c.Eval(w.shape(exp))
			steps = append(steps, "resolve")
			c.Input = map[string]any{"world": w.Dump(), "steps": steps}
			compareChains(c, w, exp, r.ResolveToValidChainsWithoutVerifyingMetadata())
		}
	})
}

func p03(h *H) {
	offs := []*float64{nil, fp(-1e9), fp(-3600), fp(-2), fp(-0.001), fp(120), fp(3600), fp(1e9)}
	// every position of straight chains with every combination of issuance and expiration
	h.Cases("positions", 4*10*8*8, func(c *C) {
		i := c.Idx
		k := i % 4
		i /= 4
		pos := i % 10
		i /= 10
		w := chainWorld(c, k)
		st := w.all()
		if pos >= len(st) {
			return
		}
		st[pos].Iat, st[pos].Exp = offs[i%8], offs[i/8]
		checkWorld(c, w)
	})
	generic(h, "times", h.N(3000, 60000), Profile{Edge: 0.5, Time: 0.12, NoPin: 0.3}, 2, 6, nil)
	h.Cases("zero-times", 64, func(c *C) {
		// explicit zero claims count as missing
		k := c.Idx % 4
		w := chainWorld(c, k)
		for j, s := range w.all() {
			if (c.Idx>>2+j)%3 == 0 {
				s.Iat, s.Exp = nil, nil
				s.Extra = map[string]any{}
				if c.R.Intn(2) == 0 {
					s.Extra["dummy"] = 1
				}
			}
		}
		checkWorld(c, w)
	})
	p03marks(h)
}

func p04(h *H) {
	// systematic: one constraint at one position of a straight chain
	h.Cases("maxpath", 5*5*6, func(c *C) {
		i := c.Idx
		k := 1 + i%5
		i /= 5
		pos := i % 5
		i /= 5
		w := chainWorld(c, k)
		var subs []*Stmt
		for _, s := range w.all() {
			if s.Iss != s.Sub {
				subs = append(subs, s)
			}
		}
		if pos >= len(subs) {
			return
		}
		subs[pos].Constraints = map[string]any{"max_path_length": i}
		checkWorld(c, w)
	})
	hosts := []string{
		"https://leaf.example.org", "https://LEAF.Example.ORG", "https://example.org", "https://a.b.example.org:444/x/y",
		"https://notexample.org", "https://example.org.evil.net", "https://leaf.example.org/example.net",
		"https://user@leaf.example.org", "https://192.0.2.1:8443", "https://xn--bcher-kva.example.org",
	}
	entries := []string{
		"leaf.example.org", ".example.org", "example.org", "EXAMPLE.org", ".EXAMPLE.ORG", "eaf.example.org", ".org", "org",
		".leaf.example.org", "192.0.2.1", ".b.example.org", "example.net", ".evil.net", "a.b.example.org:444",
	}
	h.Cases("naming", len(hosts)*len(entries)*len(entries)*3, func(c *C) {
		i := c.Idx
		host := hosts[i%len(hosts)]
		i /= len(hosts)
		e1 := entries[i%len(entries)]
		i /= len(entries)
		e2 := entries[i%len(entries)]
		i /= len(entries)
		w := chainWorld(c, 1)
		rename(w, "https://leaf.example.org", host)
		nc := map[string]any{}
		if i == 0 || i == 2 {
			nc["excluded"] = []string{e1}
		}
		if i == 1 || i == 2 {
			nc["permitted"] = []string{e2, e1}
			if i == 2 {
				nc["permitted"] = []string{e2}
			}
		}
		for _, s := range w.all() {
			if s.Iss != s.Sub {
				s.Constraints = map[string]any{"naming_constraints": nc}
			}
		}
		checkWorld(c, w)
	})
	generic(h, "constraints", h.N(3000, 60000), Profile{Edge: 0.5, Constraint: 0.25, NoPin: 0.2}, 2, 6, nil)
	generic(h, "constraints-deep", h.N(2000, 40000), Profile{Edge: 0.75, Constraint: 0.15, Layered: true}, 4, 7, nil)
	generic(h, "constraints-types", h.N(1500, 30000), Profile{Edge: 0.6, Constraint: 0.4, Layered: true, RandTypes: true}, 2, 5, nil)
	// each kind of constraint alone in otherwise valid federations
	for _, kind := range []string{"max_path_length", "naming_constraints", "allowed_entity_types"} {
		kind := kind
		h.Cases("only-"+kind, h.N(1000, 20000), func(c *C) {
			w := randWorld(c.R, Profile{Nodes: nodes(c, 3, 6), Edge: 0.6, Constraint: 0.5, Layered: c.R.Intn(2) == 0})
			for _, s := range w.all() {
				if s.Constraints != nil {
					if v, ok := s.Constraints[kind]; ok {
						s.Constraints = map[string]any{kind: v}
					} else {
						s.Constraints = nil
					}
				}
			}
			checkWorld(c, w)
		})
	}
}

// rename replaces an entity id in the whole world
func rename(w *World, from, to string) {
	for _, s := range w.all() {
		if s.Iss == from {
			s.Iss = to
		}
		if s.Sub == from {
			s.Sub = to
		}
		for i := range s.Hints {
			if s.Hints[i] == from {
				s.Hints[i] = to
			}
		}
	}
	if s, ok := w.EC[from]; ok {
		delete(w.EC, from)
		w.EC[to] = s
	}
	for _, m := range w.Fetch {
		if s, ok := m[from]; ok {
			delete(m, from)
			m[to] = s
		}
	}
	if w.Start == from {
		w.Start = to
	}
}

func p05(h *H) {
	exhaustive3(h, func(c *C, w *World) { checkWorld(c, w) })
	generic(h, "cyclic", h.N(1500, 20000), Profile{Edge: 0.8, SelfEdges: true, NoPin: 0.3}, 3, 6, nil)
	generic(h, "cyclic-lying", h.N(1500, 20000), Profile{Edge: 0.8, SelfEdges: true, Link: 0.1, Sig: 0.05, SharedKeys: 0.7}, 3, 6, nil)
	// no anchor is ever reached: everything is explored
	h.Cases("complete-no-anchor", h.N(60, 600), func(c *C) {
		w := randWorld(c.R, Profile{Nodes: nodes(c, 3, 6), Edge: 1, SelfEdges: true, SharedKeys: 0.5})
		w.TAs = []Anchor{{ID: "https://unrelated.example.net"}}
		checkWorld(c, w)
		// number of requests is bounded by the number of simple paths
		if n := len(netw.Requests); n > 2*2000+2 {
			c.Fail("explores-too-much", "%d requests", n)
		}
	})
	// entities that serve spellings of other ids, so that repetition is hidden behind another name
	h.Cases("aliases", h.N(400, 6000), func(c *C) {
		w := randWorld(c.R, Profile{Nodes: nodes(c, 3, 5), Edge: 0.7, SelfEdges: true, SharedKeys: 0.6})
		for _, s := range w.all() {
			for i, hnt := range s.Hints {
				if c.R.Intn(3) == 0 {
					alias := strings.TrimSuffix(hnt, "/")
					if alias == hnt {
						alias += "/"
					}
					s.Hints[i] = alias
					if _, ok := w.EC[alias]; !ok && w.EC[hnt] != nil {
						w.EC[alias] = w.EC[hnt]
					}
				}
			}
		}
		checkWorld(c, w)
	})
}

func p06(h *H) {
	exhaustive3(h, func(c *C, w *World) { checkWorld(c, w) })
	generic(h, "mixed-failures", h.N(4000, 80000), Profile{Edge: 0.6, Sig: 0.04, Time: 0.04, Link: 0.04, Gone: 0.06, Typ: 0.04, Meta: 0.04, Constraint: 0.08, NoPin: 0.3}, 3, 6, nil)
	generic(h, "all-valid", h.N(1500, 20000), Profile{Edge: 0.6, NoPin: 0.3}, 2, 6, nil)
	generic(h, "deep", h.N(500, 5000), Profile{Edge: 0.8, Layered: true, Gone: 0.1, Sig: 0.05}, 5, 8, nil)
	// several anchors, one below the other: anchors end paths
	h.Cases("stacked-anchors", h.N(500, 5000), func(c *C) {
		w := randWorld(c.R, Profile{Nodes: nodes(c, 3, 6), Edge: 0.7, Layered: true, NoPin: 0.3, Gone: 0.05})
		for id, s := range w.EC {
			if c.R.Intn(3) == 0 && w.anchor(id) == nil && id != w.Start {
				w.TAs = append(w.TAs, Anchor{id, []*Key{s.Signer}})
			}
		}
		checkWorld(c, w)
	})
	// one good path next to one broken path, the broken one broken in every way, in both orders
	h.Cases("other-branch", 2*40, func(c *C) {
		good := chainWorld(c, 2)
		bad := "https://bad.example.org"
		dev := c.Idx / 2
		leaf := good.EC[good.Start]
		if c.Idx%2 == 0 {
			leaf.Hints = append([]string{bad}, leaf.Hints...)
		} else {
			leaf.Hints = append(leaf.Hints, bad)
		}
		ec := &Stmt{Iss: bad, Sub: bad, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[7]}, Signer: keys[7], Hints: []string{good.TAs[0].ID},
			Meta: map[string]any{"federation_entity": fedEntity(bad)}}
		s1 := &Stmt{Iss: bad, Sub: good.Start, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[0]}, Signer: keys[7]}
		s2 := &Stmt{Iss: good.TAs[0].ID, Sub: bad, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[7]}, Signer: keys[2]}
		good.EC[bad] = ec
		good.addFetch(bad+"/fetch", good.Start, s1)
		good.addFetch(good.TAs[0].ID+"/fetch", bad, s2)
		x := []*Stmt{ec, s1, s2}[dev%3]
		switch dev / 3 {
		case 0:
			x.Drop = true
		case 1:
			x.Drop, x.Status = true, -1
		case 2:
			x.Tamper = true
		case 3:
			x.Exp = fp(-5)
		case 4:
			x.Iat = fp(500)
		case 5:
			x.Typ = "JWT"
		case 6:
			x.Iss = "https://someone.example.org"
		case 7:
			x.Sub = "https://someone.example.org"
		case 8:
			x.Keys = nil
		case 9:
			x.Constraints = map[string]any{"max_path_length": -1}
		case 10:
			x.Meta = nil
			x.Hints = nil
		case 11:
			x.Signer = keys[8]
		case 12:
			x.Constraints = map[string]any{"allowed_entity_types": []string{}}
		}
		checkWorld(c, good)
	})
}

func p26(h *H) {
	check := func(c *C, w *World, chains oidfed.TrustChains) {
		exp := restrict(w.EC[w.Start].Meta, w.Types)
		for _, ch := range chains {
			got := norm(ch[0].Metadata)
			want := norm(exp)
			if exp == nil {
				want = nil
			}
			if !metaEq(got, want) {
				c.Fail("metadata", "types %v: metadata is %s, want %s", w.Types, jstr(got), jstr(want))
			}
			if len(ch) > 1 { // without policies the resolved metadata is the restricted one as well
				m, err := ch.Metadata()
				if err != nil {
					c.Fail("metadata", "metadata of chain: %v", err)
				} else if exp != nil && !metaEq(norm(m), want) {
					c.Fail("metadata", "types %v: resolved metadata is %s, want %s", w.Types, njson(m), jstr(want))
				}
			}
			// superiors keep theirs
			for i := 1; i < len(ch); i++ {
				if ch[i].Issuer == ch[i].Subject && !metaEq(norm(ch[i].Metadata), norm(w.EC[ch[i].Issuer].Meta)) {
					c.Fail("metadata", "metadata of superior %s changed: %s", ch[i].Issuer, njson(ch[i].Metadata))
				}
			}
		}
	}
	// all subsets of types in a fixed federation whose leaf publishes everything
	h.Cases("subsets", 256, func(c *C) {
		w := chainWorld(c, 1+c.Idx%3)
		leaf := w.EC[w.Start]
		leaf.Meta = map[string]any{}
		for i, t := range allTypes {
			leaf.Meta[t] = map[string]any{"organization_name": fmt.Sprintf("org%d", i), "x_extra": []any{1.0, "a"}}
		}
		leaf.Meta["federation_entity"] = fedEntity(w.Start)
		for i, t := range allTypes {
			if c.Idx>>i&1 == 1 {
				w.Types = append(w.Types, t)
			}
		}
		if c.Idx%5 == 0 {
			w.Types = append(w.Types, "not_published")
		}
		check(c, w, checkWorld(c, w))
	})
	generic(h, "types", h.N(2500, 40000), Profile{Edge: 0.6, RandTypes: true, Constraint: 0.2, Meta: 0.05}, 1, 5, check)
	generic(h, "untyped", h.N(500, 5000), Profile{Edge: 0.6, Constraint: 0.2}, 1, 5, check)
	// entity types whose names are almost those that are asked for
	h.Cases("near", h.N(600, 6000), func(c *C) {
		w := chainWorld(c, 1+c.R.Intn(2))
		base := []string{"acme", "acme_type", "openid_provider", "openid_relying_party", "oauth_client", "federation_entity"}
		leaf := w.EC[w.Start]
		leaf.Meta = map[string]any{}
		w.Types = []string{}
		for i := 1 + c.R.Intn(3); i > 0; i-- {
			t := pick(c.R, base...)
			leaf.Meta[t] = map[string]any{"organization_name": "o" + t}
			n := almost(c.R, t, base...)
			if strings.EqualFold(n, t) { // encoding/json does not distinguish upper and lower case
				n = t + "s"
			}
			leaf.Meta[n] = map[string]any{"organization_name": "n" + n}
			w.Types = append(w.Types, pick(c.R, t, n))
		}
		if leaf.Meta["federation_entity"] != nil {
			leaf.Meta["federation_entity"] = fedEntity(w.Start)
		}
		check(c, w, checkWorld(c, w))
	})
	// constraints judge what remains
	h.Cases("constraint-on-rest", h.N(1000, 10000), func(c *C) {
		w := chainWorld(c, 1+c.R.Intn(3))
		leaf := w.EC[w.Start]
		leaf.Meta = map[string]any{}
		for _, t := range allTypes {
			if c.R.Intn(2) == 0 {
				leaf.Meta[t] = map[string]any{"organization_name": "o"}
			}
			if c.R.Intn(2) == 0 {
				w.Types = append(w.Types, t)
			}
		}
		allowed := []string{}
		for _, t := range allTypes {
			if c.R.Intn(3) > 0 {
				allowed = append(allowed, t)
			}
		}
		for _, s := range w.all() {
			if s.Iss != s.Sub && c.R.Intn(2) == 0 {
				s.Constraints = map[string]any{"allowed_entity_types": allowed}
			}
		}
		check(c, w, checkWorld(c, w))
	})
}

// metaEq compares metadata; absent and empty objects are the same, and so are absent and empty (null, "") parameters,
// since the library writes some parameters even if they are empty
func metaEq(a, b any) bool {
	return jstr(stripEmpty(a)) == jstr(stripEmpty(b))
}

func stripEmpty(m any) any {
	mm, ok := m.(map[string]any)
	if !ok || len(mm) == 0 {
		return nil
	}
	out := map[string]any{}
	for t, v := range mm {
		vm, ok := v.(map[string]any)
		if !ok {
			out[t] = v
			continue
		}
		o := map[string]any{}
		for k, x := range vm {
			if x == nil || x == "" {
				continue
			}
			o[k] = x
		}
		out[t] = o
	}
	return out
}
