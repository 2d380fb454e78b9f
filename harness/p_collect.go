package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

func init() {
	properties["P23"] = p23
}

// collWorld is a federation with list endpoints and trust marks
type collWorld struct {
	*World
	ids            []string
	list           map[string][]string // subordinates by entity
	bad            map[string]string   // misbehaviour of the list endpoint
	marks          map[string][]*Mark
	ta             string
	mw             *MarkWorld
	issued, owners bool
}

var nameKeys = map[string][]string{
	"openid_provider": {"display_name", "organization_name"}, "openid_relying_party": {"display_name", "client_name"},
	"oauth_authorization_server": {"display_name", "organization_name"}, "oauth_client": {"display_name", "client_name"},
	"oauth_resource": {"display_name", "resource_name"}, "federation_entity": {"display_name", "organization_name"},
}

func randCollWorld(c *C, n int) *collWorld {
	r := c.R
	w := &collWorld{World: newWorld(), list: map[string][]string{}, bad: map[string]string{}, marks: map[string][]*Mark{}}
	for i := 0; i < n; i++ {
		w.ids = append(w.ids, fmt.Sprintf("https://e%d.example.org", i))
	}
	w.ta = w.ids[0]
	parents := map[string][]string{}
	for i := 1; i < n; i++ {
		for _, j := range r.Perm(n) {
			if (j < i && chance(r, 0.45)) || (j >= i && chance(r, 0.08)) {
				parents[w.ids[i]] = append(parents[w.ids[i]], w.ids[j])
			}
		}
	}
	if chance(r, 0.2) { // the trust anchor is listed itself
		parents[w.ta] = append(parents[w.ta], w.ids[r.Intn(n)])
	}
	for i, id := range w.ids {
		s := &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[i]}, Signer: keys[i]}
		if i > 0 {
			s.Meta = map[string]any{}
			for t, nk := range nameKeys {
				if !chance(r, 0.35) {
					continue
				}
				m := map[string]any{}
				for _, k := range nk {
					if chance(r, 0.6) {
						m[k] = pick(r, "Alpha One", "beta", "GAMMA ray", "alphabet", "delta", "")
					}
				}
				for _, k := range []string{"description", "logo_uri", "policy_uri", "information_uri"} {
					if chance(r, 0.3) {
						m[k] = fmt.Sprintf("%s-%s-%d", k, t, i)
					}
				}
				if chance(r, 0.3) {
					m["keywords"] = []any{"k1", fmt.Sprintf("k%d", i)}
				}
				s.Meta[t] = m
			}
			if chance(r, 0.2) {
				s.Meta["acme_type"] = map[string]any{"display_name": "alpha", "description": "d"}
			}
			s.Hints = parents[id]
		}
		isSup := false
		for _, ps := range parents {
			for _, p := range ps {
				isSup = isSup || p == id
			}
		}
		if isSup || i == 0 {
			if s.Meta == nil {
				s.Meta = map[string]any{}
			}
			fe, _ := s.Meta["federation_entity"].(map[string]any)
			if fe == nil {
				fe = map[string]any{}
			}
			fe["federation_fetch_endpoint"] = id + "/fetch"
			fe["federation_list_endpoint"] = id + "/list"
			s.Meta["federation_entity"] = fe
		}
		w.EC[id] = s
	}
	for i, id := range w.ids {
		for _, p := range parents[id] {
			w.list[p] = append(w.list[p], id)
			att := keys[i]
			if chance(r, 0.12) { // no valid trust chain through here
				att = keys[15]
			}
			w.addFetch(p+"/fetch", id, &Stmt{Iss: p, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{att}, Signer: w.EC[p].Signer})
		}
	}
	for id, l := range w.list { // listed several times, unknown entities
		if chance(r, 0.15) {
			w.list[id] = append(l, l[0])
		}
		if chance(r, 0.25) {
			w.list[id] = append([]string{"https://gone.example.org", "not a url"}[r.Intn(2):], w.list[id]...)
		}
		if id != w.ta && chance(r, 0.12) {
			w.bad[id] = pick(r, "error", "garbage", "transport", "object")
		}
	}
	for _, id := range w.ids[1:] {
		switch {
		case chance(r, 0.08):
			w.EC[id].Drop = true
			w.EC[id].Status = -r.Intn(2)
		case chance(r, 0.05):
			w.EC[id].Meta = nil
		}
	}
	// trust marks; they are issued by a dedicated issuer below the trust anchor
	tmi := "https://tmi.example.org"
	w.EC[tmi] = &Stmt{
		Iss: tmi, Sub: tmi, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[13]}, Signer: keys[13], Hints: []string{w.ta},
		Meta: map[string]any{"federation_entity": map[string]any{"organization_name": "tmi"}},
	}
	w.addFetch(w.ta+"/fetch", tmi, &Stmt{Iss: w.ta, Sub: tmi, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[13]}, Signer: keys[0]})
	w.mw = &MarkWorld{World: w.World, TA: w.EC[w.ta], Issuers: map[string][]string{tmTypes[0]: {tmi}, tmTypes[1]: {tmi, "https://other.example.org"}}}
	for _, id := range w.ids[1:] {
		for k := 0; k < r.Intn(4); k++ {
			m := &Mark{Type: pick(r, tmTypes...), Iss: tmi, Sub: id, Iat: fp(-5), Exp: fp(500), Signer: keys[13], Typ: typTM}
			m.Announced = m.Type
			switch r.Intn(8) {
			case 0:
				m.Exp = fp(-3)
			case 1:
				m.Signer = keys[14]
			case 2:
				m.Sub = w.ids[r.Intn(n)]
			case 3:
				m.Iss, m.Signer = "https://nobody.example.org", keys[14]
			case 4:
				m.Garbage = true
			}
			w.marks[id] = append(w.marks[id], m)
		}
		l := []any{}
		for _, m := range w.marks[id] {
			l = append(l, map[string]any{"trust_mark_type": m.Announced, "trust_mark": m.JWT()})
		}
		w.EC[id].Extra = map[string]any{"trust_marks": l}
	}
	w.EC[w.ta].Extra = map[string]any{"trust_mark_issuers": w.mw.Issuers}
	return w
}

func (w *collWorld) serve() {
	netw.Reset()
	w.Serve()
	for id := range w.EC {
		id := id
		netw.Handle(id+"/list", func(*http.Request) (int, string, []byte, error) {
			switch w.bad[id] {
			case "error":
				return 500, "application/json", []byte(`{"error":"server_error"}`), nil
			case "garbage":
				return 200, "application/json", []byte(`[[[`), nil
			case "transport":
				return 0, "", nil, fmt.Errorf("refused")
			case "object":
				return 200, "application/json", []byte(`{"a":1}`), nil
			}
			return jsonResp(w.list[id])
		})
	}
}

// reachable gives the entities below the trust anchor whose entity configuration is available
func (w *collWorld) reachable() (out []string) {
	seen := map[string]bool{}
	expanded := map[string]bool{}
	var walk func(id string)
	walk = func(id string) {
		if expanded[id] {
			return
		}
		expanded[id] = true
		s := w.EC[id]
		if s == nil || s.Drop || s.Meta == nil {
			return
		}
		fe, _ := s.Meta["federation_entity"].(map[string]any)
		if fe == nil || fe["federation_list_endpoint"] == nil || w.bad[id] != "" {
			return
		}
		for _, sub := range w.list[id] {
			x := w.EC[sub]
			if x == nil || x.Drop || x.Meta == nil {
				continue
			}
			if !seen[sub] {
				seen[sub] = true
				out = append(out, sub)
			}
			walk(sub)
		}
	}
	walk(w.ta)
	sort.Strings(out)
	return
}

func subsequence(q, s string) bool {
	q, s = strings.ToLower(q), strings.ToLower(s)
	i := 0
	for j := 0; j < len(s) && i < len(q); j++ {
		if s[j] == q[i] {
			i++
		}
	}
	return i == len(q)
}

func displayName(t string, meta any) (string, bool) {
	nk, ok := nameKeys[t]
	if !ok {
		return "", false
	}
	m, _ := meta.(map[string]any)
	for _, k := range nk {
		if s, _ := m[k].(string); s != "" {
			return s, true
		}
	}
	return "", true
}

func (w *collWorld) validMark(id, typ string) bool {
	for _, m := range w.marks[id] {
		if m.Announced == typ && m.Sub == id && w.mw.refFederation(m) == "" {
			return true
		}
	}
	return false
}

func (w *collWorld) matches(id string, req apimodel.EntityCollectionRequest) bool {
	meta := w.EC[id].Meta
	if req.EntityTypes != nil {
		ok := false
		for _, t := range req.EntityTypes {
			_, has := meta[t]
			ok = ok || has
		}
		if !ok {
			return false
		}
	}
	for _, t := range req.TrustMarkTypes {
		if !w.validMark(id, t) {
			return false
		}
	}
	if req.NameQuery != "" {
		ok := false
		for t, m := range meta {
			if n, has := displayName(t, m); has {
				ok = ok || subsequence(req.NameQuery, n)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// expectedEntity gives the collected entity without trust chain and trust marks
func (w *collWorld) expectedEntity(id string, claims []string) map[string]any {
	want := func(cl string) bool { return claims == nil || has(claims, cl) }
	e := map[string]any{"entity_id": id}
	meta := w.EC[id].Meta
	if want("entity_types") {
		var ts []string
		for t := range meta {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		e["entity_types"] = ts
	}
	infos := map[string]any{}
	for t, mm := range meta {
		if _, known := nameKeys[t]; !known {
			continue
		}
		m := mm.(map[string]any)
		info := map[string]any{}
		for _, k := range []string{"description", "logo_uri", "policy_uri", "information_uri", "keywords"} {
			if v, ok := m[k]; ok && want(k) {
				info[k] = v
			}
		}
		if n, _ := displayName(t, m); n != "" && want("display_name") {
			info["display_name"] = n
		}
		if len(info) > 0 {
			infos[t] = info
		}
	}
	if len(infos) > 0 {
		e["ui_infos"] = infos
	}
	return e
}

func p23(h *H) {
	randReq := func(c *C, w *collWorld) (req apimodel.EntityCollectionRequest) {
		r := c.R
		req.TrustAnchor = w.ta
		if chance(r, 0.5) {
			for i := 0; i <= r.Intn(2); i++ {
				req.EntityTypes = append(req.EntityTypes, pick(r, allTypes...))
			}
		}
		if chance(r, 0.35) {
			for i := 0; i <= r.Intn(2); i++ {
				req.TrustMarkTypes = append(req.TrustMarkTypes, pick(r, tmTypes...))
			}
		}
		if chance(r, 0.35) {
			req.NameQuery = pick(r, "alpha", "ALPHA", "bt", "ma ra", "zzz", "e", "alpha one", "lpho")
		}
		if chance(r, 0.5) {
			for _, cl := range []string{
				"entity_types", "display_name", "description", "logo_uri", "policy_uri", "information_uri", "keywords", "trust_marks", "trust_chain", "metadata",
			} {
				if chance(r, 0.35) {
					req.Claims = append(req.Claims, cl)
				}
			}
		}
		return
	}
	valid := func(w *collWorld, id string) []RefChain {
		x := *w.World
		x.Start = id
		x.Types = nil
		x.TAs = []Anchor{{ID: w.ta}}
		return x.Expected()
	}
	check := func(c *C, kind string, w *collWorld, req apimodel.EntityCollectionRequest, want []string, got []*oidfed.CollectedEntity) {
		var ids []string
		byID := map[string]*oidfed.CollectedEntity{}
		for _, e := range got {
			ids = append(ids, e.EntityID)
			byID[e.EntityID] = e
		}
		sort.Strings(ids)
		if !c.Must(jstr(append([]string{}, ids...)) == jstr(append([]string{}, want...)), kind+"-entities", "expected %v, got %v", want, ids) {
			return
		}
		for _, id := range want {
			e := byID[id]
			g, _ := norm(e).(map[string]any)
			wantE, _ := norm(w.expectedEntity(id, req.Claims)).(map[string]any)
			if l, ok := g["entity_types"].([]any); ok {
				sort.Slice(l, func(i, j int) bool { return l[i].(string) < l[j].(string) })
			}
			chain, marks := g["trust_chain"], g["trust_marks"]
			delete(g, "trust_chain")
			delete(g, "trust_marks")
			if d := diff("$", noEmpty(wantE), noEmpty(g)); d != "" {
				c.Fail(kind+"-claims", "%s (claims %v): %s", id, req.Claims, d)
			}
			chains := valid(w, id)
			if has(req.Claims, "trust_chain") && len(chains) > 0 {
				found := false
				for _, ch := range chains {
					var l []any
					for _, s := range ch {
						l = append(l, string(s.JWT()))
					}
					found = found || jstr(l) == jstr(chain)
				}
				c.Must(found, kind+"-chain", "%s: the trust chain is not a valid one: %s", id, trunc(jstr(chain), 200))
			} else {
				c.Must(chain == nil, kind+"-chain", "%s: unexpected trust chain", id)
			}
			var wm []string
			if has(req.Claims, "trust_marks") {
				for _, m := range w.marks[id] {
					if m.Sub == id && w.mw.refFederation(m) == "" {
						wm = append(wm, m.JWT())
					}
				}
			}
			var gm []string
			if l, ok := marks.([]any); ok {
				for _, m := range l {
					gm = append(gm, m.(map[string]any)["trust_mark"].(string))
				}
			}
			c.Must(jstr(wm) == jstr(gm), kind+"-marks", "%s: expected %d trust marks, got %d", id, len(wm), len(gm))
		}
	}
	h.Cases("simple", h.N(1400, 30000), func(c *C) {
		w := randCollWorld(c, 2+c.R.Intn(7))
		req := randReq(c, w)
		w.serve()
		dump := w.Dump().(map[string]any)
		dump["list"], dump["bad"], dump["request"] = w.list, w.bad, req
		c.Input = dump
		var want []string
		reach := w.reachable()
		for _, id := range reach {
			if w.matches(id, req) {
				want = append(want, id)
			}
		}
		c.Eval(fmt.Sprint("simple ", len(reach), want, req.EntityTypes, req.NameQuery, len(req.TrustMarkTypes), req.Claims, w.bad))
		got := (&oidfed.SimpleEntityCollector{}).CollectEntities(req)
		check(c, "simple", w, req, want, got)
		if chance(c.R, 0.2) { // a collector can be used again
			col := &oidfed.SimpleEntityCollector{}
			col.CollectEntities(req)
			check(c, "again", w, req, want, col.CollectEntities(req))
		}
		if chance(c.R, 0.3) {
			r2 := req
			r2.EntityTypes = []string{"openid_provider"}
			var ops []string
			for _, id := range reach {
				if w.matches(id, r2) {
					ops = append(ops, id)
				}
			}
			check(c, "ops", w, r2, ops, (&oidfed.SimpleOPCollector{}).CollectEntities(req))
		}
		if chance(c.R, 0.5) {
			var ver []string
			for _, id := range want {
				if len(valid(w, id)) > 0 {
					ver = append(ver, id)
				}
			}
			check(c, "verified", w, req, ver, oidfed.VerifiedChainsEntityCollector{}.CollectEntities(req))
			// an additional filter
			var fl []string
			for _, id := range ver {
				if len(id)%2 == 0 || strings.Contains(id, "e1") {
					fl = append(fl, id)
				}
			}
			calls := 0
			f := oidfed.NewEntityCollectionFilter(func(e *oidfed.CollectedEntity) bool {
				calls++
				return len(e.EntityID)%2 == 0 || strings.Contains(e.EntityID, "e1")
			})
			col := oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{f}}
			check(c, "filtered", w, req, fl, col.CollectEntities(req))
			not := oidfed.NewEntityCollectionFilter(func(e *oidfed.CollectedEntity) bool { return false })
			col = oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{not, f}}
			check(c, "filtered-none", w, req, nil, col.CollectEntities(req))
		}
		// every entity configuration and list is only obtained a bounded number of times: cyclic subordinations end
		for id := range w.list {
			n := netw.Count("GET " + id + "/list")
			c.Must(n <= 8, "list-requests", "%d requests to the list endpoint of %s", n, id)
		}
	})
	h.Cases("opfilters", h.N(500, 10000), func(c *C) {
		w := randCollWorld(c, 2+c.R.Intn(5))
		grants := []string{"a", "b", "c"}
		for _, id := range w.ids[1:] {
			if op, ok := w.EC[id].Meta["openid_provider"].(map[string]any); ok {
				op["issuer"] = id
				for _, k := range []string{"grant_types_supported", "scopes_supported", "client_registration_types_supported"} {
					pool := grants
					if k[0] == 'c' {
						pool = []string{"automatic", "explicit", "Automatic"}
					}
					l := []any{}
					for _, g := range pool {
						if chance(c.R, 0.5) {
							l = append(l, g)
						}
					}
					if chance(c.R, 0.85) {
						op[k] = l
					}
				}
			}
		}
		w.serve()
		need := []string{}
		for _, g := range grants {
			if chance(c.R, 0.4) {
				need = append(need, g)
			}
		}
		c.Input = w.Dump()
		req := apimodel.EntityCollectionRequest{TrustAnchor: w.ta}
		tas := []string{w.ta}
		sub := func(key string, need []string) func(op map[string]any) bool {
			return func(op map[string]any) bool {
				l := strs(norm(op[key]))
				for _, n := range need {
					if !has(l, n) {
						return false
					}
				}
				return true
			}
		}
		fs := []struct {
			f    oidfed.EntityCollectionFilter
			want func(op map[string]any) bool
		}{
			{oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(tas, need...), sub("grant_types_supported", need)},
			{oidfed.EntityCollectionFilterOPSupportedScopesIncludes(tas, need...), sub("scopes_supported", need)},
			{oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(tas), sub("client_registration_types_supported", []string{"explicit"})},
			{oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(tas), sub("client_registration_types_supported", []string{"automatic"})},
			{oidfed.EntityCollectionFilterOPs(), func(map[string]any) bool { return true }},
		}
		for i, f := range fs {
			c.Eval(fmt.Sprint("opf", i, need, len(w.reachable())))
			var want []string
			for _, id := range w.reachable() {
				op, ok := w.EC[id].Meta["openid_provider"].(map[string]any)
				if ok && len(valid(w, id)) > 0 && f.want(op) {
					want = append(want, id)
				}
			}
			col := oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{f.f}}
			check(c, fmt.Sprintf("opfilter%d", i), w, req, want, col.CollectEntities(req))
			// the same filter next to another one
			col = oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{f.f, oidfed.EntityCollectionFilterOPs()}}
			check(c, fmt.Sprintf("opfilter%d-two", i), w, req, want, col.CollectEntities(req))
		}
	})
	h.Cases("wide", h.N(6, 40), func(c *C) {
		// more subordinates than there are workers
		w := randCollWorld(c, 2)
		n := 100 + c.R.Intn(200)
		w.list[w.ta] = nil
		w.bad = map[string]string{}
		delete(w.list, w.ids[1])
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("https://wide%d.example.org", i)
			s := &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[5]}, Signer: keys[5], Meta: map[string]any{"oauth_client": map[string]any{"client_name": "x"}}}
			if i%7 == 0 {
				s.Drop = true
			}
			w.EC[id] = s
			w.list[w.ta] = append(w.list[w.ta], id)
		}
		w.serve()
		req := apimodel.EntityCollectionRequest{TrustAnchor: w.ta}
		c.Eval(fmt.Sprint("wide", n))
		var want []string
		for _, id := range w.reachable() {
			want = append(want, id)
		}
		var ids []string
		for _, e := range (&oidfed.SimpleEntityCollector{}).CollectEntities(req) {
			ids = append(ids, e.EntityID)
		}
		sort.Strings(ids)
		c.Must(jstr(ids) == jstr(want), "wide", "expected %d entities, got %d", len(want), len(ids))
	})
	h.Cases("remote", h.N(1200, 25000), func(c *C) {
		w := randCollWorld(c, 2+c.R.Intn(4))
		req := randReq(c, w)
		req.Claims = nil
		anchors := []string{}
		kinds := []string{}
		n := 1 + c.R.Intn(3)
		type tent struct {
			id   string
			kind string
		}
		var order []tent
		for i := 0; i < n; i++ {
			k := pick(c.R, "none", "good", "good-empty", "error", "garbage", "transport", "noec", "badtype", "none")
			id := fmt.Sprintf("https://anchor%d.example.net", i)
			anchors = append(anchors, id)
			kinds = append(kinds, k)
			order = append(order, tent{id, k})
		}
		taKind := pick(c.R, "none", "good", "error", "garbage", "transport", "none", "badtype")
		cfgTAs := append([]string{}, anchors...)
		if chance(c.R, 0.5) { // the request's anchor is among the configured ones
			i := c.R.Intn(len(cfgTAs) + 1)
			cfgTAs = append(cfgTAs[:i], append([]string{w.ta}, cfgTAs[i:]...)...)
		}
		order = append([]tent{{w.ta, taKind}}, order...)
		ents := func(id string) []any {
			return []any{
				map[string]any{"entity_id": id + "/a", "entity_types": []any{"openid_provider"}, "x_extra": "y"},
				map[string]any{"entity_id": id + "/b", "ui_infos": map[string]any{"openid_provider": map[string]any{"display_name": "n"}}},
			}
		}
		set := func(id, kind string, ec *Stmt) {
			ec.Drop = kind == "noec"
			if kind != "none" {
				ec.Meta["federation_entity"].(map[string]any)["federation_collection_endpoint"] = id + "/collect"
			}
			if kind == "badtype" {
				ec.Meta["federation_entity"].(map[string]any)["federation_collection_endpoint"] = 5
			}
			ec.raw = nil
		}
		set(w.ta, taKind, w.EC[w.ta])
		for i, id := range anchors {
			ec := &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[10+i]}, Signer: keys[10+i], now: nowf()}
			ec.Meta = map[string]any{"federation_entity": fedEntity(id)}
			w.EC[id] = ec
			set(id, kinds[i], ec)
		}
		w.serve()
		var queries []string
		for _, t := range order {
			t := t
			netw.Handle(t.id+"/collect", func(req *http.Request) (int, string, []byte, error) {
				queries = append(queries, req.URL.RawQuery)
				switch t.kind {
				case "good":
					return jsonResp(map[string]any{"federation_entities": ents(t.id)})
				case "good-empty":
					return jsonResp(map[string]any{"federation_entities": []any{}})
				case "error":
					return 400, "application/json", []byte(`{"error":"unsupported_parameter"}`), nil
				case "garbage":
					return 200, "application/json", []byte("{{{"), nil
				}
				return 0, "", nil, fmt.Errorf("refused")
			})
		}
		c.Input = map[string]any{"order": fmt.Sprint(order), "configured": cfgTAs, "request": req, "world": w.Dump()}
		c.Eval(fmt.Sprint("remote", taKind, kinds, len(cfgTAs)))
		got := oidfed.SmartRemoteEntityCollector{TrustAnchors: cfgTAs}.CollectEntities(req)
		for _, t := range order {
			if t.kind == "good" || t.kind == "good-empty" {
				want := []any{}
				if t.kind == "good" {
					want = ents(t.id)
				}
				g := norm(got)
				if g == nil {
					g = []any{}
				}
				c.Must(jstr(norm(want)) == jstr(g), "remote-entities", "expected the answer of %s: %s, got %s", t.id, jstr(want), trunc(jstr(got), 500))
				q := ""
				if len(queries) > 0 {
					q = queries[len(queries)-1]
				}
				for k, vs := range map[string][]string{
					"trust_anchor": {w.ta}, "entity_type": req.EntityTypes, "trust_mark_type": req.TrustMarkTypes, "name_query": nonEmpty(req.NameQuery),
				} {
					u, _ := http.NewRequest("GET", "http://x/?"+q, nil)
					qv := u.URL.Query()[k]
					if len(vs) == 0 && len(qv) == 1 && qv[0] == "" {
						continue
					}
					c.Must(strings.Join(qv, "|") == strings.Join(vs, "|"), "remote-query", "%s was sent as %v instead of %v", k, qv, vs)
				}
				return
			}
		}
		var want []string
		for _, id := range w.reachable() {
			if w.matches(id, req) {
				want = append(want, id)
			}
		}
		check(c, "fallback", w, req, want, got)
	})
}

func nonEmpty(s string) []string {
	if s == "" {
		return nil
	}
	return []string{s}
}
