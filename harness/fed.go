package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"

	oidfed "github.com/go-oidfed/lib"
)

const typES = "entity-statement+jwt"

// Stmt is the declarative description of a statement served by the simulated federation
type Stmt struct {
	Iss, Sub    string
	Iat, Exp    *float64 // offsets to now; nil: absent
	Keys        []*Key
	Meta        map[string]any
	Hints       []string
	Policy      map[string]any
	Crit        []string
	Constraints map[string]any
	Extra       map[string]any
	Signer      *Key
	Tamper      bool
	Typ         string
	raw         []byte
	now         float64
	Drop        bool // not available
	Status      int
}

func fp(f float64) *float64 { return &f }

// Payload gives the claims
func (s *Stmt) Payload() map[string]any {
	p := map[string]any{}
	for k, v := range s.Extra {
		p[k] = v
	}
	p["iss"], p["sub"] = s.Iss, s.Sub
	if s.Iat != nil {
		p["iat"] = s.now + *s.Iat
	}
	if s.Exp != nil {
		p["exp"] = s.now + *s.Exp
	}
	if s.Keys != nil {
		p["jwks"] = jwksOf(s.Keys...)
	}
	if s.Meta != nil {
		p["metadata"] = s.Meta
	}
	if s.Hints != nil {
		p["authority_hints"] = s.Hints
	}
	if s.Policy != nil {
		p["metadata_policy"] = s.Policy
	}
	if s.Crit != nil {
		p["metadata_policy_crit"] = s.Crit
	}
	if s.Constraints != nil {
		p["constraints"] = s.Constraints
	}
	return p
}

// JWT signs the statement (once)
func (s *Stmt) JWT() []byte {
	if s.raw == nil {
		if s.now == 0 {
			s.now = nowf()
		}
		typ := s.Typ
		if typ == "" {
			typ = typES
		}
		t := jwt(typ, s.Payload(), s.Signer)
		if s.Tamper {
			// the payload is exchanged, the signature stays
			p := s.Payload()
			p["x"] = "tampered"
			parts := strings.Split(string(jwt(typ, p, s.Signer)), ".")
			orig := strings.Split(string(t), ".")
			t = []byte(orig[0] + "." + parts[1] + "." + orig[2])
		}
		s.raw = t
	}
	return s.raw
}

func (s *Stmt) usable() bool { return s != nil && !s.Drop && (s.Typ == "" || s.Typ == typES) }
func (s *Stmt) timeOK() bool {
	return (s.Iat == nil || *s.Iat <= 0) && (s.Exp == nil || *s.Exp >= 0)
}
func (s *Stmt) sigOK(ks []*Key) bool {
	if s.Tamper {
		return false
	}
	for _, k := range ks {
		if k == s.Signer {
			return true
		}
	}
	return false
}
func (s *Stmt) fetchEndpoint() string {
	if s.Meta == nil {
		return ""
	}
	fe, _ := s.Meta["federation_entity"].(map[string]any)
	if fe == nil {
		return ""
	}
	e, _ := fe["federation_fetch_endpoint"].(string)
	return e
}

// Anchor is a configured trust anchor
type Anchor struct {
	ID   string
	Keys []*Key // nil: none pinned
}

// World is a simulated federation
type World struct {
	EC    map[string]*Stmt            // by requested entity id
	Fetch map[string]map[string]*Stmt // by endpoint and sub
	TAs   []Anchor
	Start string
	Types []string
	Note  string
}

func newWorld() *World {
	return &World{EC: map[string]*Stmt{}, Fetch: map[string]map[string]*Stmt{}}
}

// Dump gives a self-contained description
func (w *World) Dump() any {
	served := map[string]any{}
	for id, s := range w.EC {
		if !s.Drop {
			served[strings.TrimSuffix(id, "/")+"/.well-known/openid-federation"] = string(s.JWT())
		}
	}
	for ep, m := range w.Fetch {
		for sub, s := range m {
			if !s.Drop {
				served[ep+"?sub="+url.QueryEscape(sub)] = string(s.JWT())
			}
		}
	}
	tas := []any{}
	for _, t := range w.TAs {
		a := map[string]any{"entity_id": t.ID}
		if t.Keys != nil {
			a["jwks"] = jwksOf(t.Keys...)
		}
		tas = append(tas, a)
	}
	return map[string]any{"served": served, "trust_anchors": tas, "start": w.Start, "types": w.Types, "note": w.Note}
}

func (w *World) addFetch(ep, sub string, s *Stmt) {
	if w.Fetch[ep] == nil {
		w.Fetch[ep] = map[string]*Stmt{}
	}
	w.Fetch[ep][sub] = s
}

// Serve installs the federation in the simulated network
func (w *World) Serve() {
	now := nowf()
	for _, s := range w.EC {
		if s.now == 0 {
			s.now = now
		}
		s.JWT()
	}
	for _, m := range w.Fetch {
		for _, s := range m {
			if s.now == 0 {
				s.now = now
			}
			s.JWT()
		}
	}
	for id, s := range w.EC {
		s := s
		netw.Handle(
			strings.TrimSuffix(id, "/")+"/.well-known/openid-federation",
			func(*http.Request) (int, string, []byte, error) { return serveStmt(s) },
		)
	}
	for ep, m := range w.Fetch {
		m := m
		netw.Handle(
			ep, func(req *http.Request) (int, string, []byte, error) {
				return serveStmt(m[req.URL.Query().Get("sub")])
			},
		)
	}
}

func serveStmt(s *Stmt) (int, string, []byte, error) {
	if s == nil || s.Drop {
		if s != nil && s.Status < 0 {
			return 0, "", nil, fmt.Errorf("connection refused")
		}
		return 404, "application/json", []byte(`{"error":"not_found","error_description":"x"}`), nil
	}
	return 200, "application/entity-statement+jwt", s.JWT(), nil
}

func (w *World) anchors() (as []oidfed.TrustAnchor) {
	for _, t := range w.TAs {
		a := oidfed.TrustAnchor{EntityID: t.ID}
		if t.Keys != nil {
			a.JWKS = setOf(t.Keys...)
		}
		as = append(as, a)
	}
	return
}

func (w *World) anchor(id string) *Anchor {
	for i := range w.TAs {
		if w.TAs[i].ID == id {
			return &w.TAs[i]
		}
	}
	return nil
}

func (w *World) resolver() *oidfed.TrustResolver {
	return &oidfed.TrustResolver{TrustAnchors: w.anchors(), StartingEntity: w.Start, Types: w.Types}
}

func typesOf(meta map[string]any) map[string]bool {
	out := map[string]bool{}
	for k, v := range meta {
		if v != nil {
			out[k] = true
		}
	}
	return out
}

func restrict(meta map[string]any, types []string) map[string]any {
	if meta == nil || len(types) == 0 {
		return meta
	}
	out := map[string]any{}
	for _, t := range types {
		if v, ok := meta[t]; ok {
			out[t] = v
		}
	}
	return out
}

// refName: does the constraint match the host of the id
func refName(constraint, id string) bool {
	host := strings.ToLower(hostOf(id))
	c := strings.ToLower(constraint)
	if strings.HasPrefix(c, ".") {
		return len(host) > len(c) && strings.HasSuffix(host, c)
	}
	return host == c
}

func strs(v any) []string {
	switch x := v.(type) {
	case []string:
		return x
	case []any:
		var out []string
		for _, e := range x {
			s, _ := e.(string)
			out = append(out, s)
		}
		return out
	}
	return nil
}

func refConstraints(c map[string]any, depth int, ids []string, types map[string]bool) bool {
	if c == nil {
		return true
	}
	if m, ok := c["max_path_length"].(int); ok && depth > m {
		return false
	}
	if nc, ok := c["naming_constraints"].(map[string]any); ok {
		permV, hasPerm := nc["permitted"]
		for _, id := range ids {
			for _, e := range strs(nc["excluded"]) {
				if refName(e, id) {
					return false
				}
			}
			if hasPerm {
				found := false
				for _, e := range strs(permV) {
					found = found || refName(e, id)
				}
				if !found {
					return false
				}
			}
		}
	}
	if at, ok := c["allowed_entity_types"]; ok {
		allowed := map[string]bool{"federation_entity": true}
		for _, t := range strs(at) {
			allowed[t] = true
		}
		for t := range types {
			if !allowed[t] {
				return false
			}
		}
	}
	return true
}

// RefChain is an expected chain
type RefChain []*Stmt

// Expected gives all chains that must be returned
func (w *World) Expected() (out []RefChain) {
	if w.Start == "" {
		return nil
	}
	ec := w.EC[w.Start]
	if !ec.usable() || ec.Iss != w.Start || ec.Sub != w.Start || !ec.timeOK() {
		return nil
	}
	if ta := w.anchor(w.Start); ta != nil {
		ks := ta.Keys
		if ks == nil {
			ks = ec.Keys
		}
		if ec.sigOK(ks) {
			return []RefChain{{ec}}
		}
		return nil
	}
	types := map[string]bool{}
	for t := range typesOf(restrict(ec.Meta, w.Types)) {
		types[t] = true
	}
	for _, tail := range w.up(ec, []string{w.Start}, types, 0) {
		if ec.sigOK(tail[0].Keys) {
			out = append(out, append(RefChain{ec}, tail...))
		}
	}
	return
}

// up gives the verified tails [S(a->e), ..., EC(TA)]
func (w *World) up(e *Stmt, ids []string, types map[string]bool, depth int) (out []RefChain) {
	for _, a := range e.Hints {
		seen := false
		for _, id := range ids {
			seen = seen || id == a
		}
		if seen {
			continue
		}
		ec := w.EC[a]
		if !ec.usable() || ec.Iss != a || ec.Sub != a || !ec.timeOK() || ec.fetchEndpoint() == "" {
			continue
		}
		s := w.Fetch[ec.fetchEndpoint()][e.Iss]
		if !s.usable() || s.Iss != a || s.Sub != e.Iss || !s.timeOK() {
			continue
		}
		if !refConstraints(s.Constraints, depth, ids, types) {
			continue
		}
		if ta := w.anchor(a); ta != nil {
			ks := ta.Keys
			if ks == nil {
				ks = ec.Keys
			}
			if ec.sigOK(ks) && s.sigOK(ks) {
				out = append(out, RefChain{s, ec})
			}
			continue
		}
		tt := map[string]bool{}
		for t := range types {
			tt[t] = true
		}
		for t := range typesOf(ec.Meta) {
			tt[t] = true
		}
		for _, tail := range w.up(ec, append(append([]string{}, ids...), a), tt, depth+1) {
			if ec.sigOK(tail[0].Keys) && s.sigOK(tail[0].Keys) {
				out = append(out, append(RefChain{s}, tail...))
			}
		}
	}
	return
}

func refKeys(cs []RefChain) (out []string) {
	seen := map[string]bool{}
	for _, c := range cs {
		var p []string
		for _, s := range c {
			p = append(p, string(s.JWT()))
		}
		k := strings.Join(p, "|")
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func chainKey(c oidfed.TrustChain) string {
	var p []string
	for _, m := range c.Messages() {
		p = append(p, string(m.RawJWT))
	}
	return strings.Join(p, "|")
}

func gotKeys(cs oidfed.TrustChains) (out []string) {
	seen := map[string]bool{}
	for _, c := range cs {
		k := chainKey(c)
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func describeKeys(ks []string) string {
	var out []string
	for _, k := range ks {
		var d []string
		for _, t := range strings.Split(k, "|") {
			_, p, _, _, err := decodeJWT([]byte(t))
			if err != nil {
				d = append(d, "?")
				continue
			}
			d = append(d, fmt.Sprintf("%v->%v", p["iss"], p["sub"]))
		}
		out = append(out, strings.Join(d, " , "))
	}
	return "[" + strings.Join(out, " ; ") + "]"
}

// shape gives a short description of the situation, used to count distinct ones
func (w *World) shape(exp []RefChain) string {
	var sb strings.Builder
	ids := make([]string, 0, len(w.EC))
	for id := range w.EC {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	st := func(s *Stmt) string {
		k := -1
		if s.Signer != nil {
			k = s.Signer.N
		}
		return fmt.Sprintf("%v%v%v%v%v%v%s", s.Drop, s.timeOK(), s.Tamper, k, s.Typ, s.Iss == s.Sub, jstr(s.Constraints))
	}
	for _, id := range ids {
		s := w.EC[id]
		fmt.Fprintf(&sb, "%s>%v %s;", id, s.Hints, st(s))
	}
	eps := make([]string, 0, len(w.Fetch))
	for ep := range w.Fetch {
		eps = append(eps, ep)
	}
	sort.Strings(eps)
	for _, ep := range eps {
		subs := make([]string, 0)
		for s := range w.Fetch[ep] {
			subs = append(subs, s)
		}
		sort.Strings(subs)
		for _, s := range subs {
			fmt.Fprintf(&sb, "%s?%s %s;", ep, s, st(w.Fetch[ep][s]))
		}
	}
	for _, t := range w.TAs {
		fmt.Fprintf(&sb, "TA %s %d;", t.ID, len(t.Keys))
	}
	return fmt.Sprintf("%d chains; start %s types %v; %s", len(exp), w.Start, w.Types, sb.String())
}

// checkWorld resolves and compares with the reference
func checkWorld(c *C, w *World) (chains oidfed.TrustChains) {
	netw.Reset()
	w.Serve()
	c.Input = w.Dump()
	exp := w.Expected()
	c.Eval(w.shape(exp))
	chains = w.resolver().ResolveToValidChainsWithoutVerifyingMetadata()
	compareChains(c, w, exp, chains)
	return
}

func compareChains(c *C, w *World, exp []RefChain, chains oidfed.TrustChains) bool {
	ek, gk := refKeys(exp), gotKeys(chains)
	ok := true
	em := map[string]bool{}
	for _, k := range ek {
		em[k] = true
	}
	gm := map[string]bool{}
	for _, k := range gk {
		gm[k] = true
		if !em[k] {
			ok = false
			c.Fail("unexpected-chain", "chain returned that is not valid: %s; expected %s", describeKeys([]string{k}), describeKeys(ek))
		}
	}
	for _, k := range ek {
		if !gm[k] {
			ok = false
			c.Fail("missing-chain", "valid chain not returned: %s; got %s", describeKeys([]string{k}), describeKeys(gk))
		}
	}
	// the claims of the returned statements are those of the signed objects
	for _, ch := range chains {
		for i, st := range ch {
			_, p, _, _, err := decodeJWT(ch.Messages()[i].RawJWT)
			if err != nil || p["iss"] != st.Issuer || p["sub"] != st.Subject {
				ok = false
				c.Fail("claims", "statement %d: claims iss=%q sub=%q differ from the signed ones %v", i, st.Issuer, st.Subject, p)
			}
		}
		checkLinked(c, w, ch)
	}
	return ok
}

// checkLinked states P01 directly on a returned chain
func checkLinked(c *C, w *World, ch oidfed.TrustChain) {
	if len(ch) == 0 {
		c.Fail("empty-chain", "an empty chain was returned")
		return
	}
	if ch[0].Issuer != w.Start || ch[0].Subject != w.Start {
		c.Fail("start", "chain starts with %s->%s", ch[0].Issuer, ch[0].Subject)
	}
	for i := 0; i+1 < len(ch); i++ {
		if ch[i].Issuer != ch[i+1].Subject {
			c.Fail("link", "statement %d is issued by %s but the next is about %s", i, ch[i].Issuer, ch[i+1].Subject)
		}
	}
	last := ch[len(ch)-1]
	if last.Issuer != last.Subject || w.anchor(last.Issuer) == nil {
		c.Fail("anchor", "chain ends with %s->%s", last.Issuer, last.Subject)
	}
	if w.anchor(w.Start) != nil && len(ch) != 1 {
		c.Fail("anchor-itself", "chain of an anchor has %d statements", len(ch))
	}
	iss := map[string]int{}
	for i, s := range ch {
		if i+1 < len(ch) || len(ch) == 1 {
			iss[s.Issuer]++
			if iss[s.Issuer] > 1 {
				c.Fail("repeat", "issuer %s occurs twice", s.Issuer)
			}
		}
	}
	for _, s := range ch {
		if s.Issuer == ch[0].Issuer && s != ch[0] && len(ch) > 1 {
			c.Fail("repeat", "the starting entity %s occurs again", s.Issuer)
		}
	}
}

// ---- generators

// Profile gives the probabilities of deviations
type Profile struct {
	Nodes                                        int
	Edge                                         float64
	Sig, Time, Link, Gone, Typ, Meta, Constraint float64
	Tight                                        bool // many constraints that are just fulfilled or just not
	NoPin                                        float64
	Policy                                       float64
	RandTypes                                    bool
	SelfEdges                                    bool
	Layered                                      bool
	SharedKeys                                   float64
	DupIDs                                       bool
	HostStyle                                    int
}

var fedHosts = []string{
	"https://leaf.example.org", "https://ia.example.org/", "https://ib.sub.example.org", "https://ic.other.net",
	"https://TA.Example.com", "https://tb.example.com:8443/path", "https://example.org", "https://x.y.sub.example.org/p",
	"https://notexample.org", "https://ie.other.net/a/b",
}

func leafMeta(r *rand.Rand, id string) map[string]any {
	m := map[string]any{}
	if chance(r, 0.6) {
		m["openid_relying_party"] = map[string]any{"client_name": "rp " + id, "redirect_uris": []string{id + "/cb"}}
	}
	if chance(r, 0.3) {
		m["openid_provider"] = map[string]any{"issuer": id, "organization_name": "op"}
	}
	if chance(r, 0.2) {
		m["oauth_client"] = map[string]any{"client_name": "oc"}
	}
	if chance(r, 0.15) {
		m["acme_type"] = map[string]any{"a": "b", "n": 5}
	}
	if chance(r, 0.1) {
		m["other_type"] = map[string]any{"z": []any{"1", "2"}}
	}
	if len(m) == 0 {
		m["openid_relying_party"] = map[string]any{"client_name": "rp"}
	}
	return m
}

func fedEntity(id string) map[string]any {
	return map[string]any{
		"federation_fetch_endpoint": strings.TrimSuffix(id, "/") + "/fetch", "organization_name": "Org " + id,
	}
}

var allTypes = []string{
	"openid_relying_party", "openid_provider", "oauth_client", "oauth_authorization_server", "oauth_resource",
	"federation_entity", "acme_type", "other_type",
}

func randConstraints(r *rand.Rand, ids []string, depthHint int) map[string]any {
	c := map[string]any{}
	if chance(r, 0.5) {
		c["max_path_length"] = r.Intn(depthHint + 2)
	}
	if chance(r, 0.5) {
		nc := map[string]any{}
		cand := []string{}
		for _, id := range ids {
			h := hostOf(id)
			cand = append(cand, h, strings.ToLower(h), strings.ToUpper(h), "."+h)
			if i := strings.Index(h, "."); i >= 0 {
				cand = append(cand, h[i:], strings.ToUpper(h[i:]), h[i+1:])
			}
		}
		sel := func(n int) (out []string) {
			for i := 0; i < n; i++ {
				out = append(out, cand[r.Intn(len(cand))])
			}
			return
		}
		if chance(r, 0.5) {
			nc["excluded"] = sel(1 + r.Intn(2))
		}
		if chance(r, 0.6) {
			nc["permitted"] = sel(1 + r.Intn(6))
		}
		c["naming_constraints"] = nc
	}
	if chance(r, 0.4) {
		a := []string{}
		for _, t := range allTypes {
			if chance(r, 0.6) {
				a = append(a, t)
			}
		}
		c["allowed_entity_types"] = a
	}
	return c
}

// randWorld creates a random federation
func randWorld(r *rand.Rand, p Profile) *World {
	w := newWorld()
	n := p.Nodes
	perm := r.Perm(len(fedHosts))
	ids := make([]string, n)
	for i := range ids {
		ids[i] = fedHosts[perm[i]]
	}
	nTA := 1 + r.Intn(2)
	if nTA > n {
		nTA = n
	}
	own := make([]*Key, n)
	for i := range own {
		own[i] = keys[i]
		if chance(r, p.SharedKeys) {
			own[i] = keys[r.Intn(n)]
		}
	}
	hints := make([][]int, n)
	for i := 0; i < n; i++ {
		for _, j := range r.Perm(n) {
			if i == j && !p.SelfEdges {
				continue
			}
			if p.Layered && j <= i {
				continue
			}
			if chance(r, p.Edge) {
				hints[i] = append(hints[i], j)
			}
		}
	}
	timeDev := func(s *Stmt) {
		s.Iat, s.Exp = fp(-10), fp(3600)
		switch r.Intn(8) {
		case 0:
			s.Iat = nil
		case 1:
			s.Exp = nil
		case 2:
			s.Iat, s.Exp = fp(-1e8), fp(1e9)
		case 3:
			s.Iat, s.Exp = nil, nil
		}
		if chance(r, p.Time) {
			switch r.Intn(4) {
			case 0:
				s.Iat = fp(100)
			case 1:
				s.Exp = fp(-1)
			case 2:
				s.Iat, s.Exp = fp(1e9), fp(2e9)
			case 3:
				s.Iat, s.Exp = fp(-2e8), fp(-1e8)
			}
		}
	}
	other := func(k *Key) *Key {
		for {
			o := keys[r.Intn(len(keys))]
			if o != k {
				return o
			}
		}
	}
	for i, id := range ids {
		s := &Stmt{Iss: id, Sub: id, Keys: []*Key{own[i]}, Signer: own[i]}
		if chance(r, 0.2) {
			s.Keys = append(s.Keys, keys[15])
			if chance(r, 0.5) {
				s.Signer = keys[15]
			}
		}
		timeDev(s)
		for _, j := range hints[i] {
			s.Hints = append(s.Hints, ids[j])
		}
		if chance(r, 0.1) {
			k := r.Intn(len(s.Hints) + 1)
			s.Hints = append(s.Hints[:k:k], append([]string{"https://gone.example.org"}, s.Hints[k:]...)...)
		}
		s.Meta = leafMeta(r, id)
		if i > 0 && chance(r, 0.7) {
			s.Meta = map[string]any{}
		}
		if i > 0 || chance(r, 0.2) {
			s.Meta["federation_entity"] = fedEntity(id)
		}
		if chance(r, p.Meta) {
			switch r.Intn(3) {
			case 0:
				s.Meta = nil
			case 1:
				delete(s.Meta, "federation_entity")
			case 2:
				s.Meta["federation_entity"] = map[string]any{"organization_name": "x"}
			}
		}
		if chance(r, p.Sig) {
			switch r.Intn(3) {
			case 0:
				s.Tamper = true
			case 1:
				s.Signer = other(s.Signer)
			case 2:
				s.Keys = []*Key{other(own[i])}
			}
		}
		if chance(r, p.Link) {
			switch r.Intn(3) {
			case 0:
				s.Iss = ids[r.Intn(n)]
			case 1:
				s.Sub = ids[r.Intn(n)]
			case 2:
				s.Iss = ids[r.Intn(n)]
				s.Sub = s.Iss
			}
		}
		if chance(r, p.Gone) {
			s.Drop = true
			s.Status = -r.Intn(2)
		}
		if chance(r, p.Typ) {
			s.Typ = pick(r, "JWT", "trust-mark+jwt", "resolve-response+jwt", "entity-statement+JWT ")
		}
		w.EC[id] = s
	}
	for i := range ids {
		for _, j := range hints[i] {
			s := &Stmt{Iss: ids[j], Sub: ids[i], Keys: []*Key{own[i]}, Signer: own[j]}
			if w.EC[ids[i]].Signer == keys[15] || chance(r, 0.1) {
				s.Keys = append(s.Keys, keys[15])
			}
			timeDev(s)
			if chance(r, p.Sig) {
				switch r.Intn(5) {
				case 0:
					s.Tamper = true
				case 1:
					s.Signer = other(s.Signer)
				case 2:
					s.Keys = []*Key{other(own[i])}
				case 3:
					s.Signer = own[i] // signed by the subordinate itself
				case 4:
					s.Keys = nil
				}
			}
			if chance(r, p.Link) {
				switch r.Intn(4) {
				case 0:
					s.Iss = ids[r.Intn(n)]
				case 1:
					s.Sub = ids[r.Intn(n)]
				case 2:
					s.Iss, s.Sub = s.Sub, s.Iss
				case 3:
					s.Sub = ids[j]
				}
			}
			if chance(r, p.Gone) {
				s.Drop = true
				s.Status = -r.Intn(2)
			}
			if chance(r, p.Typ) {
				s.Typ = pick(r, "JWT", "trust-mark+jwt", "resolve-response+jwt")
			}
			if chance(r, p.Constraint) {
				s.Constraints = randConstraints(r, ids, n-2)
			}
			w.addFetch(strings.TrimSuffix(ids[j], "/")+"/fetch", ids[i], s)
		}
	}
	for k := 0; k < nTA; k++ {
		i := n - 1 - k
		if chance(r, 0.1) {
			i = r.Intn(n)
		}
		a := Anchor{ID: ids[i], Keys: []*Key{own[i]}}
		if w.EC[ids[i]].Signer == keys[15] {
			a.Keys = []*Key{own[i], keys[15]}
			if chance(r, 0.3) {
				a.Keys = []*Key{keys[15]}
			}
		}
		if chance(r, p.NoPin) {
			a.Keys = nil
		} else if chance(r, p.Sig) {
			a.Keys = []*Key{other(own[i])}
		}
		if w.anchor(a.ID) == nil {
			w.TAs = append(w.TAs, a)
		}
	}
	if chance(r, 0.15) {
		w.TAs = append(w.TAs, Anchor{ID: "https://unrelated.example.net"})
	}
	w.Start = ids[0]
	if p.RandTypes {
		for _, t := range allTypes {
			if chance(r, 0.4) {
				w.Types = append(w.Types, t)
			}
		}
	}
	return w
}
