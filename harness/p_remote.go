package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/unixtime"
)

func init() {
	properties["P21"] = p21
	properties["P22"] = p22
}

// answer of a resolve endpoint
type answer struct {
	Kind   string
	Code   string
	Status int
	Meta   map[string]any
}

var answerKinds = []string{
	"none", "noec", "nometa", "ok", "transport", "wrongtyp", "garbage", "badpayload", "html500", "invalid_subject", "invalid_trust_anchor",
	"invalid_trust_chain", "invalid_metadata", "invalid_request", "server_error", "not_found", "empty", "Invalid_Trust_Chain", "invalid_issuer",
}

func (a *answer) handler(rr map[string]any) Handler {
	return func(req *http.Request) (int, string, []byte, error) {
		switch a.Kind {
		case "ok":
			return 200, "application/resolve-response+jwt", jwt(typRR, rr, keys[7]), nil
		case "transport":
			return 0, "", nil, fmt.Errorf("connection reset")
		case "wrongtyp":
			return 200, "application/resolve-response+jwt", jwt(pick0(len(a.Meta), typES, typTM, "", "JWT"), rr, keys[7]), nil
		case "garbage":
			return 200, "application/resolve-response+jwt", []byte("hello"), nil
		case "empty":
			return 200, "application/resolve-response+jwt", nil, nil
		case "badpayload":
			return 200, "application/resolve-response+jwt", jwt(typRR, map[string]any{"metadata": "nope"}, keys[7]), nil
		case "html500":
			return 500, "text/html", []byte("<html>"), nil
		}
		data, _ := json.Marshal(map[string]any{"error": a.Kind, "error_description": "d"})
		return a.Status, "application/json", data, nil
	}
}

func pick0(n int, xs ...string) string { return xs[n%len(xs)] }

// confirms gives what the answer confirms
func (a *answer) confirms() (valid, invalid bool) {
	switch a.Kind {
	case "ok", "invalid_metadata":
		return true, false
	case "invalid_trust_chain":
		return false, true
	}
	return false, false
}

func p21(h *H) {
	remote := func(c *C, i int, kind string, status int) (*answer, map[string]any) {
		a := &answer{Kind: kind, Status: status}
		a.Meta = map[string]any{"openid_relying_party": map[string]any{"client_name": fmt.Sprintf("remote-%d", i)}}
		for j := 0; j < c.R.Intn(4); j++ {
			a.Meta[fmt.Sprintf("x%d", j)] = map[string]any{"a": "b"}
		}
		rr := map[string]any{
			"iss": "https://r.example.org", "sub": "https://leaf.example.org", "iat": nowf() - 1, "exp": nowf() + 100, "metadata": a.Meta,
		}
		return a, rr
	}
	statuses := []int{400, 401, 403, 404, 422, 500, 503}
	h.Cases("simple", h.N(len(answerKinds)*7*4, len(answerKinds)*7*60), func(c *C) {
		kind := answerKinds[c.Idx%len(answerKinds)]
		if kind == "none" || kind == "noec" || kind == "nometa" {
			return
		}
		a, rr := remote(c, 0, kind, statuses[c.Idx/len(answerKinds)%len(statuses)])
		netw.Reset()
		ep := "https://r.example.org/resolve"
		netw.Handle(ep, a.handler(rr))
		c.Input = a
		c.Eval("simple" + kind + fmt.Sprint(a.Status))
		r := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: ep}
		req := apimodel.ResolveRequest{Subject: "https://leaf.example.org", TrustAnchor: []string{"https://ta.example.org"}}
		checkRemote(c, r, req, a, kind == "ok", a)
	})
	// several trust anchors, each with some behaviour, then local resolution
	n := len(answerKinds)
	h.Cases("smart", h.N(n*n*6, n*n*100), func(c *C) {
		k := 1 + c.R.Intn(3)
		local := chance(c.R, 0.6)
		w := chainWorld(c, k)
		lta := w.TAs[0].ID
		if !local {
			w.EC[w.Start].Exp = fp(-5)
		}
		nTA := 2 + c.R.Intn(3)
		localAt := c.R.Intn(nTA)
		var answers []*answer
		var ids []string
		netw.Reset()
		w.Serve()
		for i := 0; i < nTA; i++ {
			kind := answerKinds[c.R.Intn(n)]
			if i < 2 {
				kind = answerKinds[[]int{c.Idx % n, c.Idx / n % n}[i]]
			}
			a, rr := remote(c, i, kind, pick(c.R, statuses...))
			id := fmt.Sprintf("https://anchor%d.example.net", i)
			var ec *Stmt
			if i == localAt {
				id = lta
				ec = w.EC[lta]
				if kind == "noec" || kind == "nometa" {
					a.Kind = "none"
				}
			} else {
				ec = &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[8+i]}, Signer: keys[8+i], now: nowf()}
				ec.Meta = map[string]any{"federation_entity": fedEntity(id)}
				if a.Kind == "nometa" {
					ec.Meta = nil
				}
				if a.Kind == "noec" {
					ec.Drop = true
					ec.Status = -1
				}
			}
			if !strings.HasPrefix(a.Kind, "no") || a.Kind == "not_found" {
				ec.Meta["federation_entity"].(map[string]any)["federation_resolve_endpoint"] = id + "/resolve"
				netw.Handle(id+"/resolve", a.handler(rr))
			}
			ec.raw = nil
			netw.Handle(id+"/.well-known/openid-federation", func(*http.Request) (int, string, []byte, error) { return serveStmt(ec) })
			answers = append(answers, a)
			ids = append(ids, id)
		}
		desc := ""
		for _, a := range answers {
			desc += a.Kind + ","
		}
		c.Input = map[string]any{"answers": answers, "anchors": ids, "locally_resolvable": local}
		c.Eval("smart" + desc + fmt.Sprint(local, localAt))
		req := apimodel.ResolveRequest{Subject: w.Start, TrustAnchor: ids}
		var okA, confA *answer
		for _, a := range answers {
			if okA == nil && a.Kind == "ok" {
				okA = a
			}
			if v, i := a.confirms(); confA == nil && (v || i) {
				confA = a
			}
		}
		if okA != nil || confA != nil {
			req2 := req
			checkRemote(c, oidfed.SmartRemoteMetadataResolver{}, req2, okA, okA != nil || local, confA, localOutcome{local, w.EC[w.Start].Meta})
			return
		}
		checkRemote(c, oidfed.SmartRemoteMetadataResolver{}, req, nil, local, nil, localOutcome{local, w.EC[w.Start].Meta})
	})
	h.Cases("local", h.N(1500, 30000), func(c *C) {
		w := randWorld(c.R, Profile{Nodes: nodes(c, 2, 5), Edge: 0.5, Time: 0.05, Gone: 0.05, Constraint: 0.1, Policy: 0.2, RandTypes: true})
		for i := range w.TAs {
			w.TAs[i].Keys = nil // the metadata resolver knows the trust anchors by their id only
		}
		netw.Reset()
		w.Serve()
		c.Input = w.Dump()
		exp := w.Expected()
		var ids []string
		for _, t := range w.TAs {
			ids = append(ids, t.ID)
		}
		req := apimodel.ResolveRequest{Subject: w.Start, TrustAnchor: ids, EntityTypes: w.Types}
		c.Eval("local" + w.shape(exp))
		v, i := oidfed.LocalMetadataResolver{}.ResolvePossible(req)
		c.Must(v != i, "local-both", "valid %v and invalid %v reported", v, i)
		c.Must(v == (len(exp) > 0), "local-wrong", "%d valid chains, but valid=%v invalid=%v", len(exp), v, i)
		m, err := oidfed.LocalMetadataResolver{}.Resolve(req)
		p, perr := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
		c.Must((err == nil) == (perr == nil), "local-differ", "Resolve: %v, ResolveResponsePayload: %v", err, perr)
		if err == nil {
			c.Must(len(exp) > 0, "local-unconfirmed", "metadata for a subject without valid trust chain")
			c.Must(njson(m) == njson(p.Metadata), "local-differ", "different metadata")
			found := false
			msgs := norm(p.TrustChain)
			for _, ch := range exp {
				var l []any
				for _, s := range ch {
					l = append(l, string(s.JWT()))
				}
				found = found || jstr(l) == jstr(msgs)
			}
			c.Must(found, "local-chain", "the reported trust chain is none of the valid ones")
		} else {
			c.Must(m == nil, "local-unconfirmed", "metadata together with an error")
		}
	})
}

type localOutcome struct {
	ok   bool
	meta map[string]any
}

// checkRemote checks all three operations; ok: the positive answer to be used (nil: local result), conf: the confirming answer
func checkRemote(
	c *C, r oidfed.MetadataResolver, req apimodel.ResolveRequest, ok *answer, wantOK bool, conf *answer, local ...localOutcome,
) {
	if ok != nil && ok.Kind != "ok" {
		ok = nil
	}
	m, err := r.Resolve(req)
	p, perr := r.ResolveResponsePayload(req)
	v, i := r.ResolvePossible(req)
	if !c.Must((err == nil) == wantOK, "resolve", "Resolve: err=%v, expected success=%v", err, wantOK) {
		return
	}
	c.Must((perr == nil) == wantOK, "resolve-payload", "ResolveResponsePayload: err=%v, expected success=%v", perr, wantOK)
	if err != nil {
		c.Must(m == nil, "resolve-error", "metadata together with an error")
		c.Must(p.Metadata == nil, "resolve-error", "metadata together with an error")
	} else {
		var want any
		if ok != nil {
			want = ok.Meta
		} else {
			want = local[0].meta
		}
		c.Must(metaEq(stripEmpty(norm(want)), stripEmpty(norm(m))), "resolve-metadata", "expected metadata %s, got %s", jstr(want), jstr(m))
		c.Must(perr != nil || metaEq(stripEmpty(norm(want)), stripEmpty(norm(p.Metadata))), "resolve-metadata", "expected payload metadata %s, got %s", jstr(want), jstr(p.Metadata))
	}
	wv, wi := false, false
	if conf != nil {
		wv, wi = conf.confirms()
	} else if len(local) > 0 {
		wv, wi = local[0].ok, !local[0].ok
	}
	c.Must(v == wv && i == wi, "confirm", "valid=%v invalid=%v reported, expected valid=%v invalid=%v", v, i, wv, wi)
}

// ---- P22

type tmEndpoint struct {
	hits int
	ans  func(n int) (int, string, []byte, error)
	reqs []url.Values
}

func p22(h *H) {
	const sub = "https://me.example.org"
	const tmi = "https://tmi.example.org"
	const typ = "https://tm.example.org/a"
	now := nowf
	mark := func(k *Key, iss, t, s string, exp *float64, extra int) string {
		p := map[string]any{"iss": iss, "sub": s, "trust_mark_type": t, "iat": now() - 5, "n": extra}
		if exp != nil {
			p["exp"] = now() + *exp
		}
		return string(jwt(typTM, p, k))
	}
	kinds := []string{"good", "good-noexp", "good-expired", "wrong-type", "wrong-sub", "wrong-typ", "garbage", "error", "transport", "html", "no-ec", "no-endpoint"}
	h.Cases("config", h.N(6000, 120000), func(c *C) {
		netw.Reset()
		kind := pick(c.R, kinds...)
		initial := chance(c.R, 0.8)
		refresh := chance(c.R, 0.7)
		selfEP := chance(c.R, 0.15) // the own trust mark endpoint issues
		iss := tmi
		if selfEP {
			iss = sub
		}
		minLife := pick(c.R, 0.0, 10, 50, 300, 0.5)
		grace := pick(c.R, 0.0, 1, 30, 100, 7200, 0.25)
		effMin, effGrace := minLife, grace
		if effMin == 0 {
			effMin = 10
		}
		if effGrace == 0 {
			effGrace = 3600
		}
		var exp *float64
		switch c.R.Intn(5) {
		case 0:
		case 1:
			exp = fp(-20)
		case 2:
			exp = fp(effMin - 4)
		case 3:
			exp = fp(effMin + 4)
		default:
			exp = fp(pick(c.R, 1000.0, 10000, 40, 100000))
		}
		if exp != nil && (abs(*exp-effMin) < 2 || abs(*exp-effGrace) < 2) {
			*exp += 5
		}
		old := ""
		if initial {
			old = mark(keys[1], iss, typ, sub, exp, 0)
		}
		var newExp *float64
		switch kind {
		case "good":
			newExp = fp(pick(c.R, 5000.0, 100000))
		case "good-expired":
			newExp = fp(-100)
		}
		fresh := ""
		mk := map[string][3]string{
			"good": {iss, typ, sub}, "good-noexp": {iss, typ, sub}, "good-expired": {iss, typ, sub}, "wrong-type": {iss, typ + "x", sub}, "wrong-sub": {iss, typ, tmi + "/x"},
			"wrong-typ": {iss, typ, sub},
		}
		if v, ok := mk[kind]; ok {
			if kind[0] == 'w' {
				newExp = fp(5000)
			}
			fresh = mark(keys[2], v[0], v[1], v[2], newExp, 1+c.R.Intn(100))
			if kind == "wrong-typ" {
				fresh = string(jwt(pick(c.R, typES, typDel, "JWT", ""), map[string]any{"iss": iss, "sub": sub, "trust_mark_type": typ, "exp": now() + 5000}, keys[2]))
			}
		}
		ep := &tmEndpoint{}
		handler := func(req *http.Request) (int, string, []byte, error) {
			ep.hits++
			ep.reqs = append(ep.reqs, req.URL.Query())
			switch kind {
			case "garbage":
				return 200, "application/trust-mark+jwt", []byte("x.y.z"), nil
			case "error":
				return 403, "application/json", []byte(`{"error":"access_denied"}`), nil
			case "transport":
				return 0, "", nil, fmt.Errorf("refused")
			case "html":
				return 502, "text/html", []byte("<p>"), nil
			}
			return 200, "application/trust-mark+jwt", []byte(fresh), nil
		}
		ec := &Stmt{Iss: tmi, Sub: tmi, Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[2]}, Signer: keys[2]}
		ec.Meta = map[string]any{"federation_entity": map[string]any{"federation_trust_mark_endpoint": tmi + "/tm"}}
		if kind == "no-endpoint" {
			if chance(c.R, 0.5) {
				ec.Meta = nil
			} else {
				ec.Meta = map[string]any{"federation_entity": map[string]any{}}
			}
		}
		ec.Drop = kind == "no-ec"
		netw.Handle(tmi+"/.well-known/openid-federation", func(*http.Request) (int, string, []byte, error) { return serveStmt(ec) })
		netw.Handle(tmi+"/tm", handler)
		netw.Handle(sub+"/own-tm", handler)
		if selfEP && (kind == "no-ec" || kind == "no-endpoint") {
			kind = "transport"
		}
		cfg := oidfed.EntityConfigurationTrustMarkConfig{
			TrustMarkType: typ, TrustMarkIssuer: iss, JWT: old, Refresh: refresh,
			MinLifetime: unixtime.NewDurationInSeconds(minLife), RefreshGracePeriod: unixtime.NewDurationInSeconds(grace),
		}
		if initial && chance(c.R, 0.5) { // taken from the jwt
			cfg.TrustMarkType, cfg.TrustMarkIssuer = "", ""
		}
		desc := fmt.Sprint(kind, initial, refresh, selfEP, minLife, grace)
		if exp != nil {
			desc += fmt.Sprint(" exp", *exp)
		}
		c.Input = map[string]any{"desc": desc, "old": old, "fresh": fresh}
		c.Eval(desc)
		if err := cfg.Verify(sub, sub+"/own-tm", nil); !c.Must(err == nil, "verify", "%v", err) {
			return
		}
		if c.R.Intn(2) == 0 { // verified again, as happens if configurations are reloaded
			if err := cfg.Verify(sub, sub+"/own-tm", nil); !c.Must(err == nil, "verify", "%v", err) {
				return
			}
		}
		good := kind == "good" || kind == "good-noexp" || kind == "good-expired"
		static := initial && (!refresh || exp == nil)
		enough := initial && exp != nil && *exp > effMin
		inGrace := enough && *exp < effGrace
		got, err := cfg.TrustMarkJWT()
		switch {
		case static:
			c.Must(err == nil && got == old, "static", "a static trust mark is not published unchanged: %v, same=%v", err, got == old)
			c.Must(ep.hits == 0, "static-request", "a static trust mark is refreshed")
		case enough:
			c.Must(err == nil && (got == old || inGrace && good && got == fresh), "lifetime-left", "a trust mark with enough remaining lifetime is not published: %v, same=%v", err, got == old)
			if !inGrace {
				c.Must(ep.hits == 0, "early", "the trust mark is refreshed although it is not about to expire")
			}
		case good:
			c.Must(err == nil && got == fresh, "refresh", "no fresh trust mark is obtained: %v, fresh=%v old=%v", err, got == fresh, got == old)
		default:
			c.Must(err != nil, "failure", "the failure to obtain a fresh trust mark is not reported (%s)", kind)
			c.Must(got != fresh || fresh == "", "accepted", "a wrong trust mark is used (%s)", kind)
		}
		if inGrace && !static && kind != "no-ec" && kind != "no-endpoint" {
			// refreshed in the background
			for i := 0; i < 400 && netwHits(ep) == 0; i++ {
				time.Sleep(5 * time.Millisecond)
			}
			if good { // wait until the answer is processed
				for i := 0; i < 400; i++ {
					if j, err := cfg.TrustMarkJWT(); err != nil || j == fresh {
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
			} else {
				time.Sleep(5 * time.Millisecond)
			}
			c.Must(netwHits(ep) == 1, "background", "%d refresh requests in the grace period", netwHits(ep))
		}
		for _, q := range ep.reqs {
			c.Must(q.Get("sub") == sub && q.Get("trust_mark_type") == typ, "request", "the trust mark endpoint was asked with %v", q)
		}
		hits := ep.hits
		// a later access
		got2, err2 := cfg.TrustMarkJWT()
		time.Sleep(time.Millisecond)
		switch {
		case static:
			c.Must(err2 == nil && got2 == old, "static-2", "a static trust mark is not published unchanged")
		case enough && !(inGrace && good):
			c.Must(err2 == nil && got2 == old, "lifetime-left-2", "%v %v", err2, got2 == old)
		case enough: // replaced in the background
			if kind == "good-expired" {
				c.Must(err2 != nil, "expired-2", "a trust mark received expired is published later")
			} else {
				c.Must(err2 == nil && got2 == fresh, "background-2", "the mark obtained in the background is not published: %v old=%v", err2, got2 == old)
			}
		case kind == "good" || kind == "good-noexp":
			c.Must(err2 == nil && got2 == fresh, "fresh-2", "the fresh mark is not published again: %v", err2)
		default:
			c.Must(err2 != nil, "failure-2", "no failure reported although there is no mark that is valid long enough (%s)", kind)
		}
		c.Must(ep.hits == hits, "once-a-minute", "the trust mark endpoint was asked again within a minute")
	})
	h.Cases("self-issued", h.N(1500, 30000), func(c *C) {
		netw.Reset()
		life := pick(c.R, 0.0, 5, 20, 100, 5000, 100000)
		minLife := pick(c.R, 0.0, 10, 50)
		signer := oidfed.NewTrustMarkSigner(keys[3].Priv, jwa.ES256())
		initial := chance(c.R, 0.4)
		var exp *float64
		if chance(c.R, 0.7) {
			exp = fp(pick(c.R, -10.0, 5, 30, 100, 100000))
		}
		cfg := oidfed.EntityConfigurationTrustMarkConfig{
			TrustMarkType: typ, SelfIssued: true, MinLifetime: unixtime.NewDurationInSeconds(minLife), Refresh: chance(c.R, 0.5),
			SelfIssuanceSpec: oidfed.TrustMarkSpec{Lifetime: unixtime.NewDurationInSeconds(life), Ref: "r"},
		}
		old := ""
		if initial {
			old = mark(keys[3], sub, typ, sub, exp, 0)
			cfg.JWT = old
		}
		refresh := cfg.Refresh || !initial
		effMin := minLife
		if effMin == 0 {
			effMin = 10
		}
		desc := fmt.Sprint("self", life, minLife, initial, refresh)
		if exp != nil {
			desc += fmt.Sprint(" exp", *exp)
		}
		c.Input = desc
		c.Eval(desc)
		if err := cfg.Verify(sub, sub+"/own-tm", signer); !c.Must(err == nil, "verify", "%v", err) {
			return
		}
		t0 := nowf()
		got, err := cfg.TrustMarkJWT()
		t1 := nowf()
		switch {
		case initial && (!refresh || exp == nil || *exp > effMin):
			// within the grace period a new mark may already have replaced the old one
			c.Must(err == nil && (got == old || refresh && exp != nil && *exp < 3600 && got != ""), "self-keep", "the configured trust mark is not published: %v", err)
			return
		}
		if !c.Must(err == nil && got != "" && got != old, "self-issue", "no self-issued trust mark: %v", err) {
			return
		}
		_, pl, in, sig, derr := decodeJWT([]byte(got))
		if !c.Must(derr == nil, "self-jwt", "%v", derr) {
			return
		}
		c.Must(keys[3].verifies(in, sig), "self-signature", "not signed with the entity's key")
		c.Must(pl["iss"] == sub && pl["sub"] == sub && pl["trust_mark_type"] == typ, "self-claims", "claims %s", jstr(pl))
		if life == 0 {
			c.Must(pl["exp"] == nil, "self-exp", "expires although no lifetime is configured")
		} else {
			e, _ := pl["exp"].(float64)
			c.Must(e >= t0+life-1e-3 && e <= t1+life+1e-3, "self-exp", "expires at %v", pl["exp"])
		}
		got2, err2 := cfg.TrustMarkJWT()
		if life == 0 || life > effMin+1 {
			c.Must(err2 == nil && got2 == got, "self-again", "%v same=%v", err2, got2 == got)
		} else {
			c.Must(err2 != nil, "self-short", "a mark whose remaining lifetime is too short is published")
		}
	})
	h.Cases("incomplete", 40, func(c *C) {
		c.Eval(fmt.Sprint("inc", c.Idx))
		cfgs := []oidfed.EntityConfigurationTrustMarkConfig{
			{}, {TrustMarkType: typ}, {TrustMarkIssuer: tmi}, {SelfIssued: true}, {JWT: "garbage"},
			{JWT: string(jwt(typTM, map[string]any{"iss": tmi, "sub": sub}, keys[0]))},
		}
		cfg := cfgs[c.Idx%len(cfgs)]
		c.Must(cfg.Verify(sub, "", nil) != nil, "incomplete", "an incomplete configuration is accepted: %+v", cfg.TrustMarkType)
	})
}

func netwHits(ep *tmEndpoint) int {
	netw.mu.Lock()
	defer netw.mu.Unlock()
	return ep.hits
}

func abs(f float64) float64 {
	if f < 0 {
		return -f
	}
	return f
}
