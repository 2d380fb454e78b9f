package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/unixtime"
)

func init() {
	properties["P14"] = p14
	properties["P15"] = p15
	properties["P16"] = p16
	properties["P17"] = p17
}

var knownTyps = []string{typES, typTM, typDel, typRR}

var oddTyps = []string{
	"", "JWT", "jwt", "entity-statement", "Entity-Statement+jwt", "application/entity-statement+jwt",
	"application/trust-mark+jwt", "trust-mark+JWT", " trust-mark+jwt", "trust-mark+jwt ", "trust-mark-delegation",
	"resolve-response", "jwk-set+jwt", "explicit-registration-response+jwt", "statement+jwt", "+jwt", "at+jwt",
	"entity-statement+jwtx", "resolve-response+jwt\n",
}

func randPayload(r *rand.Rand) map[string]any {
	now := math.Floor(nowf())
	p := map[string]any{
		"iss": fmt.Sprintf("https://i%d.example.org", r.Intn(5)), "sub": fmt.Sprintf("https://s%d.example.org", r.Intn(5)),
		"iat": now - float64(r.Intn(100)), "exp": now + float64(r.Intn(1000)+10),
		"jwks":            jwksOf(keys[r.Intn(8)]),
		"trust_mark_type": fmt.Sprintf("https://tm%d.example.org", r.Intn(5)),
		"ref":             "https://ref.example.org/" + fmt.Sprint(r.Intn(100)),
	}
	if chance(r, 0.5) {
		p["extra_"+fmt.Sprint(r.Intn(3))] = pick[any](r, "x", 1.5, true, []any{"a", 1.0}, map[string]any{"b": "c"})
	}
	return p
}

type parsed struct {
	ok                  bool
	iss, sub, tmt       string
	iat, exp            time.Time
	extra               map[string]any
	err                 error
	hasTypeClaim, hasEx bool
}

// parseAs parses the token as the object with the type
func parseAs(typ string, tok []byte) (p parsed) {
	ex := func(e *unixtime.Unixtime) {
		if e != nil {
			p.exp = e.Time
			p.hasEx = true
		}
	}
	switch typ {
	case typES:
		es, err := oidfed.ParseEntityStatement(tok)
		p.err = err
		if p.ok = err == nil && es != nil; p.ok {
			p.iss, p.sub, p.iat, p.extra = es.Issuer, es.Subject, es.IssuedAt.Time, es.Extra
			ex(&es.ExpiresAt)
		}
	case typTM:
		tm, err := oidfed.ParseTrustMark(tok)
		p.err = err
		if p.ok = err == nil && tm != nil; p.ok {
			p.iss, p.sub, p.iat, p.tmt, p.extra = tm.Issuer, tm.Subject, tm.IssuedAt.Time, tm.TrustMarkType, tm.Extra
			p.hasTypeClaim = true
			ex(tm.ExpiresAt)
		}
	case typDel:
		tm := &oidfed.TrustMark{DelegationJWT: string(tok)}
		d, err := tm.Delegation()
		p.err = err
		if p.ok = err == nil && d != nil; p.ok {
			p.iss, p.sub, p.iat, p.tmt, p.extra = d.Issuer, d.Subject, d.IssuedAt.Time, d.TrustMarkType, d.Extra
			p.hasTypeClaim = true
			ex(d.ExpiresAt)
		}
	case typRR:
		rr, err := oidfed.ParseResolveResponse(tok)
		p.err = err
		if p.ok = err == nil && rr != nil; p.ok {
			p.iss, p.sub, p.iat, p.extra = rr.Issuer, rr.Subject, rr.IssuedAt.Time, rr.Extra
			ex(&rr.ExpiresAt)
		}
	}
	return
}

func checkParsed(c *C, typ string, pl map[string]any, p parsed) {
	if !p.ok {
		return
	}
	c.Must(p.iss == pl["iss"] && p.sub == pl["sub"], "claims", "%s: iss/sub %s %s instead of %v %v", typ, p.iss, p.sub, pl["iss"], pl["sub"])
	if p.hasTypeClaim {
		c.Must(p.tmt == pl["trust_mark_type"], "claims", "%s: type %s instead of %v", typ, p.tmt, pl["trust_mark_type"])
	}
	c.Must(float64(p.iat.Unix()) == pl["iat"] && p.hasEx && float64(p.exp.Unix()) == pl["exp"], "claims", "%s: iat/exp %v %v instead of %v %v", typ, p.iat, p.exp, pl["iat"], pl["exp"])
	for k, v := range pl {
		if strings.HasPrefix(k, "extra_") {
			c.Must(reflect.DeepEqual(norm(p.extra[k]), norm(v)), "claims", "%s: extra claim %s is %v instead of %v", typ, k, p.extra[k], v)
		}
	}
}

func jsonSerialization(payload []byte, sigs []map[string]any) []byte {
	return []byte(jstr(map[string]any{"payload": b64(payload), "signatures": sigs}))
}

func sigEntry(k *Key, prot, unprot map[string]any, payload []byte) map[string]any {
	pb := ""
	if prot != nil {
		pb = b64([]byte(jstr(prot)))
	}
	m := map[string]any{"signature": b64(k.sign([]byte(pb + "." + b64(payload))))}
	if prot != nil {
		m["protected"] = pb
	}
	if unprot != nil {
		m["header"] = unprot
	}
	return m
}

func p14(h *H) {
	all := append(append([]string{}, knownTyps...), oddTyps...)
	h.Cases("types", len(all)*len(knownTyps)*h.N(3, 20), func(c *C) {
		as := knownTyps[c.Idx%len(knownTyps)]
		ht := all[(c.Idx/len(knownTyps))%len(all)]
		pl := randPayload(c.R)
		k := keys[c.R.Intn(8)]
		tok := jwt(ht, pl, k)
		c.Input = map[string]any{"parsed_as": as, "typ": ht, "jwt": string(tok)}
		p := parseAs(as, tok)
		c.Eval("as " + as + " typ " + ht)
		c.Must(p.ok == (as == ht), "type", "JWT with typ %q parsed as %s: accepted=%v err=%v", ht, as, p.ok, p.err)
		checkParsed(c, as, pl, p)
	})
	h.Cases("type-values", len(knownTyps)*6*h.N(2, 6), func(c *C) {
		as := knownTyps[c.Idx%len(knownTyps)]
		v := []any{nil, 1, true, []string{as}, map[string]any{"typ": as}, ""}[(c.Idx/4)%6]
		data, _ := json.Marshal(randPayload(c.R))
		tok := compact(map[string]any{"alg": "ES256", "typ": v}, data, keys[1])
		c.Input = map[string]any{"parsed_as": as, "typ": v, "jwt": string(tok)}
		p := parseAs(as, tok)
		c.Eval(fmt.Sprintf("as %s typ %v", as, v))
		c.Must(!p.ok, "type", "JWT with typ %v accepted as %s", v, as)
	})
	h.Cases("serializations", h.N(600, 6000), func(c *C) {
		as := pick(c.R, knownTyps...)
		pl := randPayload(c.R)
		data, _ := json.Marshal(pl)
		n := c.R.Intn(4)
		var sigs []map[string]any
		var protTyps []string
		for i := 0; i < n; i++ {
			k := keys[c.R.Intn(4)]
			prot := map[string]any{"alg": "ES256", "kid": k.Kid}
			var unprot map[string]any
			pt := ""
			switch c.R.Intn(4) {
			case 0, 1:
				pt = as
				prot["typ"] = as
			case 2:
				unprot = map[string]any{"typ": as}
			case 3:
				pt = pick(c.R, all...)
				prot["typ"] = pt
			}
			protTyps = append(protTyps, pt)
			sigs = append(sigs, sigEntry(k, prot, unprot, data))
		}
		var tok []byte
		flat := n == 1 && chance(c.R, 0.5)
		if flat {
			m := sigs[0]
			m["payload"] = b64(data)
			tok = []byte(jstr(m))
		} else {
			tok = jsonSerialization(data, sigs)
		}
		c.Input = map[string]any{"parsed_as": as, "jwt": string(tok)}
		p := parseAs(as, tok)
		c.Eval(fmt.Sprintf("json serialization %d signatures flat=%v typs %v as %s", n, flat, protTyps, as))
		if n != 1 || protTyps[0] != as {
			c.Must(!p.ok, "type", "object with %d signatures and protected types %q accepted as %s", n, protTyps, as)
		}
		checkParsed(c, as, pl, p)
	})
	h.Cases("served", h.N(300, 3000), func(c *C) {
		netw.Reset()
		cache.SetCache(noCache{})
		id := "https://e.example.org"
		ht := pick(c.R, all...)
		pl := randPayload(c.R)
		pl["iss"], pl["sub"] = id, id
		tok := jwt(ht, pl, keys[0])
		netw.Static(id+"/.well-known/openid-federation", 200, "application/entity-statement+jwt", tok)
		netw.Static(id+"/fetch", 200, "application/entity-statement+jwt", tok)
		netw.Static(id+"/resolve", 200, "application/resolve-response+jwt", tok)
		c.Input = map[string]any{"typ": ht, "jwt": string(tok)}
		_, err := oidfed.GetEntityConfiguration(id)
		c.Eval("configuration with type " + ht)
		c.Must((err == nil) == (ht == typES), "type", "entity configuration with typ %q: err %v", ht, err)
		_, err = oidfed.FetchEntityStatement(id+"/fetch", id, id)
		c.Eval("statement with type " + ht)
		c.Must((err == nil) == (ht == typES), "type", "entity statement with typ %q: err %v", ht, err)
		_, err = oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: id + "/resolve"}.ResolveResponsePayload(
			apimodel.ResolveRequest{Subject: id, TrustAnchor: []string{id}},
		)
		c.Eval("resolve response with type " + ht)
		c.Must((err == nil) == (ht == typRR), "type", "resolve response with typ %q: err %v", ht, err)
	})
	h.Cases("signers", h.N(120, 800), func(c *C) {
		k := keys[c.R.Intn(8)]
		g := oidfed.NewGeneralJWTSigner(k.Priv, jwa.ES256())
		custom := pick(c.R, "abc", "jwk-set+jwt", "", "x+jwt")
		mk := []struct {
			typ string
			f   func(i any) ([]byte, error)
		}{
			{typES, oidfed.NewEntityStatementSigner(k.Priv, jwa.ES256()).JWT}, {typES, g.EntityStatementSigner().JWT},
			{typTM, oidfed.NewTrustMarkSigner(k.Priv, jwa.ES256()).JWT}, {typTM, g.TrustMarkSigner().JWT},
			{typDel, oidfed.NewTrustMarkDelegationSigner(k.Priv, jwa.ES256()).JWT}, {typDel, g.TrustMarkDelegationSigner().JWT},
			{typRR, oidfed.NewResolveResponseSigner(k.Priv, jwa.ES256()).JWT}, {typRR, g.ResolveResponseSigner().JWT},
			{custom, g.Typed(custom).JWT}, {custom, func(i any) ([]byte, error) { return g.JWT(i, custom) }},
		}
		m := mk[c.Idx%len(mk)]
		pl := randPayload(c.R)
		var obj any = pl
		tok, err := m.f(obj)
		c.Eval(fmt.Sprintf("signer %d %s", c.Idx%len(mk), m.typ))
		checkSigned(c, tok, err, m.typ, pl, k)
	})
}

// checkSigned checks a token signed by the library
func checkSigned(c *C, tok []byte, err error, typ string, payload any, k *Key) {
	if !c.Must(err == nil, "sign", "signing failed: %v", err) {
		return
	}
	hd, pl, in, sig, err := decodeJWT(tok)
	if !c.Must(err == nil, "sign", "token does not decode: %v", err) {
		return
	}
	t, _ := hd["typ"].(string)
	c.Must(t == typ, "sign-type", "signed object declares type %q instead of %q", t, typ)
	c.Must(hd["kid"] == k.Kid, "sign-kid", "kid %v instead of %v", hd["kid"], k.Kid)
	c.Must(k.verifies(in, sig), "sign-key", "signature does not verify")
	if payload != nil {
		c.Must(reflect.DeepEqual(norm(payload), any(pl)), "sign-payload", "payload %s instead of %s", jstr(pl), njson(payload))
	}
}

func near(a any, b float64) bool {
	f, ok := a.(float64)
	return ok && math.Abs(f-b) < 1e-3
}

func dur(f float64) time.Duration { return time.Duration(f * 1e9) }

func p15(h *H) {
	lifetimes := []time.Duration{0, time.Second, time.Hour, 90 * time.Minute, dur(1.5), -time.Hour, 24 * 365 * time.Hour, time.Millisecond * 250}
	claims := func(c *C, what string, pl map[string]any, want map[string]any, t0, t1 float64, lf time.Duration) {
		iat, _ := pl["iat"].(float64)
		c.Must(iat >= t0-1e-3 && iat <= t1+1e-3, what, "issued at %v, called between %v and %v", pl["iat"], t0, t1)
		if lf == 0 {
			_, has := pl["exp"]
			c.Must(!has, what, "exp %v although the lifetime is 0", pl["exp"])
		} else {
			c.Must(near(pl["exp"], iat+lf.Seconds()), what, "exp %v instead of iat %v + %v", pl["exp"], iat, lf)
		}
		got := map[string]any{}
		for k, v := range pl {
			if k != "iat" && k != "exp" {
				got[k] = v
			}
		}
		c.Must(reflect.DeepEqual(norm(got), norm(want)), what, "claims %s instead of %s", njson(got), njson(want))
	}
	set := func(m map[string]any, k, v string) {
		if v != "" {
			m[k] = v
		}
	}
	h.Cases("issue", h.N(2500, 20000), func(c *C) {
		k := keys[c.R.Intn(8)]
		id := "https://issuer.example.org"
		var specs []oidfed.TrustMarkSpec
		cfg := map[string]oidfed.TrustMarkSpec{}
		mk := func() oidfed.TrustMarkSpec {
			s := oidfed.TrustMarkSpec{
				TrustMarkType: "https://tm.example.org/" + fmt.Sprint(c.R.Intn(4)),
				Lifetime:      unixtime.DurationInSeconds{Duration: pick(c.R, lifetimes...)},
				Ref:           pick(c.R, "", "https://ref.example.org/1", "https://ref.example.org/2"),
				LogoURI:       pick(c.R, "", "https://logo.example.org/1"),
				DelegationJWT: pick(c.R, "", "a.b.c"), IncludeExtraClaimsInInfo: chance(c.R, 0.5),
			}
			if chance(c.R, 0.5) {
				s.Extra = map[string]any{"foo": "bar" + fmt.Sprint(c.R.Intn(3)), "n": 3.0}
			}
			cfg[s.TrustMarkType] = s
			return s
		}
		for i := c.R.Intn(4); i > 0; i-- {
			specs = append(specs, mk())
		}
		tmi := oidfed.NewTrustMarkIssuer(id, oidfed.NewTrustMarkSigner(k.Priv, jwa.ES256()), specs)
		for i := c.R.Intn(3); i > 0; i-- {
			tmi.AddTrustMark(mk())
		}
		for n := 0; n < 3; n++ {
			t := "https://tm.example.org/" + fmt.Sprint(c.R.Intn(5))
			sub := pick(c.R, "https://sub.example.org", "https://sub2.example.org/x", id, "")
			var lf []time.Duration
			if chance(c.R, 0.5) {
				lf = append(lf, pick(c.R, lifetimes...))
			}
			s, known := cfg[t]
			c.Input = map[string]any{"type": t, "sub": sub, "lifetime": lf, "spec": s, "known": known}
			t0 := nowf()
			info, err := tmi.IssueTrustMark(t, sub, lf...)
			t1 := nowf()
			eff := s.Lifetime.Duration
			if len(lf) > 0 {
				eff = lf[0]
			}
			c.Eval(fmt.Sprintf("issue known=%v passed=%v eff=%v extra=%v info=%v ref=%v logo=%v del=%v", known, len(lf), eff, s.Extra != nil, s.IncludeExtraClaimsInInfo, s.Ref != "", s.LogoURI != "", s.DelegationJWT != ""))
			if !known {
				c.Must(err != nil && info == nil, "unconfigured", "mark of unconfigured type %s issued", t)
				continue
			}
			if !c.Must(err == nil && info != nil, "issue", "issuing failed: %v", err) {
				continue
			}
			checkSigned(c, []byte(info.TrustMarkJWT), nil, typTM, nil, k)
			_, pl, _, _, _ := decodeJWT([]byte(info.TrustMarkJWT))
			want := map[string]any{"iss": id, "sub": sub, "trust_mark_type": t}
			set(want, "ref", s.Ref)
			set(want, "logo_uri", s.LogoURI)
			set(want, "delegation", s.DelegationJWT)
			for ek, ev := range s.Extra {
				want[ek] = ev
			}
			claims(c, "claims", pl, want, t0, t1, eff)
			c.Must(info.TrustMarkType == t, "info", "info type %s", info.TrustMarkType)
			var wi map[string]any
			if s.IncludeExtraClaimsInInfo {
				wi = s.Extra
			}
			c.Must(reflect.DeepEqual(norm(info.Extra), norm(wi)), "info", "info extra %v instead of %v", info.Extra, wi)
			tm, err := oidfed.ParseTrustMark([]byte(info.TrustMarkJWT))
			if c.Must(err == nil, "verify", "issued mark does not parse: %v", err) {
				verr := tm.VerifyExternal(tmi.JWKS())
				ferr := tm.VerifyExternal(keys[(k.N+1)%16].Set)
				// a mark with a very short lifetime may or may not be expired by now
				if eff == 0 || eff >= time.Second*30 {
					c.Must(verr == nil, "verify", "issued mark does not verify: %v", verr)
				} else if eff < 0 {
					c.Must(verr != nil, "verify", "mark that expired before issuance verifies")
				}
				c.Must(ferr != nil, "verify", "issued mark verifies under a foreign key")
			}
		}
	})
	h.Cases("delegate", h.N(2500, 20000), func(c *C) {
		k := keys[c.R.Intn(8)]
		id := "https://owner.example.org"
		cfg := map[string]oidfed.OwnedTrustMark{}
		var specs []oidfed.OwnedTrustMark
		mk := func() oidfed.OwnedTrustMark {
			s := oidfed.OwnedTrustMark{
				ID: "https://tm.example.org/" + fmt.Sprint(c.R.Intn(4)), DelegationLifetime: pick(c.R, lifetimes...),
				Ref: pick(c.R, "", "https://ref.example.org/1"),
			}
			if chance(c.R, 0.5) {
				s.Extra = map[string]any{"foo": "bar" + fmt.Sprint(c.R.Intn(3))}
			}
			cfg[s.ID] = s
			return s
		}
		for i := c.R.Intn(4); i > 0; i-- {
			specs = append(specs, mk())
		}
		tmo := oidfed.NewTrustMarkOwner(id, oidfed.NewTrustMarkDelegationSigner(k.Priv, jwa.ES256()), specs)
		for i := c.R.Intn(3); i > 0; i-- {
			tmo.AddTrustMark(mk())
		}
		for n := 0; n < 3; n++ {
			t := "https://tm.example.org/" + fmt.Sprint(c.R.Intn(5))
			sub := pick(c.R, "https://sub.example.org", "https://sub2.example.org/x")
			var lf []time.Duration
			if chance(c.R, 0.5) {
				lf = append(lf, pick(c.R, lifetimes...))
			}
			s, known := cfg[t]
			c.Input = map[string]any{"type": t, "sub": sub, "lifetime": lf, "spec": s, "known": known}
			t0 := nowf()
			tok, err := tmo.DelegationJWT(t, sub, lf...)
			t1 := nowf()
			eff := s.DelegationLifetime
			if len(lf) > 0 {
				eff = lf[0]
			}
			c.Eval(fmt.Sprintf("delegate known=%v passed=%v eff=%v extra=%v ref=%v", known, len(lf), eff, s.Extra != nil, s.Ref != ""))
			if !known {
				c.Must(err != nil, "unconfigured", "delegation of unconfigured type %s issued", t)
				continue
			}
			checkSigned(c, tok, err, typDel, nil, k)
			if err != nil {
				continue
			}
			_, pl, _, _, _ := decodeJWT(tok)
			want := map[string]any{"iss": id, "sub": sub, "trust_mark_type": t}
			set(want, "ref", s.Ref)
			for ek, ev := range s.Extra {
				want[ek] = ev
			}
			claims(c, "delegation-claims", pl, want, t0, t1, eff)
			tm := &oidfed.TrustMark{DelegationJWT: string(tok)}
			d, err := tm.Delegation()
			if c.Must(err == nil && d != nil, "verify", "issued delegation does not parse: %v", err) {
				verr := d.VerifyExternal(tmo.JWKS())
				if eff == 0 || eff >= time.Second*30 {
					c.Must(verr == nil, "verify", "issued delegation does not verify: %v", verr)
				} else if eff < 0 {
					c.Must(verr != nil, "verify", "expired delegation verifies")
				}
			}
		}
	})
}

func p16(h *H) {
	h.Cases("configuration", h.N(1500, 12000), func(c *C) {
		netw.Reset()
		cache.SetCache(noCache{})
		k := keys[c.R.Intn(6)]
		id := pick(c.R, "https://e.example.org", "https://e.example.org/path")
		lt := pick[int64](c.R, 0, -1, -100, 1, 60, 3600, 86400, 86401, 1000000, 10*365*86400)
		var hints []string
		for i := c.R.Intn(3); i > 0; i-- {
			hints = append(hints, fmt.Sprintf("https://sup%d.example.org", i))
		}
		var md *oidfed.Metadata
		if chance(c.R, 0.8) {
			md = &oidfed.Metadata{}
			if err := json.Unmarshal([]byte(jstr(leafMeta(c.R, id))), md); err != nil {
				panic(err)
			}
		}
		var extra map[string]any
		if chance(c.R, 0.5) {
			extra = map[string]any{"foo": "bar", "num": 4.0}
		}
		signer := oidfed.NewEntityStatementSigner(k.Priv, jwa.ES256())
		var f *oidfed.FederationEntity
		leaf := chance(c.R, 0.5)
		if leaf {
			l, err := oidfed.NewFederationLeaf(id, hints, oidfed.NewTrustAnchorsFromEntityIDs("https://ta.example.org"), md, signer, lt, keys[7].Priv, jwa.ES256(), extra)
			if !c.Must(err == nil, "construct", "%v", err) {
				return
			}
			f = &l.FederationEntity
		} else {
			var err error
			if f, err = oidfed.NewFederationEntity(id, hints, md, signer, lt, extra); !c.Must(err == nil, "construct", "%v", err) {
				return
			}
		}
		if chance(c.R, 0.4) {
			f.TrustMarkIssuers = oidfed.AllowedTrustMarkIssuers{"https://tm.example.org/a": []string{"https://i.example.org"}}
		}
		if chance(c.R, 0.4) {
			f.TrustMarkOwners = oidfed.TrustMarkOwners{"https://tm.example.org/a": oidfed.TrustMarkOwnerSpec{ID: "https://o.example.org", JWKS: keys[9].Set}}
		}
		// trust marks
		var want []map[string]any
		anyMissing := false
		for i := c.R.Intn(4); i > 0; i-- {
			t := fmt.Sprintf("https://tm.example.org/%d", i)
			cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: t}
			ok := true
			tok := ""
			now := nowf()
			iss := "https://tmi.example.org"
			mkTok := func(exp float64) string {
				p := map[string]any{"iss": iss, "sub": id, "trust_mark_type": t, "iat": now - 10}
				if exp != 0 {
					p["exp"] = now + exp
				}
				return string(jwt(typTM, p, keys[10]))
			}
			kind := c.R.Intn(5)
			switch kind {
			case 0:
				tok = mkTok(pick(c.R, 0, 5000.0, 3.0))
				cfg.JWT = tok
			case 1:
				cfg.SelfIssued = true
				cfg.SelfIssuanceSpec = oidfed.TrustMarkSpec{Lifetime: unixtime.NewDurationInSeconds(pick(c.R, 0, 5000.0))}
			case 2:
				cfg.TrustMarkIssuer = iss
				tok = mkTok(5000)
				netw.Static(iss+"/.well-known/openid-federation", 200, "application/entity-statement+jwt", jwt(typES, map[string]any{
					"iss": iss, "sub": iss, "iat": now - 10, "exp": now + 1000, "jwks": jwksOf(keys[10]),
					"metadata": map[string]any{"federation_entity": map[string]any{"federation_trust_mark_endpoint": iss + "/tm"}},
				}, keys[10]))
				tokens := map[string]string{}
				_ = tokens
				netw.Handle(iss+"/tm", func(r *http.Request) (int, string, []byte, error) {
					tt := r.URL.Query().Get("trust_mark_type")
					p := map[string]any{"iss": iss, "sub": r.URL.Query().Get("sub"), "trust_mark_type": tt, "iat": now - 10, "exp": now + 5000}
					return 200, "application/trust-mark+jwt", jwt(typTM, p, keys[10]), nil
				})
				tok = "?"
			case 3:
				cfg.TrustMarkIssuer = fmt.Sprintf("https://gone%d.example.org", i)
				ok = false
				anyMissing = true
			case 4: // configured, about to expire or expired, and there is no new one
				cfg.TrustMarkIssuer = fmt.Sprintf("https://gone%d.example.org", i)
				iss = cfg.TrustMarkIssuer
				cfg.JWT = mkTok(pick(c.R, 3.0, -3.0, -5000.0))
				cfg.Refresh = true
				ok = false
				anyMissing = true
			}
			if err := cfg.Verify(id, id+"/tm", oidfed.NewTrustMarkSigner(keys[11].Priv, jwa.ES256())); !c.Must(err == nil, "config", "%v", err) {
				return
			}
			f.TrustMarks = append(f.TrustMarks, cfg)
			if ok {
				want = append(want, map[string]any{"type": t, "jwt": tok, "kind": kind})
			}
		}
		c.Input = map[string]any{"id": id, "lifetime": lt, "hints": hints, "marks": want, "missing": anyMissing, "leaf": leaf}
		for round := 0; round < 2; round++ {
			t0 := nowf()
			pay := f.EntityConfigurationPayload()
			tok, err := f.EntityConfigurationJWT()
			t1 := nowf()
			c.Eval(fmt.Sprintf("configuration lt=%d hints=%d md=%v extra=%v marks=%d missing=%v leaf=%v tmi=%v tmo=%v round=%d", lt, len(hints), md != nil, extra != nil, len(want), anyMissing, leaf, f.TrustMarkIssuers != nil, f.TrustMarkOwners != nil, round))
			c.Must(pay.Issuer == id && pay.Subject == id, "payload", "payload iss %s sub %s", pay.Issuer, pay.Subject)
			checkSigned(c, tok, err, typES, nil, k)
			if err != nil {
				return
			}
			_, pl, _, _, err := decodeJWT(tok)
			if err != nil {
				return
			}
			c.Must(pl["iss"] == id && pl["sub"] == id, "claims", "iss %v sub %v", pl["iss"], pl["sub"])
			eff := float64(lt)
			if lt <= 0 {
				eff = 86400
			}
			iat, _ := pl["iat"].(float64)
			c.Must(iat >= t0-1e-3 && iat <= t1+1e-3, "iat", "iat %v not in [%v,%v]", pl["iat"], t0, t1)
			c.Must(near(pl["exp"], iat+eff), "exp", "exp %v instead of %v + %v", pl["exp"], iat, eff)
			c.Must(reflect.DeepEqual(pl["jwks"], norm(jwksOf(k))), "jwks", "published keys %s instead of %s", jstr(pl["jwks"]), jstr(jwksOf(k)))
			exp := map[string]any{}
			if len(hints) > 0 {
				exp["authority_hints"] = hints
			}
			if md != nil {
				exp["metadata"] = md
			}
			if f.TrustMarkIssuers != nil {
				exp["trust_mark_issuers"] = f.TrustMarkIssuers
			}
			if f.TrustMarkOwners != nil {
				exp["trust_mark_owners"] = map[string]any{"https://tm.example.org/a": map[string]any{"sub": "https://o.example.org", "jwks": jwksOf(keys[9])}}
			}
			for ek, ev := range extra {
				exp[ek] = ev
			}
			got := map[string]any{}
			for kk, v := range pl {
				switch kk {
				case "iss", "sub", "iat", "exp", "jwks", "trust_marks":
				default:
					got[kk] = v
				}
			}
			c.Must(reflect.DeepEqual(norm(got), norm(exp)), "claims", "claims %s instead of %s", njson(got), njson(exp))
			tms, _ := pl["trust_marks"].([]any)
			if !c.Must(len(tms) == len(want), "trust-marks", "%d trust marks instead of %d: %s", len(tms), len(want), jstr(tms)) {
				continue
			}
			for i, w := range want {
				m, _ := tms[i].(map[string]any)
				c.Must(m["trust_mark_type"] == w["type"], "trust-marks", "mark %d has type %v instead of %v", i, m["trust_mark_type"], w["type"])
				s, _ := m["trust_mark"].(string)
				if w["kind"] == 0 {
					c.Must(s == w["jwt"], "trust-marks", "mark %d is not the configured one", i)
				}
				tm, err := oidfed.ParseTrustMark([]byte(s))
				if c.Must(err == nil, "trust-marks", "mark %d does not parse: %v", i, err) {
					c.Must(tm.Subject == id && tm.TrustMarkType == w["type"], "trust-marks", "mark %d is %s for %s", i, tm.TrustMarkType, tm.Subject)
					if w["kind"] == 1 {
						c.Must(tm.Issuer == id && tm.VerifyExternal(keys[11].Set) == nil, "trust-marks", "self-issued mark %d does not verify", i)
					}
				}
			}
		}
		// signing statements about others
		sp := oidfed.EntityStatementPayload{Issuer: id, Subject: "https://sub.example.org", JWKS: keys[3].Set, Extra: extra}
		tok, err := f.SignEntityStatement(sp)
		checkSigned(c, tok, err, typES, sp, k)
	})
}

func p17(h *H) {
	ro := func(c *C, k *Key, id string, lifetime int64, tok []byte, t0, t1 int64) map[string]any {
		hd, pl, in, sig, err := decodeJWT(tok)
		if !c.Must(err == nil, "request-object", "does not decode: %v", err) {
			return nil
		}
		c.Must(k.verifies(in, sig), "signature", "not signed with the client's key (kid %v)", hd["kid"])
		c.Must(pl["iss"] == id, "iss", "iss %v", pl["iss"])
		iat, _ := pl["iat"].(float64)
		exp, _ := pl["exp"].(float64)
		c.Must(int64(iat) >= t0 && int64(iat) <= t1, "iat", "iat %v not in [%d,%d]", pl["iat"], t0, t1)
		c.Must(int64(exp)-int64(iat) == lifetime, "exp", "exp %v iat %v lifetime %d", pl["exp"], pl["iat"], lifetime)
		jti, _ := pl["jti"].(string)
		c.Must(jti != "", "jti", "no jti")
		return pl
	}
	h.Cases("request-object", h.N(3000, 20000), func(c *C) {
		k := keys[c.R.Intn(8)]
		id := pick(c.R, "https://rp.example.org", "https://rp.example.org/x")
		lf := pick[int64](c.R, 60, 1, 3600, 0, 10)
		p := oidfed.NewRequestObjectProducer(id, k.Priv, jwa.ES256(), lf)
		var vals map[string]any
		if chance(c.R, 0.95) {
			vals = map[string]any{}
			if chance(c.R, 0.9) {
				vals["aud"] = pick[any](c.R, "https://op.example.org", []any{"https://op.example.org", "https://op2.example.org"})
			}
			for i := c.R.Intn(6); i > 0; i-- {
				kk := pick(c.R, "sub", "client_secret", "iss", "client_id", "jti", "scope", "state", "nonce", "claims", "iat", "exp", "prompt", "Sub", "aud2", "client_assertion")
				vals[kk] = pick[any](c.R, "v1", "v2", []any{"a", "b"}, 3.0, true, map[string]any{"x": "y"}, nil)
				if kk == "jti" {
					vals[kk] = "my-jti"
				}
			}
		}
		before := jstr(vals)
		c.Input = map[string]any{"values": vals, "id": id, "lifetime": lf}
		t0 := time.Now().Unix()
		tok, err := p.RequestObject(vals)
		t1 := time.Now().Unix()
		_, hasAud := vals["aud"]
		var ks []string
		for kk := range vals {
			ks = append(ks, kk)
		}
		sortStrings(ks)
		c.Eval(fmt.Sprintf("request object %v lf=%d", ks, lf))
		c.Must(jstr(vals) == before, "caller-data", "caller's values modified: %s -> %s", before, jstr(vals))
		if !hasAud {
			c.Must(err != nil, "no-aud", "request without aud accepted")
			return
		}
		if !c.Must(err == nil, "request-object", "failed: %v", err) {
			return
		}
		pl := ro(c, k, id, lf, tok, t0, t1)
		if pl == nil {
			return
		}
		c.Must(pl["client_id"] == id, "client_id", "client_id %v", pl["client_id"])
		want := map[string]any{}
		for kk, v := range vals {
			switch kk {
			case "sub", "client_secret", "iss", "client_id", "iat", "exp":
			default:
				want[kk] = v
			}
		}
		got := map[string]any{}
		for kk, v := range pl {
			switch kk {
			case "iss", "client_id", "iat", "exp":
			case "jti":
				if _, set := vals["jti"]; set {
					got[kk] = v
				}
			default:
				got[kk] = v
			}
		}
		c.Must(reflect.DeepEqual(norm(got), norm(want)), "params", "parameters %s instead of %s", njson(got), njson(want))
	})
	h.Cases("client-assertion", h.N(400, 2000), func(c *C) {
		k := keys[c.R.Intn(8)]
		id := "https://rp.example.org"
		lf := pick[int64](c.R, 60, 1, 3600)
		aud := pick(c.R, "https://op.example.org/token", "", "x")
		t0 := time.Now().Unix()
		tok, err := oidfed.NewRequestObjectProducer(id, k.Priv, jwa.ES256(), lf).ClientAssertion(aud)
		t1 := time.Now().Unix()
		c.Input = map[string]any{"aud": aud}
		c.Eval(fmt.Sprintf("client assertion %s %d", aud, lf))
		if !c.Must(err == nil, "client-assertion", "%v", err) {
			return
		}
		if pl := ro(c, k, id, lf, tok, t0, t1); pl != nil {
			c.Must(pl["sub"] == id && pl["aud"] == aud, "client-assertion", "sub %v aud %v", pl["sub"], pl["aud"])
			c.Must(len(pl) == 6, "client-assertion", "claims %s", jstr(pl))
		}
	})
	h.Cases("flow", h.N(800, 6000), func(c *C) {
		netw.Reset()
		cache.SetCache(noCache{})
		ta, op, id := "https://ta.example.org", "https://op.example.org", "https://rp.example.org"
		now := nowf()
		authz := op + "/authorize" + pick(c.R, "", "?tenant=1", "?tenant=a%20b&x=y", "?client_id=evil&scope=evil", "?x=1&x=2")
		tokenEP := op + "/token"
		opIssuer := pick(c.R, op, op, "https://op.example.org/other")
		opmd := map[string]any{
			"issuer": opIssuer, "authorization_endpoint": authz, "token_endpoint": tokenEP,
			"response_types_supported": []any{"code"}, "client_registration_types_supported": []any{"automatic"},
			"subject_types_supported": []any{"public"}, "id_token_signing_alg_values_supported": []any{"ES256"},
		}
		kind := "openid_provider"
		if chance(c.R, 0.1) {
			kind = "openid_relying_party"
			opmd = map[string]any{"redirect_uris": []any{"https://x.example.org"}, "client_registration_types": []any{"automatic"}}
		}
		reach := chance(c.R, 0.9)
		k := keys[2]
		stmt := func(iss, sub string, sk, pk *Key, more map[string]any) []byte {
			p := map[string]any{"iss": iss, "sub": sub, "iat": now - 10, "exp": now + 1000, "jwks": jwksOf(pk)}
			for a, b := range more {
				p[a] = b
			}
			return jwt(typES, p, sk)
		}
		ct := "application/entity-statement+jwt"
		netw.Static(ta+"/.well-known/openid-federation", 200, ct, stmt(ta, ta, keys[0], keys[0], map[string]any{"metadata": map[string]any{"federation_entity": map[string]any{"federation_fetch_endpoint": ta + "/fetch"}}}))
		netw.Static(op+"/.well-known/openid-federation", 200, ct, stmt(op, op, keys[1], keys[1], map[string]any{"authority_hints": []any{ta}, "metadata": map[string]any{kind: opmd}}))
		if reach {
			netw.Static(ta+"/fetch", 200, ct, stmt(ta, op, keys[0], keys[1], nil))
		}
		var form url.Values
		answer := pick(c.R, "token", "error")
		netw.Handle(tokenEP, func(r *http.Request) (int, string, []byte, error) {
			_ = r.ParseForm()
			form = r.PostForm
			if answer == "error" {
				return jsonResp(map[string]any{"error": "invalid_grant", "error_description": "d"})
			}
			return jsonResp(map[string]any{"access_token": "at", "token_type": "Bearer", "expires_in": 60, "id_token": "idt", "foo": "bar"})
		})
		leaf, err := oidfed.NewFederationLeaf(id, []string{ta}, oidfed.NewTrustAnchorsFromEntityIDs(ta), nil, oidfed.NewEntityStatementSigner(keys[3].Priv, jwa.ES256()), 1000, k.Priv, jwa.ES256(), nil)
		if err != nil {
			panic(err)
		}
		var add url.Values
		if chance(c.R, 0.7) {
			add = url.Values{}
			for i := c.R.Intn(4); i > 0; i-- {
				kk := pick(c.R, "nonce", "prompt", "acr_values", "sub", "client_secret", "aud", "scope", "client_id", "state", "redirect_uri", "grant_type", "code", "resource")
				add[kk] = pick(c.R, []string{"v"}, []string{"v", "w"}, []string{"z"})
			}
		}
		before := jstr(add)
		state, scope, ru := pick(c.R, "st", "s t&x"), pick(c.R, "openid", "openid profile"), "https://rp.example.org/cb?a=b"
		c.Input = map[string]any{"authorization_endpoint": authz, "issuer": opIssuer, "params": add, "kind": kind, "reachable": reach}
		usable := reach && kind == "openid_provider"
		t0 := time.Now().Unix()
		res, err := leaf.GetAuthorizationURL(op, ru, state, scope, add)
		t1 := time.Now().Unix()
		c.Eval(fmt.Sprintf("authorization url %v %v params %s", authz, usable, before))
		c.Must(jstr(add) == before, "caller-data", "caller's parameters modified: %s -> %s", before, jstr(add))
		if !usable {
			c.Must(err != nil, "unresolved", "authorization url %s for a provider without trusted metadata", res)
		} else if c.Must(err == nil, "authorization-url", "failed: %v", err) {
			u, err := url.Parse(res)
			if c.Must(err == nil, "authorization-url", "%v", err) {
				au, _ := url.Parse(authz)
				want := au.Query()
				q := u.Query()
				obj := q.Get("request")
				want.Set("client_id", id)
				want.Set("response_type", "code")
				want.Set("redirect_uri", ru)
				want.Set("scope", scope)
				want.Set("request", obj)
				c.Must(reflect.DeepEqual(q, want), "authorization-url", "query %v instead of %v", q, want)
				u.RawQuery, au.RawQuery = "", ""
				c.Must(u.String() == au.String(), "authorization-url", "endpoint %s instead of %s", u, au)
				if pl := ro(c, k, id, 60, []byte(obj), t0, t1); pl != nil {
					wp := map[string]any{}
					for kk, v := range add {
						if kk == "sub" || kk == "client_secret" {
							continue
						}
						if len(v) == 1 {
							wp[kk] = v[0]
						} else {
							wp[kk] = v
						}
					}
					wp["aud"], wp["redirect_uri"], wp["state"], wp["scope"], wp["response_type"], wp["client_id"], wp["iss"] = opIssuer, ru, state, scope, "code", id, id
					for _, kk := range []string{"iat", "exp", "jti"} {
						wp[kk] = pl[kk]
					}
					c.Must(reflect.DeepEqual(norm(wp), any(pl)), "authorization-request", "request object %s instead of %s", jstr(pl), njson(wp))
				}
			}
		}
		// code exchange
		t0 = time.Now().Unix()
		tr, er, err := leaf.CodeExchange(op, "code1", ru, add)
		t1 = time.Now().Unix()
		c.Eval(fmt.Sprintf("code exchange %s %v params %s", answer, usable, before))
		c.Must(jstr(add) == before, "caller-data", "caller's parameters modified by code exchange: %s -> %s", before, jstr(add))
		if !usable {
			c.Must(err != nil && form == nil, "unresolved", "code sent to an untrusted provider")
			return
		}
		if !c.Must(err == nil && form != nil, "code-exchange", "failed: %v", err) {
			return
		}
		wf := url.Values{}
		for kk, v := range add {
			wf[kk] = append([]string{}, v...)
		}
		for kk, v := range map[string]string{
			"grant_type": "authorization_code", "code": "code1", "redirect_uri": ru, "client_id": id,
			"client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion": form.Get("client_assertion"),
		} {
			wf[kk] = []string{v}
		}
		c.Must(reflect.DeepEqual(form, wf), "code-exchange", "form %v instead of %v", form, wf)
		if pl := ro(c, k, id, 60, []byte(form.Get("client_assertion")), t0, t1); pl != nil {
			c.Must(pl["sub"] == id && pl["aud"] == tokenEP, "code-exchange", "assertion sub %v aud %v", pl["sub"], pl["aud"])
		}
		if answer == "error" {
			c.Must(er != nil && tr == nil && er.Error == "invalid_grant", "code-exchange", "error response %v %v", er, tr)
		} else {
			c.Must(tr != nil && er == nil && tr.AccessToken == "at" && tr.IDToken == "idt" && tr.ExpiresIn == 60 && tr.Extra["foo"] == "bar", "code-exchange", "token response %v %v", er, tr)
		}
	})
}
