package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"sort"
	"strings"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/jwks"
)

func init() {
	properties["P24"] = p24
}

// clone makes a generic deep copy
func clone(v any) any { return norm(v) }

// hostile is a value remote parties might send anywhere
func hostile(r *rand.Rand) any {
	switch r.Intn(16) {
	case 0, 1:
		return nil
	case 2:
		return []any{}
	case 3:
		return map[string]any{}
	case 4:
		return ""
	case 5:
		return -1.0
	case 6:
		return 1e300
	case 7:
		return []any{nil}
	case 8:
		return []any{map[string]any{}}
	case 9:
		return []any{[]any{}}
	case 10:
		return map[string]any{"": nil}
	case 11:
		return true
	case 12:
		return map[string]any{"keys": []any{}}
	case 13:
		return "a.b.c"
	case 14:
		return []any{1.0, "a", nil, map[string]any{"x": []any{}}}
	}
	return randAny(r, 3)
}

// mutate changes, removes or adds parts of a document
func mutate(r *rand.Rand, v any, p float64) any {
	if chance(r, p) {
		return hostile(r)
	}
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if chance(r, p/2) {
				delete(x, k)
				continue
			}
			x[k] = mutate(r, x[k], p)
		}
		if chance(r, p) {
			x[pick(r, "", "x", "metadata", "jwks", "value", "openid_provider", "exp")] = hostile(r)
		}
	case []any:
		for i := range x {
			x[i] = mutate(r, x[i], p)
		}
		if chance(r, p) {
			return append(x, hostile(r))
		}
		if len(x) > 0 && chance(r, p) {
			return x[1:]
		}
	}
	return v
}

func p24(h *H) {
	body := func(r *rand.Rand) []byte {
		switch r.Intn(8) {
		case 0:
			return nil
		case 1:
			return []byte("null")
		case 2:
			return []byte("{}")
		case 3:
			return []byte("[]")
		case 4:
			return []byte("a.b.c")
		case 5:
			return []byte("..")
		case 6:
			return []byte(jstr(hostile(r)))
		}
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return b
	}
	token := func(r *rand.Rand, typ string, payload any, k *Key) []byte {
		if chance(r, 0.03) {
			return body(r)
		}
		if chance(r, 0.03) {
			hd := map[string]any{"alg": "ES256", "typ": typ, "kid": k.Kid}
			return compact(mutateMap(r, hd), []byte(jstr(payload)), k)
		}
		if chance(r, 0.02) { // other serialization, maybe without signatures
			var sigs []map[string]any
			for i := 0; i < r.Intn(3); i++ {
				sigs = append(sigs, sigEntry(k, map[string]any{"alg": "ES256", "typ": typ}, nil, []byte(jstr(payload))))
			}
			return jsonSerialization([]byte(jstr(payload)), sigs)
		}
		return jwt(typ, payload, k)
	}
	serveAny := func(r *rand.Rand, tok []byte) Handler {
		kind := r.Intn(14)
		b := body(r)
		return func(*http.Request) (int, string, []byte, error) {
			switch kind {
			case 0:
				return 200, "application/json", b, nil
			case 1:
				return pick0i(len(b), 400, 404, 500, 204, 301, 999), "application/json", b, nil
			}
			return 200, "application/entity-statement+jwt", tok, nil
		}
	}
	h.Cases("federation", h.N(3000, 120000), func(c *C) {
		r := c.R
		d := docs{r}
		p := pick(r, 0, 0.01, 0.03, 0.1)
		n := 2 + r.Intn(4)
		netw.Reset()
		ids := []string{}
		for i := 0; i < n; i++ {
			ids = append(ids, fmt.Sprintf("https://h%d.example.org", i))
		}
		served := map[string]string{}
		serve := func(u string, h Handler) {
			netw.Handle(u, h)
			_, _, b, _ := h(nil)
			served[u] = string(b)
		}
		now := nowf()
		stmt := func(iss, sub string, ks ...*Key) map[string]any {
			s, _ := d.object("EntityStatementPayload", pick(r, 0.1, 0.5, 0.9))
			s["iss"], s["sub"], s["iat"], s["exp"], s["jwks"] = iss, sub, now-10, now+600, jwksOf(ks...)
			delete(s, "crit")
			delete(s, "metadata_policy_crit")
			delete(s, "authority_hints")
			delete(s, "trust_marks")
			delete(s, "constraints")
			if chance(r, 0.6) {
				delete(s, "metadata_policy")
			} else if _, ok := s["metadata_policy"]; !ok && chance(r, 0.6) {
				s["metadata_policy"] = map[string]any{}
				for _, t := range randTypes(r, 2) {
					pol := map[string]any{}
					for _, pa := range paramsOf(t) {
						if chance(r, 0.5) {
							pol[pa.Name] = map[string]any(randEntry(r, pa, 2))
						}
					}
					s["metadata_policy"].(map[string]any)[t] = pol
				}
			}
			return s
		}
		for i, id := range ids {
			s := stmt(id, id, keys[i])
			m, _ := clone(s["metadata"]).(map[string]any)
			if m == nil {
				m = map[string]any{}
			}
			if i == 0 || chance(r, 0.3) {
				for t, v := range randMeta(r, randTypes(r, 3)) {
					m[t] = v
				}
			}
			fe, _ := m["federation_entity"].(map[string]any)
			if fe == nil {
				fe = map[string]any{}
			}
			if i > 0 {
				fe["federation_fetch_endpoint"] = id + "/fetch"
				fe["federation_list_endpoint"] = id + "/list"
				fe["federation_resolve_endpoint"] = id + "/resolve"
				fe["federation_trust_mark_endpoint"] = id + "/tm"
				fe["federation_collection_endpoint"] = id + "/collect"
				m["federation_entity"] = fe
			}
			if op, ok := m["openid_provider"].(map[string]any); ok {
				op["issuer"] = id
				op["token_endpoint"] = id + "/token"
				op["authorization_endpoint"] = pick(r, id+"/auth", "::bad::", "")
			}
			s["metadata"] = m
			if i < n-1 {
				s["authority_hints"] = []any{ids[i+1]}
				if chance(r, 0.3) {
					s["authority_hints"] = []any{ids[r.Intn(n)], ids[i+1], id}
				}
			}
			var marks []any
			for k := 0; k < r.Intn(3); k++ {
				mp, _ := d.object("TrustMark", 0.5)
				mp["iss"], mp["sub"], mp["trust_mark_type"], mp["iat"], mp["exp"] = ids[n-1-r.Intn(2)], id, pick(r, tmTypes...), now-5, now+100
				if chance(r, 0.5) {
					dp, _ := d.object("DelegationJWT", 0.5)
					dp["iss"], dp["sub"], dp["trust_mark_type"], dp["iat"], dp["exp"] = ids[n-1], mp["iss"], mp["trust_mark_type"], now-5, now+100
					mp["delegation"] = string(token(r, typDel, mutate(r, clone(dp), p), keys[n-1]))
				}
				marks = append(marks, map[string]any{
					"trust_mark_type": mp["trust_mark_type"], "trust_mark": string(token(r, typTM, mutate(r, clone(mp), p), keys[n-1-r.Intn(2)])),
				})
			}
			s["trust_marks"] = marks
			if i == n-1 && chance(r, 0.7) {
				s["trust_mark_issuers"] = map[string]any{tmTypes[0]: []any{ids[n-1]}, tmTypes[1]: []any{}}
				s["trust_mark_owners"] = map[string]any{tmTypes[0]: map[string]any{"sub": ids[n-1], "jwks": jwksOf(keys[n-1])}}
			}
			serve(id+"/.well-known/openid-federation", serveAny(r, token(r, typES, mutate(r, clone(s), p), keys[i])))
			fetch := map[string]Handler{}
			for j, sub := range ids {
				ss := stmt(id, sub, keys[j])
				if chance(r, 0.3) {
					ss["constraints"] = d.value("*ConstraintSpecification", "constraints")
				}
				delete(ss, "metadata")
				fetch[sub] = serveAny(r, token(r, typES, mutate(r, clone(ss), p), keys[i]))
				_, _, b, _ := fetch[sub](nil)
				served[id+"/fetch?sub="+sub] = string(b)
			}
			netw.Handle(id+"/fetch", func(req *http.Request) (int, string, []byte, error) {
				if f := fetch[req.URL.Query().Get("sub")]; f != nil {
					return f(req)
				}
				return 404, "application/json", []byte(`{"error":5}`), nil
			})
			js := func(v any) Handler {
				data := []byte(jstr(mutate(r, clone(v), p)))
				return func(*http.Request) (int, string, []byte, error) { return 200, "application/json", data, nil }
			}
			serve(id+"/list", js(append([]string{"", ids[0]}, ids[:i]...)))
			rr, _ := d.object("ResolveResponse", 0.6)
			serve(id+"/resolve", serveAny(r, token(r, typRR, mutate(r, clone(rr), p), keys[i])))
			tmk, _ := d.object("TrustMark", 0.6)
			tmk["sub"], tmk["trust_mark_type"] = ids[0], tmTypes[0]
			serve(id+"/tm", serveAny(r, token(r, typTM, mutate(r, clone(tmk), p), keys[i])))
			ce, _ := d.object("CollectedEntity", 0.6)
			serve(id+"/collect", js(map[string]any{"federation_entities": []any{ce, nil}}))
			serve(id+"/token", js(map[string]any{"access_token": "a", "expires_in": 5, "x": hostile(r)}))
		}
		c.Input = served
		key := ""
		for _, id := range ids {
			key += served[id+"/.well-known/openid-federation"]
		}
		c.Eval(key)
		ta := ids[n-1]
		var tas []oidfed.TrustAnchor
		tas = append(tas, oidfed.TrustAnchor{EntityID: ta})
		if chance(r, 0.5) {
			tas = append(tas, oidfed.TrustAnchor{EntityID: ids[r.Intn(n)], JWKS: setOf(keys[n-1])})
		}
		tr := &oidfed.TrustResolver{TrustAnchors: tas, StartingEntity: ids[0]}
		if chance(r, 0.3) {
			tr.Types = []string{pick(r, allTypes...)}
		}
		chains := tr.ResolveToValidChains()
		for _, ch := range chains {
			ch.Metadata()
			ch.ExpiresAt()
			ch.PathLen()
			json.Marshal(ch.Messages())
			if b, err := msgpack.Marshal(ch); err == nil {
				var back oidfed.TrustChain
				msgpack.Unmarshal(b, &back)
			}
		}
		chains.SortAsc(oidfed.TrustChainScoringPathLen)
		tr.ResolveToValidChainsWithoutVerifyingMetadata()
		taEC, _ := oidfed.GetEntityConfiguration(ta)
		for _, id := range ids {
			es, err := oidfed.GetEntityConfiguration(id)
			if err != nil || es == nil {
				continue
			}
			es.Verify(setOf(keys[0]))
			es.Verify(jwks.JWKS{})
			for i := range es.TrustMarks {
				es.TrustMarks[i].VerifyExternal(setOf(keys[n-1]))
				es.TrustMarks[i].VerifyExternal(jwks.JWKS{}, oidfed.TrustMarkOwnerSpec{ID: ta})
			}
			if taEC != nil {
				es.TrustMarks.VerifiedFederation(&taEC.EntityStatementPayload)
			}
			es.TrustMarks.VerifiedFederation(&es.EntityStatementPayload)
			if es.Metadata != nil {
				es.Metadata.GuessDisplayNames()
				es.Metadata.GuessEntityTypes()
				for _, t := range append([]string{"", "x", "acme_type"}, allTypes...) {
					var m map[string]any
					es.Metadata.FindEntityMetadata(t, &m)
					var op oidfed.OpenIDProviderMetadata
					es.Metadata.FindEntityMetadata(t, &op)
				}
			}
			json.Marshal(es)
		}
		req := apimodel.ResolveRequest{Subject: ids[0], TrustAnchor: ids[1:]}
		for _, mr := range []oidfed.MetadataResolver{
			oidfed.LocalMetadataResolver{}, oidfed.SmartRemoteMetadataResolver{}, oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: ta + "/resolve"},
		} {
			mr.Resolve(req)
			mr.ResolveResponsePayload(req)
			mr.ResolvePossible(req)
		}
		creq := apimodel.EntityCollectionRequest{TrustAnchor: ta}
		if chance(r, 0.5) {
			creq.TrustMarkTypes = []string{tmTypes[0]}
		}
		if chance(r, 0.5) {
			creq.NameQuery = "a"
			creq.Claims = []string{"metadata", "trust_marks", "trust_chain", "display_name"}
		}
		for _, col := range []oidfed.EntityCollector{
			&oidfed.SimpleEntityCollector{}, oidfed.VerifiedChainsEntityCollector{}, oidfed.SmartRemoteEntityCollector{TrustAnchors: ids[1:]},
			oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: ta + "/collect"},
			// what a remote collector answers is filtered locally
			oidfed.FilterableVerifiedChainsEntityCollector{Collector: oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: ta + "/collect"}},
		} {
			for _, e := range col.CollectEntities(creq) {
				json.Marshal(e)
			}
		}
		for _, e := range (oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: ta + "/collect"}).CollectEntities(creq) {
			for _, f := range []oidfed.EntityCollectionFilter{
				oidfed.EntityCollectionFilterOPs(), oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration([]string{ta}),
				oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(nil), oidfed.EntityCollectionFilterOPSupportedScopesIncludes([]string{ta}, "openid"),
				oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes([]string{ta}, "implicit"),
			} {
				f.Filter(e)
			}
		}
		cfg := oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: tmTypes[0], TrustMarkIssuer: ids[r.Intn(n)]}
		if cfg.Verify(ids[0], ids[0]+"/tm", nil) == nil {
			cfg.TrustMarkJWT()
		}
		rp := "https://rp.example.org"
		leaf, err := oidfed.NewFederationLeaf(
			rp, nil, tas, &oidfed.Metadata{RelyingParty: &oidfed.OpenIDRelyingPartyMetadata{}}, oidfed.NewEntityStatementSigner(keys[3].Priv, jwa.ES256()),
			0, keys[0].Priv, jwa.ES256(), nil,
		)
		if err == nil {
			for _, id := range ids {
				leaf.GetAuthorizationURL(id, rp+"/cb", "s", "openid", nil)
				leaf.CodeExchange(id, "code", rp+"/cb", nil)
			}
		}
	})
	h.Cases("policies", h.N(20000, 400000), func(c *C) {
		r := c.R
		d := docs{r}
		p := pick(r, 0, 0.02, 0.1, 0.3)
		var pols []*oidfed.MetadataPolicies
		in := []any{}
		for i := 0; i <= r.Intn(3); i++ {
			var doc any
			if chance(r, 0.5) {
				doc = d.policies()
			} else {
				m := map[string]any{}
				for _, t := range randTypes(r, 3) {
					pol := map[string]any{}
					for _, pa := range paramsOf(t) {
						if chance(r, 0.5) {
							pol[pa.Name] = map[string]any(randEntry(r, pa, 3))
						}
					}
					m[t] = pol
				}
				doc = m
			}
			doc = mutate(r, clone(doc), p)
			var mp oidfed.MetadataPolicies
			if json.Unmarshal([]byte(jstr(doc)), &mp) == nil {
				in = append(in, doc)
				pols = append(pols, &mp)
				if chance(r, 0.05) {
					pols = append(pols, nil)
				}
			}
		}
		var md any = d.metadata()
		if chance(r, 0.7) {
			md = randMeta(r, randTypes(r, 4))
		}
		md = mutate(r, clone(md), p/2)
		c.Input = map[string]any{"policies": in, "metadata": md}
		c.Eval(jstr(c.Input))
		merged, err := oidfed.MergeMetadataPolicies(pols...)
		var m oidfed.Metadata
		if json.Unmarshal([]byte(jstr(md)), &m) != nil {
			return
		}
		all := append([]*oidfed.MetadataPolicies{}, pols...)
		if err == nil {
			all = append(all, merged)
		}
		for _, mp := range all {
			m.ApplyPolicy(mp)
			if mp == nil {
				continue
			}
			json.Marshal(mp)
			for _, pol := range []oidfed.MetadataPolicy{mp.OpenIDProvider, mp.RelyingParty, mp.FederationEntity, mp.OAuthClient} {
				pol.Verify("x")
				for _, e := range pol {
					e.Verify("y")
					for _, v := range []any{nil, "a", 5.0, []any{"a", nil}, []string{"a"}, map[string]any{}, true, hostile(r)} {
						e.ApplyTo(v, true, "z")
						e.ApplyTo(v, false, "z")
					}
				}
			}
		}
		if b, err := msgpack.Marshal(&m); err == nil {
			var back oidfed.Metadata
			msgpack.Unmarshal(b, &back)
		}
	})
	h.Cases("decode", h.N(20000, 400000), func(c *C) {
		r := c.R
		st := serialTypes[c.Idx%len(serialTypes)]
		doc, _ := st.gen(docs{r})
		doc = mutate(r, clone(doc), pick(r, 0.01, 0.05, 0.2))
		text := []byte(jstr(doc))
		if chance(r, 0.05) && len(text) > 0 {
			text = text[:r.Intn(len(text))]
		}
		c.Input = st.name + ": " + string(text)
		c.Eval(string(text))
		v := st.mk()
		if json.Unmarshal(text, v) == nil {
			json.Marshal(v)
			if st.bin {
				if b, err := msgpack.Marshal(v); err == nil {
					msgpack.Unmarshal(b, st.mk())
				}
			}
		}
		for _, typ := range knownTyps {
			parseAs(typ, token(r, typ, doc, keys[0]))
		}
		for _, s := range []string{"", "null", "{}", "[]", "\"\"", "5", "..", "a.b.c", strings.Repeat("[", 50)} {
			json.Unmarshal([]byte(s), st.mk())
		}
	})
}

func pick0i(n int, xs ...int) int { return xs[n%len(xs)] }

func mutateMap(r *rand.Rand, m map[string]any) map[string]any {
	x, _ := mutate(r, clone(m), 0.3).(map[string]any)
	if x == nil {
		x = map[string]any{}
	}
	return x
}
