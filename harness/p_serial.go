package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/vmihailenco/msgpack/v5"
	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

func init() {
	properties["P20"] = p20
	properties["P25"] = p25
}

var strPool = []string{
	"a", "https://x.example.org/y", "ünïcode ☃", "with \"quotes\" & <tags>", "new\nline\tand\\back", "0", "null", "true",
	"\u2028", "😀", " ", "iss", "metadata",
}

func randStr(r *rand.Rand) string {
	if chance(r, 0.5) {
		return fmt.Sprintf("v%d", r.Intn(1000))
	}
	return pick(r, strPool...)
}

func randStrs(r *rand.Rand) []any {
	out := []any{}
	for i := 0; i <= r.Intn(4); i++ {
		out = append(out, randStr(r))
	}
	return out
}

// randAny is any JSON value
func randAny(r *rand.Rand, depth int) any {
	switch n := r.Intn(9); {
	case n == 0:
		return nil
	case n == 1:
		return chance(r, 0.5)
	case n == 2:
		return float64(r.Intn(100000))
	case n == 3:
		return math.Round(r.NormFloat64()*1e6) / 1e3
	case n == 4 && depth > 0:
		out := []any{}
		for i := 0; i < r.Intn(3); i++ {
			out = append(out, randAny(r, depth-1))
		}
		return out
	case n == 5 && depth > 0:
		out := map[string]any{}
		for i := 0; i < r.Intn(3); i++ {
			out[randStr(r)] = randAny(r, depth-1)
		}
		return out
	case n == 6:
		return ""
	default:
		return randStr(r)
	}
}

// extraNames are names of additional claims; several differ from known claims only slightly or are known in other objects
var extraNames = []string{
	"x", "x_claim", "custom", "name with space", "ünï", "iss_", "trust_mark_id", "Extra", "-", "extra", "https://ns.example.org/c",
	"federation_fetch_endpoint2", "jwks2", "wasSet", "a.b", "openid_provider2", "acr", "jti", "nbf", "omitempty", ",omitempty",
	"trustmark", "jwtMsg", "delegation2", "fed", "Claims",
}

func addExtras(r *rand.Rand, doc map[string]any, known map[string]bool, max int) map[string]any {
	extra := map[string]any{}
	for i := 0; i < r.Intn(max+1); i++ {
		n := pick(r, extraNames...)
		ci := false
		for k := range known { // JSON member names are matched case-insensitively by encoding/json
			ci = ci || strings.EqualFold(k, n)
		}
		if ci {
			continue
		}
		extra[n] = randAny(r, 2)
		doc[n] = extra[n]
	}
	return extra
}

// docs generates documents of one type
type docs struct{ r *rand.Rand }

func (d docs) object(typ string, p float64, required ...string) (doc, extra map[string]any) {
	doc = map[string]any{}
	known := map[string]bool{}
	req := map[string]bool{}
	for _, k := range required {
		req[k] = true
	}
	if typ == "ResolveResponse" {
		for _, c := range claimTable["ResolveResponsePayload"] {
			known[c[0]] = true
			if chance(d.r, p) {
				doc[c[0]] = d.value(c[2], c[0])
			}
		}
	}
	for _, c := range claimTable[typ] {
		known[c[0]] = true
		if req[c[0]] || chance(d.r, p) {
			doc[c[0]] = d.value(c[2], c[0])
		}
	}
	extra = addExtras(d.r, doc, known, 4)
	return
}

func (d docs) num() float64 {
	switch d.r.Intn(4) {
	case 0:
		return float64(d.r.Intn(100))
	case 1:
		return 1700000000 + float64(d.r.Intn(1<<20)) + float64(d.r.Intn(8))/8
	case 2:
		return float64(d.r.Int63n(1 << 40))
	}
	return float64(1600000000 + d.r.Intn(1e9))
}

func (d docs) mark() any {
	m, _ := d.object("TrustMarkInfo", 1)
	return m
}

func (d docs) msgs() any {
	out := []any{}
	for i := 0; i <= d.r.Intn(2); i++ {
		out = append(out, string(jwt(typES, map[string]any{"n": d.r.Intn(100)}, keys[0])))
	}
	return out
}

func (d docs) jwks() any { return jwksOf(keys[d.r.Intn(3)], keys[3+d.r.Intn(3)]) }

func (d docs) metadata() map[string]any {
	m := map[string]any{}
	for t, g := range map[string]string{
		"openid_provider": "OpenIDProviderMetadata", "openid_relying_party": "OpenIDRelyingPartyMetadata",
		"oauth_authorization_server": "OpenIDProviderMetadata", "oauth_client": "OpenIDRelyingPartyMetadata",
		"oauth_resource": "OAuthProtectedResourceMetadata", "federation_entity": "FederationEntityMetadata",
	} {
		if chance(d.r, 0.4) {
			m[t], _ = d.object(g, pick(d.r, 0.02, 0.2, 0.9))
		}
	}
	for i := 0; i < d.r.Intn(3); i++ {
		o, _ := d.object("UIInfo", 0.5)
		m[pick(d.r, "acme_type", "other_type", "x")] = o
	}
	return m
}

func (d docs) policies() map[string]any {
	m := map[string]any{}
	for _, t := range allTypes {
		if !chance(d.r, 0.4) {
			continue
		}
		pol := map[string]any{}
		for i := 0; i <= d.r.Intn(3); i++ {
			e := map[string]any{}
			for op, v := range map[string]any{
				"value": randAny(d.r, 1), "add": randStrs(d.r), "default": randAny(d.r, 1), "one_of": randStrs(d.r), "subset_of": randStrs(d.r),
				"superset_of": randStrs(d.r), "essential": chance(d.r, 0.5), "regexp": "^x", "vendor_op": randAny(d.r, 2),
			} {
				if chance(d.r, 0.25) {
					e[op] = v
				}
			}
			pol[pick(d.r, "contacts", "scope", "x_param", "client_name", "jwks_uri", "iss")] = e
		}
		m[t] = pol
	}
	return m
}

func (d docs) value(typ, name string) any {
	r := d.r
	switch typ {
	case "string":
		return randStr(r)
	case "[]string", "[]PolicyOperatorName":
		return randStrs(r)
	case "bool":
		return chance(r, 0.7)
	case "int64":
		return float64(r.Int63n(1 << 50))
	case "map[string]string":
		return map[string]any{"a": randStr(r), "b": randStr(r)}
	case "map[string][]string", "AllowedTrustMarkIssuers":
		return map[string]any{"https://tm.example.org/a": randStrs(r), "b": []any{}}
	case "unixtime.Unixtime", "*unixtime.Unixtime":
		return d.num()
	case "unixtime.DurationInSeconds":
		return float64(r.Intn(1e9)) / 4
	case "jwks.JWKS", "*jwks.JWKS":
		return d.jwks()
	case "*Metadata":
		return d.metadata()
	case "*MetadataPolicies":
		return d.policies()
	case "*ConstraintSpecification":
		c := map[string]any{}
		if chance(r, 0.6) {
			c["max_path_length"] = float64(r.Intn(4))
		}
		if chance(r, 0.6) {
			c["naming_constraints"] = map[string]any{"permitted": randStrs(r), "excluded": randStrs(r)}
		}
		if chance(r, 0.6) {
			c["allowed_entity_types"] = randStrs(r)
		}
		return c
	case "TrustMarkInfos":
		out := []any{}
		for i := 0; i <= r.Intn(3); i++ {
			out = append(out, d.mark())
		}
		return out
	case "TrustMarkOwners":
		return map[string]any{"https://tm.example.org/a": map[string]any{"sub": "https://o.example.org", "jwks": d.jwks()}}
	case "JWSMessages":
		return d.msgs()
	case "map[string]UIInfo":
		a, _ := d.object("UIInfo", 0.6)
		b, _ := d.object("UIInfo", 0.6)
		return map[string]any{"openid_provider": a, "federation_entity": b}
	}
	panic("no generator for " + typ)
}

// noEmpty drops members that carry no information (null, "", false, 0, empty lists and objects); the library does not
// distinguish them from absent ones when writing
func noEmpty(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, y := range x {
			y = noEmpty(y)
			if y == nil {
				continue
			}
			out[k] = y
		}
		if len(out) == 0 {
			return nil
		}
		return out
	case []any:
		out := []any{}
		for _, y := range x {
			out = append(out, noEmpty(y))
		}
		if len(out) == 0 {
			return nil
		}
		return out
	case string:
		if x == "" {
			return nil
		}
	case bool:
		if !x {
			return nil
		}
	case float64:
		if x == 0 {
			return nil
		}
	}
	return v
}

func diff(path string, a, b any) string {
	am, aok := a.(map[string]any)
	bm, bok := b.(map[string]any)
	if aok && bok {
		var ks []string
		for k := range am {
			ks = append(ks, k)
		}
		for k := range bm {
			if _, ok := am[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if d := diff(path+"."+k, am[k], bm[k]); d != "" {
				return d
			}
		}
		return ""
	}
	al, aok := a.([]any)
	bl, bok := b.([]any)
	if aok && bok && len(al) == len(bl) {
		for i := range al {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), al[i], bl[i]); d != "" {
				return d
			}
		}
		return ""
	}
	af, aok := a.(float64)
	bf, bok := b.(float64)
	if aok && bok && math.Abs(af-bf) <= 1e-6 {
		return ""
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("%s: expected %s, got %s", path, trunc(jstr(a), 300), trunc(jstr(b), 300))
	}
	return ""
}

func sameDoc(want, got any) string { return diff("$", noEmpty(norm(want)), noEmpty(norm(got))) }

type serialType struct {
	name string
	gen  func(d docs) (doc any, extra map[string]any)
	mk   func() any
	bin  bool // is kept in caches
	yaml bool
}

func obj(typ string, required ...string) func(d docs) (any, map[string]any) {
	return func(d docs) (any, map[string]any) {
		doc, extra := d.object(typ, pick(d.r, 0.1, 0.5, 0.95), required...)
		return doc, extra
	}
}

var serialTypes = []serialType{
	{"EntityStatementPayload", obj("EntityStatementPayload"), func() any { return &oidfed.EntityStatementPayload{} }, true, false},
	{"Metadata", func(d docs) (any, map[string]any) { return d.metadata(), nil }, func() any { return &oidfed.Metadata{} }, true, false},
	{"FederationEntityMetadata", obj("FederationEntityMetadata"), func() any { return &oidfed.FederationEntityMetadata{} }, true, false},
	{"OpenIDRelyingPartyMetadata", obj("OpenIDRelyingPartyMetadata"), func() any { return &oidfed.OpenIDRelyingPartyMetadata{} }, true, false},
	{"OpenIDProviderMetadata", obj("OpenIDProviderMetadata"), func() any { return &oidfed.OpenIDProviderMetadata{} }, true, false},
	{"OAuthClientMetadata", obj("OpenIDRelyingPartyMetadata"), func() any { return &oidfed.OAuthClientMetadata{} }, true, false},
	{"OAuthAuthorizationServerMetadata", obj("OpenIDProviderMetadata"), func() any { return &oidfed.OAuthAuthorizationServerMetadata{} }, true, false},
	{"OAuthProtectedResourceMetadata", obj("OAuthProtectedResourceMetadata"), func() any { return &oidfed.OAuthProtectedResourceMetadata{} }, true, false},
	{"MetadataPolicies", func(d docs) (any, map[string]any) { return d.policies(), nil }, func() any { return &oidfed.MetadataPolicies{} }, true, false},
	{"TrustMark", obj("TrustMark"), func() any { return &oidfed.TrustMark{} }, false, false},
	{"TrustMarkInfo", obj("TrustMarkInfo"), func() any { return &oidfed.TrustMarkInfo{} }, true, false},
	{"DelegationJWT", obj("DelegationJWT"), func() any { return &oidfed.DelegationJWT{} }, false, false},
	{"ResolveResponse", obj("ResolveResponse"), func() any { return &oidfed.ResolveResponse{} }, false, false},
	{"ResolveResponsePayload", obj("ResolveResponsePayload"), func() any { return &oidfed.ResolveResponsePayload{} }, false, false},
	{"TrustMarkSpec", obj("TrustMarkSpec"), func() any { return &oidfed.TrustMarkSpec{} }, false, true},
	{"CollectedEntity", obj("CollectedEntity"), func() any { return &oidfed.CollectedEntity{} }, false, false},
	{"UIInfo", obj("UIInfo"), func() any { return &oidfed.UIInfo{} }, false, false},
	{"JWKS", func(d docs) (any, map[string]any) { return d.jwks(), nil }, func() any { return &jwks.JWKS{} }, true, true},
}

func extraOf(v any) (map[string]any, bool) {
	f := reflect.ValueOf(v).Elem()
	if f.Kind() != reflect.Struct {
		return nil, false
	}
	e := f.FieldByName("Extra")
	if !e.IsValid() {
		return nil, false
	}
	m, ok := e.Interface().(map[string]any)
	return m, ok
}

// checkFields compares the typed fields with the claims
func checkFields(c *C, kind string, table [][3]string, v any, doc map[string]any) {
	rv := reflect.ValueOf(v).Elem()
	for _, cl := range table {
		f := rv.FieldByName(cl[1])
		if !f.IsValid() {
			continue
		}
		if d := diff(cl[0], noEmpty(norm(doc[cl[0]])), noEmpty(norm(f.Interface()))); d != "" {
			if _, present := doc[cl[0]]; !present && strings.HasSuffix(cl[2], "nixtime") {
				continue // absent times read as the zero time
			}
			c.Fail(kind, "field %s does not hold the claim's value: %s", cl[1], d)
		}
	}
}

func serialTable(name string) [][3]string {
	switch name {
	case "OAuthClientMetadata":
		name = "OpenIDRelyingPartyMetadata"
	case "OAuthAuthorizationServerMetadata":
		name = "OpenIDProviderMetadata"
	case "ResolveResponse":
		return append(append([][3]string{}, claimTable["ResolveResponse"]...), claimTable["ResolveResponsePayload"]...)
	}
	return claimTable[name]
}

func checkDecoded(c *C, st serialType, how string, v any, doc any, extra map[string]any) {
	if d := sameDoc(doc, v); d != "" {
		c.Fail(st.name+"-"+how, "%s after %s differs: %s", st.name, how, d)
	}
	if m, ok := doc.(map[string]any); ok {
		if t := serialTable(st.name); t != nil {
			checkFields(c, st.name+"-"+how+"-field", t, v, m)
		}
	}
	if got, ok := extraOf(v); ok && extra != nil {
		if d := diff("extra", norm(extra), normMap(got)); d != "" {
			c.Fail(st.name+"-"+how+"-extra", "additional claims after %s: %s", how, d)
		}
	}
}

func normMap(m map[string]any) any {
	if m == nil {
		return map[string]any{}
	}
	return norm(m)
}

func p20(h *H) {
	for _, st := range serialTypes {
		st := st
		h.Cases("serial-"+st.name, h.N(300, 6000), func(c *C) {
			d := docs{c.R}
			doc, extra := st.gen(d)
			c.Input = doc
			text := []byte(jstr(doc))
			c.Eval(st.name + string(text))
			v := st.mk()
			if err := json.Unmarshal(text, v); err != nil {
				c.Fail(st.name+"-decode", "cannot decode: %v", err)
				return
			}
			checkDecoded(c, st, "json", v, doc, extra)
			data, err := json.Marshal(v)
			if !c.Must(err == nil, st.name+"-encode", "cannot encode: %v", err) {
				return
			}
			// additional claims keep even empty values
			if extra != nil {
				var back map[string]json.RawMessage
				if json.Unmarshal(data, &back) == nil {
					for k, x := range extra {
						if _, ok := back[k]; !ok {
							c.Fail(st.name+"-extra-lost", "additional claim %q (%s) is not written", k, jstr(x))
						}
					}
				}
			}
			v2 := st.mk()
			if err = json.Unmarshal(data, v2); err != nil {
				c.Fail(st.name+"-decode", "cannot decode own output: %v", err)
				return
			}
			checkDecoded(c, st, "json-twice", v2, doc, extra)
			// marshalling through a value and through a pointer gives the same
			data2, err := json.Marshal(reflect.ValueOf(v).Elem().Interface())
			c.Must(err == nil && string(data2) == string(data), st.name+"-value-encode", "value and pointer encode differently: %s %s", trunc(string(data), 500), trunc(string(data2), 500))
			if st.bin {
				bin, err := msgpack.Marshal(v)
				if !c.Must(err == nil, st.name+"-msgpack", "cannot encode for the cache: %v", err) {
					return
				}
				v3 := st.mk()
				if err = msgpack.Unmarshal(bin, v3); err != nil {
					c.Fail(st.name+"-msgpack", "cannot decode from the cache: %v", err)
					return
				}
				checkDecoded(c, st, "msgpack", v3, doc, extra)
			}
			if st.yaml {
				y, err := yaml.Marshal(reflect.ValueOf(v).Elem().Interface())
				if !c.Must(err == nil, st.name+"-yaml", "cannot encode as yaml: %v", err) {
					return
				}
				v4 := st.mk()
				if err = yaml.Unmarshal(y, v4); err != nil {
					c.Fail(st.name+"-yaml", "cannot decode own yaml: %v\n%s", err, y)
					return
				}
				checkDecoded(c, st, "yaml", v4, doc, extra)
			}
		})
	}
	h.Cases("statement", h.N(400, 8000), func(c *C) {
		d := docs{c.R}
		doc, extra := d.object("EntityStatementPayload", pick(c.R, 0.2, 0.8))
		k := keys[c.R.Intn(8)]
		tok := jwt(typES, doc, k)
		c.Input = string(tok)
		c.Eval("statement" + jstr(doc))
		es, err := oidfed.ParseEntityStatement(tok)
		if !c.Must(err == nil, "statement-parse", "%v", err) {
			return
		}
		st := serialTypes[0]
		checkDecoded(c, st, "parse", &es.EntityStatementPayload, doc, extra)
		bin, err := msgpack.Marshal(es)
		if !c.Must(err == nil, "statement-msgpack", "%v", err) {
			return
		}
		var back oidfed.EntityStatement
		if err = msgpack.Unmarshal(bin, &back); !c.Must(err == nil, "statement-msgpack", "%v", err) {
			return
		}
		checkDecoded(c, st, "cache", &back.EntityStatementPayload, doc, extra)
		c.Must(back.Verify(setOf(k)), "statement-signature", "the statement from the cache no longer verifies")
		c.Must(!back.Verify(setOf(keys[9])), "statement-signature", "the statement from the cache verifies with another key")
		ch := oidfed.TrustChain{es, &back}
		cb, err := msgpack.Marshal(ch)
		if !c.Must(err == nil, "chain-msgpack", "%v", err) {
			return
		}
		var cback oidfed.TrustChain
		if err = msgpack.Unmarshal(cb, &cback); !c.Must(err == nil && len(cback) == 2, "chain-msgpack", "%v %d", err, len(cback)) {
			return
		}
		for _, x := range cback {
			checkDecoded(c, st, "chain-cache", &x.EntityStatementPayload, doc, extra)
		}
		m, m2 := ch.Messages(), cback.Messages()
		c.Must(jstr(m) == jstr(m2) && strings.Contains(jstr(m), string(tok)), "chain-messages", "messages differ after caching")
	})
	h.Cases("slice-or-single", h.N(300, 3000), func(c *C) {
		n := c.R.Intn(5)
		strs := []string{}
		nums := []float64{}
		for i := 0; i < n; i++ {
			strs = append(strs, randStr(c.R))
			nums = append(nums, float64(c.R.Intn(50)))
		}
		check := func(single bool) {
			var in any = strs
			if single && n == 1 {
				in = strs[0]
			}
			c.Eval("sos" + jstr(in))
			var v oidfed.SliceOrSingleValue[string]
			if err := json.Unmarshal([]byte(jstr(in)), &v); !c.Must(err == nil, "sos-decode", "%s: %v", jstr(in), err) {
				return
			}
			c.Must(jstr([]string(v)) == jstr(strs), "sos-values", "%s decodes to %s", jstr(in), jstr([]string(v)))
			data, err := json.Marshal(v)
			var w oidfed.SliceOrSingleValue[string]
			c.Must(err == nil && json.Unmarshal(data, &w) == nil && jstr([]string(w)) == jstr(strs), "sos-encode", "%s encodes to %s", jstr(strs), data)
			var y oidfed.SliceOrSingleValue[string]
			yd, err := yaml.Marshal(v)
			c.Must(err == nil && yaml.Unmarshal(yd, &y) == nil && jstr([]string(y)) == jstr(strs), "sos-yaml", "%s yaml %s gives %s", jstr(strs), yd, jstr([]string(y)))
		}
		check(false)
		check(true)
		var f oidfed.SliceOrSingleValue[float64]
		c.Must(json.Unmarshal([]byte(jstr(nums)), &f) == nil && jstr([]float64(f)) == jstr(nums), "sos-values", "%s decodes to %s", jstr(nums), jstr([]float64(f)))
	})
}

// ---- P25

func bigOf(text string) *big.Rat {
	r, ok := new(big.Rat).SetString(text)
	if !ok {
		panic("bad number " + text)
	}
	return r
}

// within says whether |a-b| is at most one nanosecond plus twice the precision of the float nearest to the number
func within(a, b *big.Rat, f float64) bool {
	d := new(big.Rat).Sub(a, b)
	d.Abs(d)
	tol := new(big.Rat).SetFrac64(1, 1e9)
	ulp := math.Nextafter(math.Abs(f), math.Inf(1)) - math.Abs(f)
	u := new(big.Rat)
	u.SetFloat64(2 * ulp)
	tol.Add(tol, u)
	return d.Cmp(tol) <= 0
}

func ratOfTime(t time.Time) *big.Rat {
	r := new(big.Rat).SetInt64(t.Unix())
	return r.Add(r, new(big.Rat).SetFrac64(int64(t.Nanosecond()), 1e9))
}

func numText(r *rand.Rand, maxAbs float64) string {
	switch r.Intn(9) {
	case 0:
		return fmt.Sprint(r.Intn(10))
	case 1:
		return fmt.Sprint(1600000000 + r.Intn(5e8))
	case 2:
		return fmt.Sprintf("%d.%d", 1600000000+r.Intn(5e8), r.Intn(1e6))
	case 3:
		return fmt.Sprintf("%.9f", r.Float64()*100)
	case 4:
		return fmt.Sprintf("%.3f", -r.Float64()*1e6)
	case 5:
		return fmt.Sprintf("%d", r.Int63n(int64(maxAbs)))
	case 6:
		return fmt.Sprintf("%de%d", 1+r.Intn(9), r.Intn(int(math.Log10(maxAbs))))
	case 7:
		return fmt.Sprintf("-%d.5", r.Int63n(int64(math.Min(maxAbs, 1e12))))
	}
	return fmt.Sprintf("%.1f", float64(r.Intn(1000))/10)
}

func p25(h *H) {
	h.Cases("time", h.N(20000, 400000), func(c *C) {
		text := numText(c.R, 2.5e11) // years up to 9999 and somewhat beyond
		if c.Idx < 40 {
			text = []string{"0", "1", "-1", "0.5", "-0.5", "0.000000001", "253402300799", "253402300800", "-62135596799", "1e9", "1E9", "1.7e9",
				"9223372036", "9223372037", "-9223372037", "18446744073", "4294967296", "2147483648", "1700000000.999999", "0.1", "0.3", "-0.1"}[c.Idx%22]
		}
		c.Input = text
		c.Eval("t" + text)
		want := bigOf(text)
		wf, _ := want.Float64()
		var u unixtime.Unixtime
		if err := json.Unmarshal([]byte(text), &u); !c.Must(err == nil, "time-read", "%s: %v", text, err) {
			return
		}
		if !c.Must(within(ratOfTime(u.Time), want, wf), "time-read", "%s is read as %s", text, u.Time.UTC().Format(time.RFC3339Nano)) {
			return
		}
		data, err := json.Marshal(u)
		if !c.Must(err == nil, "time-write", "%s: %v", text, err) {
			return
		}
		got := bigOf(string(data))
		if !c.Must(within(got, want, wf), "time-write", "%s is written as %s", text, data) {
			return
		}
		if math.Abs(wf) >= 1<<26 || wf == math.Trunc(wf) {
			gf, _ := got.Float64()
			c.Must(gf == wf, "time-same", "%s is written back as %s", text, data)
		}
		// comparison with another instant
		text2 := numText(c.R, 2.5e11)
		var u2 unixtime.Unixtime
		if json.Unmarshal([]byte(text2), &u2) != nil {
			return
		}
		w2 := bigOf(text2)
		f2, _ := w2.Float64()
		if !within(want, w2, math.Max(math.Abs(wf), math.Abs(f2))) {
			c.Must(u.Before(u2.Time) == (want.Cmp(w2) < 0), "time-order", "%s and %s are ordered wrongly", text, text2)
		}
		// remaining lifetime and validity
		now := new(big.Rat).SetInt64(time.Now().Unix())
		rem := new(big.Rat).Sub(want, now)
		rf, _ := rem.Float64()
		if math.Abs(rf) > 5 {
			left := unixtime.Until(u)
			if math.Abs(rf) < 9.2e9 {
				c.Must(math.Abs(left.Seconds()-rf) < 3, "time-until", "time until %s is given as %s", text, left)
			} else {
				c.Must((left > 0) == (rf > 0) && math.Abs(left.Seconds()) > 9e9, "time-until", "time until %s is given as %s", text, left)
			}
			c.Must((unixtime.VerifyTime(nil, &u) == nil) == (rf > 0), "time-exp", "expiration %s (in %fs) judged wrongly", text, rf)
			c.Must((unixtime.VerifyTime(&u, nil) == nil) == (rf < 0), "time-iat", "issuance %s (in %fs) judged wrongly", text, rf)
		}
		// within objects
		tok := jwt(typES, map[string]any{"iss": "a", "sub": "a", "iat": json.Number(text), "exp": json.Number(text)}, keys[0])
		es, err := oidfed.ParseEntityStatement(tok)
		if c.Must(err == nil, "time-claim", "%v", err) {
			c.Must(es.ExpiresAt.Equal(u.Time) && es.IssuedAt.Equal(u.Time), "time-claim", "claims %s read as %s, %s", text, es.IssuedAt, es.ExpiresAt)
		}
	})
	h.Cases("zero", 1, func(c *C) {
		c.Eval("zero")
		data, err := json.Marshal(unixtime.Unixtime{})
		c.Must(err == nil && string(data) == "0", "zero", "the zero time is written as %s, %v", data, err)
		data, err = json.Marshal(unixtime.Unixtime{Time: time.Unix(0, 0)})
		c.Must(err == nil && string(data) == "0", "zero", "the epoch is written as %s, %v", data, err)
	})
	h.Cases("instant", h.N(3000, 50000), func(c *C) {
		// instants created in the program
		t := time.Unix(c.R.Int63n(3e11)-5e10, c.R.Int63n(1e9))
		if chance(c.R, 0.3) {
			t = t.In(time.FixedZone("x", c.R.Intn(20000)-10000))
		}
		if chance(c.R, 0.3) {
			t = t.Truncate(time.Second)
		}
		c.Input = t.String()
		c.Eval("i" + t.String())
		data, err := json.Marshal(unixtime.Unixtime{Time: t})
		if !c.Must(err == nil, "instant-write", "%v", err) {
			return
		}
		want := ratOfTime(t)
		wf, _ := want.Float64()
		c.Must(within(bigOf(string(data)), want, wf), "instant-write", "%s is written as %s", t, data)
		var u unixtime.Unixtime
		c.Must(json.Unmarshal(data, &u) == nil && within(ratOfTime(u.Time), want, wf), "instant-read", "%s is written as %s and read as %s", t, data, u)
	})
	h.Cases("duration", h.N(10000, 200000), func(c *C) {
		text := numText(c.R, 9.2e9)
		if bigOf(text).Cmp(bigOf("9.2e9")) > 0 || bigOf(text).Cmp(bigOf("-9.2e9")) < 0 {
			text = "9.2e9"
		}
		if c.Idx < 20 {
			text = []string{"0", "0.5", "1", "1.5", "0.25", "60", "3600", "86400", "1e-9", "0.001", "31536000", "9.2e9", "-1", "-0.5", "0.1", "0.3", "0.7", "2.3", "1e3", "4.35"}[c.Idx]
		}
		c.Input = text
		c.Eval("d" + text)
		want := bigOf(text)
		wf, _ := want.Float64()
		check := func(how string, d unixtime.DurationInSeconds) {
			r := new(big.Rat).SetFrac64(int64(d.Duration), 1e9)
			c.Must(within(r, want, wf), "duration-"+how, "%s seconds give %s", text, d.Duration)
		}
		var d, dy unixtime.DurationInSeconds
		if c.Must(json.Unmarshal([]byte(text), &d) == nil, "duration-json", "%s is not read", text) {
			check("json", d)
		}
		if c.Must(yaml.Unmarshal([]byte(text), &dy) == nil, "duration-yaml", "%s is not read", text) {
			check("yaml", dy)
		}
		check("new", unixtime.NewDurationInSeconds(wf))
		data, err := json.Marshal(d)
		c.Must(err == nil && within(bigOf(string(data)), want, wf), "duration-write", "%s seconds are written as %s, %v", text, data, err)
		yd, err := yaml.Marshal(d)
		c.Must(err == nil && within(bigOf(strings.TrimSpace(string(yd))), want, wf), "duration-write-yaml", "%s seconds are written as %s, %v", text, yd, err)
		dd := time.Duration(c.R.Int63n(9e18))
		x, err := json.Marshal(unixtime.DurationInSeconds{Duration: dd})
		ws := new(big.Rat).SetFrac64(int64(dd), 1e9)
		wsf, _ := ws.Float64()
		c.Must(err == nil && within(bigOf(string(x)), ws, wsf), "duration-write", "%s is written as %s", dd, x)
	})
}
