package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

func init() {
	properties["P07"] = p07
	properties["P08"] = p08
	properties["P09"] = p09
	properties["P10"] = p10
	properties["P11"] = p11
}

// ---------------------------------------------------------------- reference semantics (generic JSON values)

type entry = map[string]any // operator -> value

var opOrder = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}

func isKnownOp(o string) bool {
	for _, x := range opOrder {
		if x == o {
			return true
		}
	}
	return false
}

func listOf(v any) []any {
	if v == nil {
		return nil
	}
	if l, ok := v.([]any); ok {
		return l
	}
	return []any{v}
}

func inList(v any, l []any) bool {
	for _, x := range l {
		if reflect.DeepEqual(v, x) {
			return true
		}
	}
	return false
}

func subset(a, b []any) bool {
	for _, x := range a {
		if !inList(x, b) {
			return false
		}
	}
	return true
}

func union(a, b []any) []any {
	out := append([]any{}, a...)
	for _, x := range b {
		if !inList(x, out) {
			out = append(out, x)
		}
	}
	return out
}

func inter(a, b []any) []any {
	out := []any{}
	for _, x := range a {
		if inList(x, b) {
			out = append(out, x)
		}
	}
	return out
}

// refVerify says why the entry is not a legal combination ("" if it is)
func refVerify(e entry) string {
	has := func(o string) bool { _, ok := e[o]; return ok }
	l := func(o string) []any { return listOf(e[o]) }
	if has("one_of") {
		for _, o := range []string{"add", "subset_of", "superset_of"} {
			if has(o) {
				return "one_of with " + o
			}
		}
		if len(l("one_of")) == 0 {
			return "empty one_of"
		}
	}
	if has("superset_of") && has("subset_of") && !subset(l("superset_of"), l("subset_of")) {
		return "superset_of not within subset_of"
	}
	if has("add") && has("subset_of") && !subset(l("add"), l("subset_of")) {
		return "add not within subset_of"
	}
	if has("value") {
		v := e["value"]
		if has("add") && !subset(l("add"), listOf(v)) {
			return "add not within value"
		}
		if v == nil && has("default") {
			return "null value with default"
		}
		if has("subset_of") && !subset(listOf(v), l("subset_of")) {
			return "value not within subset_of"
		}
		if has("superset_of") && v != nil && !subset(l("superset_of"), listOf(v)) {
			return "value not superset of superset_of"
		}
		if has("one_of") && !inList(v, l("one_of")) {
			return "value not within one_of"
		}
	}
	return ""
}

// refMergeEntries merges the operators of all entries
func refMergeEntries(es []entry) (entry, string) {
	out := entry{}
	for _, e := range es {
		for o, v := range e {
			prev, ok := out[o]
			if !ok {
				out[o] = v
				continue
			}
			switch o {
			case "value", "default":
				// the library takes a single value and the list of it as the same, and ignores the order
				if (prev == nil) != (v == nil) || len(listOf(prev)) != len(listOf(v)) || !subset(listOf(prev), listOf(v)) || !subset(listOf(v), listOf(prev)) {
					return nil, "conflicting " + o
				}
			case "add", "superset_of":
				out[o] = union(listOf(prev), listOf(v))
			case "one_of", "subset_of":
				out[o] = inter(listOf(prev), listOf(v))
			case "essential":
				out[o] = prev == true || v == true
			}
		}
	}
	return out, refVerify(out)
}

// refApply applies an entry; scope: the value is a space separated list
func refApply(e entry, v any, present, scope bool) (any, bool, string) {
	essential := e["essential"] == true
	asList := func() {
		if s, ok := v.(string); ok && scope && present {
			fs := []any{}
			for _, f := range strings.Fields(s) {
				fs = append(fs, f)
			}
			v = fs
		}
	}
	if x, ok := e["value"]; ok {
		v, present = x, x != nil
	}
	if x, ok := e["add"]; ok {
		asList()
		if !present {
			v, present = x, true
		} else {
			v = union(listOf(v), listOf(x))
		}
	}
	if x, ok := e["default"]; ok && !present {
		v, present = x, true
	}
	if x, ok := e["one_of"]; ok {
		if !present && essential {
			return nil, false, "essential but absent"
		}
		if present && !inList(v, listOf(x)) {
			return nil, false, "not one of"
		}
	}
	if x, ok := e["subset_of"]; ok {
		asList()
		if !present && essential {
			return nil, false, "essential but absent"
		}
		if present {
			v = inter(listOf(v), listOf(x))
		}
	}
	if x, ok := e["superset_of"]; ok {
		asList()
		if !present && essential {
			return nil, false, "essential but absent"
		}
		if present && !subset(listOf(x), listOf(v)) {
			return nil, false, "not superset"
		}
	}
	if essential && (!present || v == "") {
		return nil, false, "essential but absent"
	}
	return v, present, ""
}

// ---------------------------------------------------------------- parameters

type param struct {
	Name  string
	Kind  string // list, str, num, bool, scope
	Extra bool   // no dedicated field
}

var rpParams = []param{
	{"grant_types", "list", false}, {"redirect_uris", "list", false}, {"contacts", "list", false},
	{"client_name", "str", false}, {"token_endpoint_auth_method", "str", false}, {"id_token_signed_response_alg", "str", false},
	{"default_max_age", "num", false}, {"require_auth_time", "bool", false}, {"scope", "scope", false},
	{"x_list", "list", true}, {"x_str", "str", true}, {"x_num", "num", true}, {"x_bool", "bool", true}, {"x_nums", "numlist", true},
}
var opParams = []param{
	{"scopes_supported", "list", false}, {"grant_types_supported", "list", false}, {"contacts", "list", false},
	{"organization_name", "str", false}, {"authorization_endpoint", "str", false},
	{"claims_parameter_supported", "bool", false}, {"x_list", "list", true}, {"x_str", "str", true}, {"x_bool", "bool", true},
}
var feParams = []param{
	{"contacts", "list", false}, {"organization_name", "str", false}, {"homepage_uri", "str", true},
	{"x_list", "list", true}, {"x_num", "num", true},
}
var otherParams = []param{
	{"a", "list", true}, {"b", "str", true}, {"c", "num", true}, {"d", "bool", true}, {"e", "numlist", true},
}

func paramsOf(t string) []param {
	switch t {
	case "openid_relying_party", "oauth_client":
		return rpParams
	case "openid_provider", "oauth_authorization_server":
		return opParams
	case "federation_entity", "oauth_resource":
		return feParams
	default:
		ps := append([]param{}, otherParams...)
		return ps
	}
}

var words = []string{"a", "b", "c", "d"}

func randList(r *rand.Rand, numeric bool, allowEmpty bool) []any {
	n := 1 + r.Intn(3)
	if allowEmpty && r.Intn(8) == 0 {
		n = 0
	}
	out := []any{}
	for _, i := range r.Perm(4)[:n] {
		if numeric {
			out = append(out, float64(i+1))
		} else {
			out = append(out, words[i])
		}
	}
	return out
}

// sortedList gives a canonical order, so that equal lists are identical
func sortedList(l []any) []any {
	out := append([]any{}, l...)
	sort.Slice(out, func(i, j int) bool { return jstr(out[i]) < jstr(out[j]) })
	return out
}

func randValue(r *rand.Rand, p param) any {
	switch p.Kind {
	case "list":
		return randList(r, false, true)
	case "numlist":
		return randList(r, true, true)
	case "str":
		return words[r.Intn(3)]
	case "num":
		return float64(1 + r.Intn(3))
	case "bool":
		return r.Intn(2) == 0
	case "scope":
		l := randList(r, false, false)
		s := []string{}
		for _, x := range l {
			s = append(s, x.(string))
		}
		return strings.Join(s, " ")
	}
	return nil
}

func randEntry(r *rand.Rand, p param, maxOps int) entry {
	e := entry{}
	ops := []string{}
	switch p.Kind {
	case "list", "numlist":
		ops = []string{"value", "add", "default", "subset_of", "superset_of", "essential"}
	case "scope":
		if r.Intn(3) > 0 {
			ops = []string{"add", "subset_of", "superset_of", "essential"}
		} else {
			ops = []string{"value", "default", "one_of", "essential"}
		}
	default:
		ops = []string{"value", "default", "one_of", "essential"}
	}
	n := 1 + r.Intn(maxOps)
	for _, i := range r.Perm(len(ops)) {
		if n == 0 {
			break
		}
		n--
		o := ops[i]
		lp := param{p.Name, p.Kind, p.Extra}
		switch o {
		case "value":
			if r.Intn(6) == 0 {
				e[o] = nil
			} else {
				e[o] = randValue(r, p)
				if l, ok := e[o].([]any); ok {
					e[o] = sortedList(l)
				}
			}
		case "default":
			e[o] = randValue(r, p)
			if l, ok := e[o].([]any); ok {
				e[o] = sortedList(l)
			}
		case "essential":
			e[o] = r.Intn(3) > 0
		case "one_of":
			l := []any{}
			for k := 0; k < 1+r.Intn(3); k++ {
				v := randValue(r, p)
				if !inList(v, l) {
					l = append(l, v)
				}
			}
			if r.Intn(12) == 0 {
				l = []any{}
			}
			e[o] = l
		default:
			if lp.Kind == "numlist" {
				e[o] = randList(r, true, o != "superset_of" || r.Intn(3) == 0)
			} else {
				e[o] = randList(r, false, o != "superset_of" || r.Intn(3) == 0)
			}
			if o == "subset_of" && r.Intn(2) == 0 { // widen, to make legal combinations frequent
				if lp.Kind == "numlist" {
					e[o] = []any{1.0, 2.0, 3.0, 4.0}
				} else {
					e[o] = []any{"a", "b", "c", "d"}
				}
			}
		}
	}
	if p.Kind == "scope" {
		// value and default are space separated strings, the set operators lists: not mixed
		if _, ok := e["subset_of"]; ok {
			delete(e, "value")
			delete(e, "default")
		}
	}
	return e
}

func toEntry(e entry) oidfed.MetadataPolicyEntry {
	var out oidfed.MetadataPolicyEntry
	if err := json.Unmarshal([]byte(jstr(e)), &out); err != nil {
		panic(err)
	}
	return out
}

// polSpec: entity type -> parameter -> entry
type polSpec map[string]map[string]entry

func toPolicies(p polSpec) *oidfed.MetadataPolicies {
	if p == nil {
		return nil
	}
	var out oidfed.MetadataPolicies
	if err := json.Unmarshal([]byte(jstr(p)), &out); err != nil {
		panic(err)
	}
	return &out
}

func eqValue(a, b any) bool { // lists as sets
	la, oka := a.([]any)
	lb, okb := b.([]any)
	if oka && okb {
		return len(la) == len(lb) && subset(la, lb) && subset(lb, la)
	}
	return reflect.DeepEqual(a, b)
}

func eqEntry(got, want entry, strict bool) string {
	for o, v := range want {
		g, ok := got[o]
		if !ok {
			return "operator " + o + " is lost"
		}
		switch o {
		case "add", "superset_of", "one_of", "subset_of":
			if !eqValue(anyList(g), anyList(v)) {
				return fmt.Sprintf("operator %s is %s, want %s", o, jstr(g), jstr(v))
			}
		default:
			if !eqValue(g, v) {
				return fmt.Sprintf("operator %s is %s, want %s", o, jstr(g), jstr(v))
			}
		}
	}
	for o := range got {
		if _, ok := want[o]; !ok && strict {
			return "operator " + o + " appeared from nowhere"
		}
	}
	return ""
}

func anyList(v any) any {
	l := listOf(v)
	if l == nil {
		return []any{}
	}
	return l
}

// refMergePolicies merges the policies of a chain; crit are the critical operators of all statements
func refMergePolicies(ps []polSpec) (polSpec, string) {
	coll := map[string]map[string][]entry{}
	for _, p := range ps {
		for t, m := range p {
			if coll[t] == nil {
				coll[t] = map[string][]entry{}
			}
			for k, e := range m {
				coll[t][k] = append(coll[t][k], e)
			}
		}
	}
	out := polSpec{}
	for t, m := range coll {
		out[t] = map[string]entry{}
		for k, es := range m {
			e, bad := refMergeEntries(es)
			if bad != "" {
				return nil, t + "." + k + ": " + bad
			}
			out[t][k] = e
		}
	}
	return out, ""
}

func isZeroJSON(v any) bool {
	if v == nil || v == "" || v == false || v == 0.0 {
		return true
	}
	l, ok := v.([]any)
	return ok && len(l) == 0
}

// refMetadata applies merged policies to metadata
func refMetadata(meta map[string]any, pol polSpec) (map[string]map[string]any, string) {
	out := map[string]map[string]any{}
	for t, m := range meta {
		vals, _ := m.(map[string]any)
		o := map[string]any{}
		for k, v := range vals {
			o[k] = v
		}
		for k, e := range pol[t] {
			v, present := vals[k]
			scope := k == "scope" && (t == "openid_relying_party" || t == "oauth_client")
			nv, np, bad := refApply(e, v, present, scope)
			if bad != "" {
				return nil, t + "." + k + ": " + bad
			}
			if l, ok := nv.([]any); ok && scope {
				ss := []string{}
				for _, x := range l {
					ss = append(ss, fmt.Sprint(x))
				}
				nv = strings.Join(ss, " ")
			}
			if !np || nv == nil {
				delete(o, k)
			} else {
				o[k] = nv
			}
		}
		out[t] = o
	}
	return out, ""
}

// cmpMetadata compares resolved metadata with the reference; parameters with a dedicated field do not distinguish absent
// from zero in their JSON
func cmpMetadata(got any, want map[string]map[string]any) string {
	g, _ := norm(got).(map[string]any)
	for t, wm := range want {
		gm, ok := g[t].(map[string]any)
		if !ok {
			return "entity type " + t + " is missing"
		}
		names := map[string]bool{}
		for k := range wm {
			names[k] = true
		}
		for k := range gm {
			names[k] = true
		}
		dedicated := map[string]bool{}
		known := false
		for _, p := range paramsOf(t) {
			if !p.Extra {
				dedicated[p.Name] = true
				known = true
			}
		}
		for k := range names {
			gv, gok := gm[k]
			wv, wok := wm[k]
			if known && isZeroJSON(gv) && isZeroJSON(wv) && (dedicated[k] || !wok) {
				continue
			}
			if l, ok := wv.([]any); ok && len(l) == 0 && gv == nil {
				continue // nothing left
			}
			if gok != wok {
				return fmt.Sprintf("%s.%s is %s (present %t), want %s (present %t)", t, k, jstr(gv), gok, jstr(wv), wok)
			}
			if k == "scope" {
				gs, _ := gv.(string)
				ws, _ := wv.(string)
				a, b := strings.Fields(gs), strings.Fields(ws)
				sort.Strings(a)
				sort.Strings(b)
				if !reflect.DeepEqual(a, b) {
					return fmt.Sprintf("%s.%s is %q, want %q", t, k, gs, ws)
				}
				continue
			}
			if !eqValue(gv, wv) {
				return fmt.Sprintf("%s.%s is %s, want %s", t, k, jstr(gv), jstr(wv))
			}
		}
	}
	for t := range g {
		if _, ok := want[t]; !ok {
			return "entity type " + t + " appeared from nowhere"
		}
	}
	return ""
}

func randMeta(r *rand.Rand, types []string) map[string]any {
	m := map[string]any{}
	for _, t := range types {
		o := map[string]any{}
		for _, p := range paramsOf(t) {
			if r.Intn(2) == 0 {
				o[p.Name] = randValue(r, p)
			}
		}
		m[t] = o
	}
	return m
}

func randTypes(r *rand.Rand, n int) (out []string) {
	for _, i := range r.Perm(len(allTypes))[:n] {
		out = append(out, allTypes[i])
	}
	return
}

func randPol(r *rand.Rand, types []string, maxParams, maxOps int) polSpec {
	p := polSpec{}
	for _, t := range types {
		if r.Intn(3) == 0 {
			continue
		}
		ps := paramsOf(t)
		p[t] = map[string]entry{}
		for _, i := range r.Perm(len(ps))[:r.Intn(maxParams+1)] {
			p[t][ps[i].Name] = randEntry(r, ps[i], maxOps)
		}
	}
	return p
}

// ---------------------------------------------------------------- P08

func opsKey(e entry) string {
	var ks []string
	for _, o := range opOrder {
		if v, ok := e[o]; ok {
			s := o
			if o == "essential" || v == nil {
				s += fmt.Sprint(v)
			}
			ks = append(ks, s)
		}
	}
	return strings.Join(ks, "+")
}

func p08(h *H) {
	// a single policy entry applied to a single parameter of a single entity type
	one := func(c *C, t string, p param, e entry, v any, present bool) {
		meta := map[string]any{t: map[string]any{}}
		if present {
			meta[t].(map[string]any)[p.Name] = v
		}
		c.Input = map[string]any{"metadata": meta, "type": t, "param": p.Name, "policy": e}
		var m oidfed.Metadata
		if err := json.Unmarshal([]byte(jstr(meta)), &m); err != nil {
			c.Fail("decode", "%v", err)
			return
		}
		pol := polSpec{t: {p.Name: e}}
		want, bad := refMetadata(meta, pol)
		got, err := m.ApplyPolicy(toPolicies(pol))
		c.Eval(fmt.Sprintf("%s %s present=%t %s -> %s %s", t, p.Kind, present, opsKey(e), bad, jstr(want)))
		if bad != "" {
			if err == nil {
				c.Fail("not-rejected", "metadata %s policy %s: must be rejected (%s), got %s", jstr(meta), jstr(pol), bad, njson(got))
			}
			return
		}
		if err != nil {
			c.Fail("rejected", "metadata %s policy %s: must be accepted with %s, got error %v", jstr(meta), jstr(pol), jstr(want), err)
			return
		}
		if d := cmpMetadata(got, want); d != "" {
			c.Fail("value", "metadata %s policy %s: %s", jstr(meta), jstr(pol), d)
		}
	}
	// every operator (alone and with essential true/false) on every parameter, present and absent
	h.Cases("single-operator", len(allTypes)*h.N(12, 60), func(c *C) {
		t := allTypes[c.Idx%len(allTypes)]
		for _, p := range paramsOf(t) {
			for _, o := range opOrder {
				for tries := 0; tries < 40; tries++ {
					e := randEntry(c.R, p, 7)
					v, ok := e[o]
					if !ok {
						continue
					}
					se := entry{o: v}
					for _, ess := range []any{nil, true, false} {
						if o != "essential" && ess != nil {
							se["essential"] = ess
						}
						if refVerify(se) != "" {
							continue
						}
						one(c, t, p, se, nil, false)
						for k := 0; k < 2; k++ {
							one(c, t, p, se, randValue(c.R, p), true)
						}
						if p.Kind == "num" {
							one(c, t, p, se, 0.0, true)
						}
						if p.Kind == "str" {
							one(c, t, p, se, "", true)
						}
					}
					break
				}
			}
		}
	})
	h.Cases("combined", h.N(4000, 60000), func(c *C) {
		t := allTypes[c.Idx%len(allTypes)]
		ps := paramsOf(t)
		p := ps[c.R.Intn(len(ps))]
		var e entry
		for e = randEntry(c.R, p, 5); refVerify(e) != ""; e = randEntry(c.R, p, 5) {
		}
		one(c, t, p, e, nil, false)
		one(c, t, p, e, randValue(c.R, p), true)
		one(c, t, p, e, randValue(c.R, p), true)
	})
	// the entry itself on generic values
	h.Cases("entry", h.N(6000, 80000), func(c *C) {
		p := otherParams[c.R.Intn(len(otherParams))]
		var e entry
		for e = randEntry(c.R, p, 5); refVerify(e) != ""; e = randEntry(c.R, p, 5) {
		}
		var v any
		present := c.R.Intn(3) > 0
		if present {
			v = randValue(c.R, p)
		}
		c.Input = map[string]any{"value": v, "present": present, "policy": e}
		want, np, bad := refApply(e, v, present, false)
		got, err := toEntry(e).ApplyTo(norm(v), present, "t.p")
		c.Eval(fmt.Sprintf("entry %s present=%t %s -> %s %s", p.Kind, present, opsKey(e), bad, jstr(want)))
		if bad != "" {
			if err == nil {
				c.Fail("not-rejected", "value %s policy %s: must be rejected (%s), got %s", jstr(v), jstr(e), bad, jstr(got))
			}
			return
		}
		if err != nil {
			c.Fail("rejected", "value %s (present %t) policy %s: must give %s, got error %v", jstr(v), present, jstr(e), jstr(want), err)
			return
		}
		if !np {
			want = nil
		}
		if l, ok := want.([]any); ok && len(l) == 0 && norm(got) == nil {
			return // nothing left
		}
		if !eqValue(norm(got), norm(want)) {
			c.Fail("value", "value %s (present %t) policy %s: got %s, want %s", jstr(v), present, jstr(e), jstr(got), jstr(want))
		}
	})
	// several parameters and types at once, the others stay as published
	h.Cases("document", h.N(1500, 20000), func(c *C) {
		types := randTypes(c.R, 1+c.R.Intn(3))
		meta := randMeta(c.R, types)
		pol := randPol(c.R, types, 2, 2)
		for t, m := range pol {
			for k, e := range m {
				if refVerify(e) != "" {
					delete(m, k)
				}
			}
			pol[t] = m
		}
		c.Input = map[string]any{"metadata": meta, "policy": pol}
		var m oidfed.Metadata
		if err := json.Unmarshal([]byte(jstr(meta)), &m); err != nil {
			c.Fail("decode", "%v", err)
			return
		}
		want, bad := refMetadata(meta, pol)
		got, err := m.ApplyPolicy(toPolicies(pol))
		c.Eval("document " + bad + jstr(want))
		if (bad != "") != (err != nil) {
			c.Fail("verdict", "expected error %q, got %v", bad, err)
		} else if err == nil {
			if d := cmpMetadata(got, want); d != "" {
				c.Fail("value", "%s", d)
			}
		}
	})
}

// ---------------------------------------------------------------- P09

func gotPolicies(p *oidfed.MetadataPolicies) polSpec {
	var out polSpec
	if err := json.Unmarshal([]byte(jstr(p)), &out); err != nil {
		panic(err)
	}
	return out
}

func cmpPolicies(got, want polSpec, strict bool) string {
	for t, m := range want {
		for k, e := range m {
			g, ok := got[t][k]
			if !ok {
				return fmt.Sprintf("policy for %s.%s is lost", t, k)
			}
			if d := eqEntry(g, e, strict); d != "" {
				return fmt.Sprintf("%s.%s: %s", t, k, d)
			}
		}
	}
	for t, m := range got {
		for k := range m {
			if _, ok := want[t][k]; !ok {
				return fmt.Sprintf("policy for %s.%s appeared from nowhere", t, k)
			}
		}
	}
	return ""
}

func p09(h *H) {
	check := func(c *C, ps []polSpec) {
		c.Input = map[string]any{"policies": ps}
		want, bad := refMergePolicies(ps)
		var in []*oidfed.MetadataPolicies
		for _, p := range ps {
			in = append(in, toPolicies(p))
		}
		got, err := oidfed.MergeMetadataPolicies(in...)
		key := ""
		for t, m := range want {
			for k, e := range m {
				key += t + "." + k + ":" + opsKey(e) + " "
			}
		}
		c.Eval(fmt.Sprintf("%d %s %s", len(ps), bad, key))
		if bad != "" {
			if err == nil {
				c.Fail("not-rejected", "policies %s: merging must fail (%s), got %s", jstr(ps), bad, jstr(got))
			}
			return
		}
		if err != nil {
			c.Fail("rejected", "policies %s: must merge to %s, got %v", jstr(ps), jstr(want), err)
			return
		}
		if d := cmpPolicies(gotPolicies(got), want, true); d != "" {
			c.Fail("merged", "policies %s: %s; got %s", jstr(ps), d, jstr(got))
		}
	}
	gen := func(c *C, n, maxParams, maxOps int, narrow bool) []polSpec {
		types := randTypes(c.R, 1+c.R.Intn(2))
		var ps []polSpec
		for i := 0; i < n; i++ {
			if c.R.Intn(6) == 0 {
				ps = append(ps, nil)
				continue
			}
			p := polSpec{}
			for _, t := range types {
				par := paramsOf(t)
				if narrow {
					par = par[:3]
				}
				p[t] = map[string]entry{}
				for _, i := range c.R.Perm(len(par))[:min(len(par), 1+c.R.Intn(maxParams))] {
					p[t][par[i].Name] = randEntry(c.R, par[i], maxOps)
				}
			}
			ps = append(ps, p)
		}
		return ps
	}
	h.Cases("two", h.N(6000, 80000), func(c *C) { check(c, gen(c, 2, 1, 2, true)) })
	h.Cases("three", h.N(4000, 60000), func(c *C) { check(c, gen(c, 3, 1, 2, true)) })
	h.Cases("many", h.N(3000, 40000), func(c *C) { check(c, gen(c, 1+c.R.Intn(4), 3, 3, false)) })
	// all pairs of single operators with small values on one parameter
	type sv struct {
		o string
		v any
	}
	var lists []any
	for m := 0; m < 8; m++ {
		l := []any{}
		for i := 0; i < 3; i++ {
			if m>>i&1 == 1 {
				l = append(l, words[i])
			}
		}
		lists = append(lists, l)
	}
	var svs []sv
	for _, o := range []string{"value", "add", "default", "subset_of", "superset_of"} {
		for _, l := range lists {
			svs = append(svs, sv{o, l})
		}
	}
	svs = append(svs, sv{"value", nil}, sv{"essential", true}, sv{"essential", false})
	h.Cases("pairs", len(svs), func(c *C) {
		a := svs[c.Idx]
		for _, b := range svs {
			for _, t := range []string{"openid_relying_party", "acme_type"} {
				n := "grant_types"
				check(c, []polSpec{{t: {n: {a.o: a.v}}}, {t: {n: {b.o: b.v}}}})
				check(c, []polSpec{{t: {n: {a.o: a.v}}}, nil, {}, {t: {n: {b.o: b.v}}}})
				check(c, []polSpec{{t: {"other": {"essential": true}}}, {t: {n: {a.o: a.v}}}, {t: {n: {b.o: b.v}, "more": {"value": "x"}}}})
			}
		}
	})
	var ssv []sv
	for _, w := range []string{"a", "b"} {
		ssv = append(ssv, sv{"value", w}, sv{"default", w})
	}
	for _, l := range lists {
		ssv = append(ssv, sv{"one_of", l})
	}
	ssv = append(ssv, sv{"essential", true}, sv{"essential", false}, sv{"value", nil})
	h.Cases("string-pairs", len(ssv), func(c *C) {
		a := ssv[c.Idx]
		for _, b := range ssv {
			for _, x := range ssv {
				check(c, []polSpec{
					{"openid_provider": {"organization_name": {a.o: a.v}}}, {"openid_provider": {"organization_name": {b.o: b.v}}},
					{"openid_provider": {"organization_name": {x.o: x.v}}},
				})
			}
		}
	})
	// values of all kinds, also those that look absent
	edge := []any{nil, false, true, 0.0, 1.0, "", "a", "A", "a ", []any{}, []any{"a"}, []any{""}, []any{"a", "b"}, []any{"b", "a"}, []any{"a", "a"}, []any{"a", "a", "b"}, []any{0.0}, []any{false}, "0", "false", "null"}
	h.Cases("edge-values", len(edge), func(c *C) {
		x := edge[c.Idx]
		for _, y := range edge {
			for _, t := range []string{"openid_relying_party", "acme_type"} {
				for _, o := range []string{"value", "default"} {
					if o == "default" && (x == nil || y == nil) {
						continue
					}
					check(c, []polSpec{{t: {"x_p": {o: x}}}, {t: {"x_p": {o: y}}}})
					check(c, []polSpec{{t: {"x_p": {o: x}}}, {t: {"x_q": {o: y}}}, {t: {"x_p": {o: y}}}})
				}
				if x != nil && y != nil && len(union(nil, listOf(x))) == len(listOf(x)) && len(union(nil, listOf(y))) == len(listOf(y)) {
					for _, o := range []string{"add", "subset_of", "superset_of", "one_of"} {
						check(c, []polSpec{{t: {"x_p": {o: listOf(x)}}}, {t: {"x_p": {o: listOf(y)}}}})
					}
				}
			}
		}
	})
	// a superior's policy is never weakened: adding a subordinate's policy keeps every requirement
	h.Cases("unknown-operators", h.N(1000, 10000), func(c *C) {
		t := allTypes[c.R.Intn(len(allTypes))]
		p := paramsOf(t)[0]
		a, b := randEntry(c.R, p, 2), randEntry(c.R, p, 2)
		ps := []polSpec{{t: {p.Name: a}}, {t: {p.Name: b}}}
		want, bad := refMergePolicies(ps)
		x := polSpec{t: {p.Name: entry{}}}
		y := polSpec{t: {p.Name: entry{}}}
		for o, v := range a {
			x[t][p.Name][o] = v
		}
		for o, v := range b {
			y[t][p.Name][o] = v
		}
		x[t][p.Name]["x_unknown"] = "u"
		if c.R.Intn(2) == 0 {
			y[t][p.Name]["x_unknown"] = "w"
		}
		c.Input = []polSpec{x, y}
		got, err := oidfed.MergeMetadataPolicies(toPolicies(x), toPolicies(y))
		c.Eval("unknown " + opsKey(a) + "|" + opsKey(b) + bad)
		if (err != nil) != (bad != "") {
			c.Fail("verdict", "%s: error %v, expected %q", jstr(c.Input), err, bad)
		} else if err == nil {
			if d := cmpPolicies(gotPolicies(got), want, false); d != "" {
				c.Fail("merged", "%s: %s; got %s", jstr(c.Input), d, jstr(got))
			}
		}
	})
}

// ---------------------------------------------------------------- P10

func p10(h *H) {
	check := func(c *C, e entry) {
		c.Input = e
		bad := refVerify(e)
		err := toEntry(e).Verify("t.p")
		c.Eval(fmt.Sprintf("%s %s", opsKey(e), bad))
		if (err != nil) != (bad != "") {
			c.Fail("verify", "entry %s: reference says %q, the library says %v", jstr(e), bad, err)
		}
		// before merging (only statement with a policy) and as part of a whole policy
		_, err = oidfed.MergeMetadataPolicies(nil, toPolicies(polSpec{"openid_relying_party": {"p": e}}))
		if (err != nil) != (bad != "") {
			c.Fail("merge", "policy with entry %s: reference says %q, merging says %v", jstr(e), bad, err)
		}
		_, err = oidfed.MergeMetadataPolicies(
			toPolicies(polSpec{"openid_relying_party": {"q": entry{"essential": true}}}),
			toPolicies(polSpec{"openid_relying_party": {"p": e}}),
		)
		if (err != nil) != (bad != "") {
			c.Fail("merge", "policy of a subordinate with entry %s: reference says %q, merging says %v", jstr(e), bad, err)
		}
		// with unknown operators beside: same verdict
		x := entry{"x_unknown": []any{"z"}}
		for o, v := range e {
			x[o] = v
		}
		if err = toEntry(x).Verify("t.p"); (err != nil) != (bad != "") {
			c.Fail("unknown-operator", "entry %s: reference says %q, the library says %v", jstr(x), bad, err)
		}
	}
	// all 128 combinations of operators, small list values
	val := func(r *rand.Rand, o string, numeric bool) any {
		switch o {
		case "essential":
			return r.Intn(2) == 0
		case "value":
			if r.Intn(4) == 0 {
				return nil
			}
			return randList(r, numeric, true)
		default:
			return randList(r, numeric, true)
		}
	}
	h.Cases("combinations", 128*h.N(12, 150), func(c *C) {
		m := c.Idx % 128
		for k := 0; k < 4; k++ {
			e := entry{}
			for i, o := range opOrder {
				if m>>i&1 == 1 {
					e[o] = val(c.R, o, c.Idx/128%3 == 2)
				}
			}
			if _, ok := e["one_of"]; ok && k%2 == 0 { // scalar parameters
				if v, ok := e["value"]; ok && v != nil {
					e["value"] = words[c.R.Intn(4)]
				}
			}
			if k == 3 { // satisfiable by construction
				if _, ok := e["subset_of"]; ok {
					e["subset_of"] = []any{"a", "b", "c", "d", 1.0, 2.0, 3.0, 4.0}
				}
				if v, ok := e["value"]; ok && v != nil {
					if _, o := e["one_of"]; !o {
						e["value"] = union(union(listOf(v), listOf(e["add"])), listOf(e["superset_of"]))
					}
				}
			}
			check(c, e)
		}
	})
	// pairwise over all small sets
	h.Cases("small-sets", 49, func(c *C) {
		a, b := opOrder[c.Idx/7], opOrder[c.Idx%7]
		if a >= b || a == "essential" || b == "essential" {
			return
		}
		for m := 0; m < 8; m++ {
			for n := 0; n < 8; n++ {
				mk := func(m int) []any {
					l := []any{}
					for i := 0; i < 3; i++ {
						if m>>i&1 == 1 {
							l = append(l, words[i])
						}
					}
					return l
				}
				check(c, entry{a: mk(m), b: mk(n)})
				if a != "value" && b == "value" {
					check(c, entry{a: mk(m), b: nil})
					check(c, entry{a: mk(m), b: "a"})
				}
			}
		}
	})
	// critical operators of the statements of a chain
	h.Cases("critical", h.N(400, 4000), func(c *C) {
		k := c.R.Intn(4)
		w := chainWorld(c, k)
		all := w.all()
		unknownCrit := false
		var where []string
		for _, s := range all {
			if c.R.Intn(3) == 0 {
				s.Policy = map[string]any{"openid_relying_party": map[string]any{"contacts": map[string]any{"x_op": "y", "essential": false}}}
			}
			if c.R.Intn(4) == 0 {
				if c.R.Intn(2) == 0 {
					s.Crit = []string{opOrder[c.R.Intn(7)], opOrder[c.R.Intn(7)]}
				} else {
					s.Crit = []string{opOrder[c.R.Intn(7)]}
					u := pick(c.R, "x_op", "regexp", "Value", "subset", "")
					i := c.R.Intn(2)
					s.Crit = append(s.Crit[:i:i], append([]string{u}, s.Crit[i:]...)...)
				}
			}
		}
		c.Input = w.Dump()
		netw.Reset()
		w.Serve()
		chains := w.resolver().ResolveToValidChainsWithoutVerifyingMetadata()
		if len(chains) != 1 {
			c.Fail("chains", "%d chains, want 1", len(chains))
			return
		}
		for _, s := range chains[0] {
			for _, o := range s.MetadataPolicyCrit {
				if !isKnownOp(string(o)) {
					unknownCrit = true
					where = append(where, s.Issuer+">"+s.Subject)
				}
			}
		}
		if len(chains[0]) == 1 {
			unknownCrit = false
			return
		}
		m, err := chains[0].Metadata()
		valid := w.resolver().ResolveToValidChains()
		c.Eval(fmt.Sprintf("%d unknown critical at %d", k, len(where)))
		if unknownCrit && (err == nil || m != nil || len(valid) != 0) {
			c.Fail("critical", "unknown critical operators in %v, but metadata %s, error %v, %d valid chains", where, njson(m), err, len(valid))
		}
		if !unknownCrit && (err != nil || len(valid) != 1) {
			c.Fail("not-critical", "no unknown critical operator, but error %v, %d valid chains", err, len(valid))
		}
	})
}

// ---------------------------------------------------------------- P07

func p07(h *H) {
	h.Cases("chain", h.N(2500, 30000), func(c *C) {
		w := chainWorld(c, c.R.Intn(4))
		leaf := w.EC[w.Start]
		types := randTypes(c.R, 1+c.R.Intn(3))
		leaf.Meta = randMeta(c.R, types)
		if c.R.Intn(12) == 0 {
			leaf.Meta = nil
		}
		ptypes := append(append([]string{}, types...), randTypes(c.R, 1)...)
		for _, s := range w.all() {
			if s.Iss != s.Sub && c.R.Intn(4) > 0 || c.R.Intn(12) == 0 {
				p := randPol(c.R, ptypes, 2, 2)
				for t, m := range p {
					for k, e := range m {
						if refVerify(e) != "" && c.R.Intn(6) > 0 {
							delete(p[t], k)
						}
					}
				}
				s.Policy = norm(p).(map[string]any)
			}
			if c.R.Intn(40) == 0 {
				s.Crit = []string{pick(c.R, "value", "x_unknown")}
			}
		}
		if c.R.Intn(5) == 0 {
			for _, t := range types {
				if c.R.Intn(2) == 0 {
					w.Types = append(w.Types, t)
				}
			}
		}
		c.Input = w.Dump()
		p07check(c, w)
	})
	generic(h, "graph", h.N(800, 8000), Profile{Edge: 0.6, Constraint: 0.1}, 2, 5, func(c *C, w *World, chains oidfed.TrustChains) {
		// add policies to the same federation and evaluate it
		types := []string{}
		for t := range typesOf(w.EC[w.Start].Meta) {
			types = append(types, t)
		}
		sort.Strings(types)
		for _, s := range w.all() {
			s.raw = nil
			if s.Iss != s.Sub && c.R.Intn(3) > 0 {
				s.Policy = norm(randPol(c.R, types, 2, 2)).(map[string]any)
			}
		}
		c.Input = w.Dump()
		p07check(c, w)
	})
}

func p07check(c *C, w *World) {
	netw.Reset()
	w.Serve()
	exp := w.Expected()
	chains := w.resolver().ResolveToValidChainsWithoutVerifyingMetadata()
	if len(chains) != len(exp) {
		c.Fail("chains", "got %d chains, want %d", len(chains), len(exp))
		return
	}
	byKey := map[string]RefChain{}
	for i, k := range refKeys(exp) {
		_ = i
		byKey[k] = nil
	}
	for _, e := range exp {
		byKey[refKeys([]RefChain{e})[0]] = e
	}
	var validKeys []string
	wants := map[string]map[string]map[string]any{}
	shortest := -1
	for _, ch := range chains {
		k := chainKey(ch)
		e := byKey[k]
		if e == nil {
			c.Fail("chains", "unexpected chain %s", k)
			return
		}
		var ps []polSpec
		bad := ""
		for _, s := range e {
			var p polSpec
			if s.Policy != nil {
				if err := json.Unmarshal([]byte(jstr(s.Policy)), &p); err != nil {
					panic(err)
				}
			}
			ps = append(ps, p)
			for _, o := range s.Crit {
				if !isKnownOp(o) {
					bad = "critical operator " + o
				}
			}
		}
		meta := restrict(e[0].Meta, w.Types)
		nm, _ := norm(meta).(map[string]any)
		var want map[string]map[string]any
		if len(e) == 1 {
			bad = ""
			want, _ = refMetadata(nm, nil)
		} else if bad == "" {
			var merged polSpec
			merged, bad = refMergePolicies(ps)
			if bad == "" {
				want, bad = refMetadata(nm, merged)
			}
		}
		got, err := ch.Metadata()
		c.Eval(fmt.Sprintf("len %d bad %q %s", len(e), bad, jstr(want)))
		if bad != "" {
			if err == nil || got != nil {
				c.Fail("not-rejected", "chain of %d: must have no metadata (%s), got %s (error %v)", len(e), bad, njson(got), err)
			}
			continue
		}
		if err != nil {
			c.Fail("rejected", "chain of %d: want metadata %s, got error %v", len(e), jstr(want), err)
			continue
		}
		validKeys = append(validKeys, k)
		wants[k] = want
		if shortest < 0 || len(ch) < shortest {
			shortest = len(ch)
		}
		if nm != nil {
			if d := cmpMetadata(got, want); d != "" {
				c.Fail("metadata", "chain of %d, leaf metadata %s, policies %s: %s", len(e), jstr(nm), jstr(ps), d)
			}
		}
	}
	valid := w.resolver().ResolveToValidChains()
	gk := gotKeys(valid)
	sort.Strings(gk)
	sort.Strings(validKeys)
	if !reflect.DeepEqual(append([]string{}, gk...), append([]string{}, validKeys...)) {
		c.Fail("valid-chains", "valid chains are %d, want %d", len(gk), len(validKeys))
	}
	// local resolver; it knows trust anchors by id only
	for _, t := range w.TAs {
		if t.Keys != nil && !sameKeys(t.Keys, w.EC[t.ID]) {
			return
		}
	}
	req := apimodel.ResolveRequest{Subject: w.Start, EntityTypes: w.Types}
	for _, t := range w.TAs {
		req.TrustAnchor = append(req.TrustAnchor, t.ID)
	}
	res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
	m, err2 := oidfed.LocalMetadataResolver{}.Resolve(req)
	if (err == nil) != (len(validKeys) > 0) || (err2 == nil) != (len(validKeys) > 0) {
		c.Fail("local-resolver", "%d valid chains, but errors %v / %v", len(validKeys), err, err2)
		return
	}
	if err != nil {
		return
	}
	ok := false
	for _, ch := range valid {
		if len(ch) != shortest && !(shortest <= 3 && len(ch) <= 3) {
			continue
		}
		same := len(res.TrustChain) == len(ch)
		e := byKey[chainKey(ch)]
		for i := 0; same && i < len(ch); i++ {
			data, _ := json.Marshal(res.TrustChain)
			var l []string
			_ = json.Unmarshal(data, &l)
			same = i < len(l) && l[i] == string(e[i].JWT())
		}
		if same && (wants[chainKey(ch)] == nil || len(wants[chainKey(ch)]) == 0 ||
			cmpMetadata(res.Metadata, wants[chainKey(ch)]) == "" && cmpMetadata(m, wants[chainKey(ch)]) == "") {
			ok = true
		}
	}
	if !ok {
		c.Fail("local-resolver", "the response (%d messages, metadata %s) is not that of a shortest valid chain (of %d valid ones, %d messages)", len(res.TrustChain), njson(res.Metadata), len(valid), shortest)
	}
}

func sameKeys(ks []*Key, ec *Stmt) bool {
	if ec == nil || len(ks) != len(ec.Keys) {
		return false
	}
	for i := range ks {
		if ks[i] != ec.Keys[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- P11

// spare gives v with slices that have spare capacity filled with a marker, so that writes past the length show
func spare(v any) any {
	switch x := v.(type) {
	case []any:
		out := make([]any, 0, len(x)+4)
		for _, y := range x {
			out = append(out, spare(y))
		}
		full := out[:cap(out)]
		for i := len(out); i < len(full); i++ {
			full[i] = "<spare>"
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, y := range x {
			out[k] = spare(y)
		}
		return out
	}
	return v
}

// deep renders a value including what lies in the spare capacity of its slices
func deep(v any) string {
	switch x := v.(type) {
	case []any:
		var b []string
		for _, y := range x[:cap(x)] {
			b = append(b, deep(y))
		}
		return fmt.Sprintf("%d%v", len(x), b)
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b []string
		for _, k := range ks {
			b = append(b, k+"="+deep(x[k]))
		}
		return fmt.Sprint(b)
	case []string:
		return fmt.Sprintf("%d%q", len(x), x[:cap(x)])
	}
	return fmt.Sprintf("%#v", v)
}

func deepPolicies(p *oidfed.MetadataPolicies) string {
	if p == nil {
		return "nil"
	}
	m := map[string]any{}
	add := func(t string, mp oidfed.MetadataPolicy) {
		if mp == nil {
			m[t] = nil
			return
		}
		o := map[string]any{}
		for k, e := range mp {
			x := map[string]any{}
			for op, v := range e {
				x[string(op)] = v
			}
			o[k] = x
		}
		m[t] = o
	}
	add("openid_provider", p.OpenIDProvider)
	add("openid_relying_party", p.RelyingParty)
	add("oauth_authorization_server", p.OAuthAuthorizationServer)
	add("oauth_client", p.OAuthClient)
	add("oauth_resource", p.OAuthProtectedResource)
	add("federation_entity", p.FederationEntity)
	for k, v := range p.Extra {
		add(k, v)
	}
	return deep(m)
}

func sparePolicies(p polSpec) *oidfed.MetadataPolicies {
	out := toPolicies(p)
	if out == nil {
		return nil
	}
	fix := func(mp oidfed.MetadataPolicy) {
		for _, e := range mp {
			for o, v := range e {
				e[o] = spare(v)
			}
		}
	}
	for _, mp := range []oidfed.MetadataPolicy{
		out.OpenIDProvider, out.RelyingParty, out.OAuthAuthorizationServer, out.OAuthClient, out.OAuthProtectedResource,
		out.FederationEntity,
	} {
		fix(mp)
	}
	for _, mp := range out.Extra {
		fix(mp)
	}
	return out
}

func spareStrings(s []string) []string {
	if s == nil {
		return nil
	}
	out := make([]string, len(s), len(s)+3)
	copy(out, s)
	full := out[:cap(out)]
	for i := len(s); i < len(full); i++ {
		full[i] = "<spare>"
	}
	return out
}

func deepMeta(m *oidfed.Metadata) string {
	s := njson(m)
	if m == nil {
		return s
	}
	if rp := m.RelyingParty; rp != nil {
		s += deep(rp.GrantTypes) + deep(rp.RedirectURIS) + deep(rp.Contacts)
		s += deep(any(rp.Extra))
	}
	if op := m.OpenIDProvider; op != nil {
		s += deep(op.ScopesSupported) + deep(op.GrantTypesSupported) + deep(op.Contacts) + deep(any(op.Extra))
	}
	s += deep(any(m.Extra))
	return s
}

func spareMeta(m *oidfed.Metadata) {
	if rp := m.RelyingParty; rp != nil {
		rp.GrantTypes, rp.RedirectURIS, rp.Contacts = spareStrings(rp.GrantTypes), spareStrings(rp.RedirectURIS), spareStrings(rp.Contacts)
		if rp.Extra != nil {
			rp.Extra = spare(rp.Extra).(map[string]any)
		}
	}
	if op := m.OpenIDProvider; op != nil {
		op.ScopesSupported, op.GrantTypesSupported = spareStrings(op.ScopesSupported), spareStrings(op.GrantTypesSupported)
		op.Contacts = spareStrings(op.Contacts)
		if op.Extra != nil {
			op.Extra = spare(op.Extra).(map[string]any)
		}
	}
	if m.Extra != nil {
		m.Extra = spare(m.Extra).(map[string]any)
	}
}

func p11(h *H) {
	h.Cases("merge", h.N(5000, 60000), func(c *C) {
		types := randTypes(c.R, 1+c.R.Intn(2))
		var in []*oidfed.MetadataPolicies
		var before []string
		var ps []polSpec
		for i := 0; i < 2+c.R.Intn(3); i++ {
			p := polSpec{}
			for _, t := range types {
				p[t] = map[string]entry{}
				for _, q := range paramsOf(t)[:3] {
					if c.R.Intn(3) > 0 {
						p[t][q.Name] = randEntry(c.R, q, 1)
					}
				}
			}
			ps = append(ps, p)
			in = append(in, sparePolicies(p))
			before = append(before, deepPolicies(in[i]))
		}
		c.Input = ps
		var first string
		for round := 0; round < 3; round++ {
			got, err := oidfed.MergeMetadataPolicies(in...)
			c.Eval(fmt.Sprintf("merge %d %t %s", len(in), err == nil, jstr(got)))
			for i := range in {
				if s := deepPolicies(in[i]); s != before[i] {
					c.Fail("policies-modified", "policy %d was %s, is %s", i, before[i], s)
					return
				}
			}
			verdict := fmt.Sprint(err == nil)
			if err == nil {
				verdict = canonPolicies(got)
			}
			if round == 0 {
				first = verdict
			} else if verdict != first {
				c.Fail("not-repeatable", "first %s, then %s", first, verdict)
			}
			// another chain that shares statements
			if len(in) > 2 {
				_, _ = oidfed.MergeMetadataPolicies(in[0], in[2])
				_, _ = oidfed.MergeMetadataPolicies(in[1], in[2])
				for i := range in {
					if s := deepPolicies(in[i]); s != before[i] {
						c.Fail("policies-modified", "policy %d was %s, is %s", i, before[i], s)
						return
					}
				}
			}
		}
	})
	h.Cases("apply", h.N(5000, 60000), func(c *C) {
		types := randTypes(c.R, 1+c.R.Intn(3))
		meta := randMeta(c.R, types)
		pol := randPol(c.R, types, 3, 2)
		var m oidfed.Metadata
		if err := json.Unmarshal([]byte(jstr(meta)), &m); err != nil {
			panic(err)
		}
		spareMeta(&m)
		p := sparePolicies(pol)
		c.Input = map[string]any{"metadata": meta, "policy": pol}
		bm, bp := deepMeta(&m), deepPolicies(p)
		var first string
		for round := 0; round < 3; round++ {
			got, err := m.ApplyPolicy(p)
			c.Eval(fmt.Sprintf("apply %t %s", err == nil, njson(got)))
			if s := deepMeta(&m); s != bm {
				c.Fail("metadata-modified", "was %s, is %s", bm, s)
				return
			}
			if s := deepPolicies(p); s != bp {
				c.Fail("policy-modified", "was %s, is %s", bp, s)
				return
			}
			v := "error"
			if err == nil {
				v = njson(got)
			}
			if round == 0 {
				first = v
			} else if first != v {
				c.Fail("not-repeatable", "first %s, then %s", first, v)
			}
		}
	})
	// whole chains: evaluate all chains of a federation in different orders
	h.Cases("chains", h.N(800, 8000), func(c *C) {
		w := randWorld(c.R, Profile{Nodes: nodes(c, 3, 5), Edge: 0.7})
		types := []string{}
		for t := range typesOf(w.EC[w.Start].Meta) {
			types = append(types, t)
		}
		sort.Strings(types)
		for _, s := range w.all() {
			if s.Iss != s.Sub && c.R.Intn(4) > 0 {
				p := polSpec{}
				for _, t := range types {
					p[t] = map[string]entry{}
					for _, q := range paramsOf(t)[:2] {
						p[t][q.Name] = entry{pick(c.R, "add", "subset_of", "add"): []any{"a", "b", words[c.R.Intn(4)]}[c.R.Intn(2):]}
					}
				}
				s.Policy = norm(p).(map[string]any)
			}
		}
		c.Input = w.Dump()
		netw.Reset()
		w.Serve()
		chains := w.resolver().ResolveToValidChainsWithoutVerifyingMetadata()
		snap := func() (out []string) {
			for _, ch := range chains {
				s := ""
				for _, st := range ch {
					s += njson(st) + deepPolicies(st.MetadataPolicy) + deepMeta(st.Metadata)
				}
				out = append(out, s)
			}
			return
		}
		before := snap()
		res := map[int]string{}
		for round := 0; round < 3; round++ {
			for _, i := range c.R.Perm(len(chains)) {
				m, err := chains[i].Metadata()
				v := "error"
				if err == nil {
					v = njson(m)
				}
				c.Eval(fmt.Sprintf("chain %d %s", len(chains[i]), v))
				if f, ok := res[i]; ok && f != v {
					c.Fail("not-repeatable", "chain %d: first %s, then %s", i, f, v)
				}
				res[i] = v
				if after := snap(); !reflect.DeepEqual(before, after) {
					c.Fail("statements-modified", "evaluating the metadata of a chain changed a statement")
					return
				}
			}
		}
		// filtering and sorting
		ta := ""
		if len(w.TAs) > 0 {
			ta = w.TAs[0].ID
		}
		orig := append(oidfed.TrustChains{}, chains...)
		for round := 0; round < 3; round++ {
			_ = chains.Filter(oidfed.TrustChainsFilterTrustAnchor(ta))
			_ = chains.Filter(oidfed.TrustChainsFilterMaxPathLength(c.R.Intn(3)), oidfed.TrustChainsFilterValidMetadata)
			_ = chains.Filter(oidfed.TrustChainsFilterMinPathLength)
			c.Eval(fmt.Sprintf("filter %d", len(chains)))
			for i := range orig {
				if !reflect.DeepEqual(chainKey(orig[i]), chainKey(chains[i])) {
					c.Fail("chains-modified", "filtering changed the filtered chains")
					return
				}
			}
		}
	})
	h.Cases("trust-mark-lists", h.N(1500, 10000), func(c *C) {
		n := c.R.Intn(6)
		infos := make(oidfed.TrustMarkInfos, 0, n+2)
		for i := 0; i < n; i++ {
			infos = append(infos, oidfed.TrustMarkInfo{TrustMarkType: "https://tm.example.org/" + words[c.R.Intn(3)], TrustMarkJWT: words[c.R.Intn(4)]})
		}
		ta := &oidfed.EntityStatementPayload{Issuer: "https://ta.example.org", Subject: "https://ta.example.org"}
		before := jstr(infos) + jstr(infos[:cap(infos)])
		_ = infos.VerifiedFederation(ta)
		_ = infos.FindByID("https://tm.example.org/a")
		_ = infos.FindByID("https://tm.example.org/zz")
		_ = infos.VerifiedFederation(ta)
		c.Eval(fmt.Sprintf("marks %d", n))
		if after := jstr(infos) + jstr(infos[:cap(infos)]); after != before {
			c.Fail("marks-modified", "was %s, is %s", before, after)
		}
	})
}

func canonPolicies(p *oidfed.MetadataPolicies) string {
	g := gotPolicies(p)
	for _, m := range g {
		for _, e := range m {
			for o, v := range e {
				if l, ok := v.([]any); ok {
					e[o] = sortedList(l)
				}
			}
		}
	}
	return jstr(g)
}
