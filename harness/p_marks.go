package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

func sortStrings(s []string) { sort.Strings(s) }

func init() {
	properties["P12"] = p12
	properties["P13"] = p13
}

const (
	typTM  = "trust-mark+jwt"
	typDel = "trust-mark-delegation+jwt"
	typRR  = "resolve-response+jwt"
)

// Deleg describes a delegation
type Deleg struct {
	Iss, Sub, Type string
	Iat, Exp       *float64
	Signer         *Key
	Tamper         bool
	Typ            string
	Garbage        bool
}

// Mark describes a trust mark as presented by an entity
type Mark struct {
	Announced      string
	Iss, Sub, Type string
	Iat, Exp       *float64
	Signer         *Key
	Tamper         bool
	Typ            string
	Garbage        bool
	Deleg          *Deleg
	now            float64
	raw            string
}

func tampered(typ string, p map[string]any, k *Key) string {
	t := strings.Split(string(jwt(typ, p, k)), ".")
	p["x"] = "tampered"
	o := strings.Split(string(jwt(typ, p, k)), ".")
	return t[0] + "." + o[1] + "." + t[2]
}

func signedObj(typ string, p map[string]any, iat, exp *float64, now float64, k *Key, tamper, garbage bool) string {
	if garbage {
		return "not.a.jwt"
	}
	if iat != nil {
		p["iat"] = now + *iat
	}
	if exp != nil {
		p["exp"] = now + *exp
	}
	if tamper {
		return tampered(typ, p, k)
	}
	return string(jwt(typ, p, k))
}

// JWT gives the (signed) mark
func (m *Mark) JWT() string {
	if m.raw != "" {
		return m.raw
	}
	if m.now == 0 {
		m.now = nowf()
	}
	p := map[string]any{"iss": m.Iss, "sub": m.Sub, "trust_mark_type": m.Type}
	if d := m.Deleg; d != nil {
		p["delegation"] = signedObj(
			d.Typ, map[string]any{"iss": d.Iss, "sub": d.Sub, "trust_mark_type": d.Type}, d.Iat, d.Exp, m.now, d.Signer, d.Tamper,
			d.Garbage,
		)
	}
	m.raw = signedObj(m.Typ, p, m.Iat, m.Exp, m.now, m.Signer, m.Tamper, m.Garbage)
	return m.raw
}

func (m *Mark) info() oidfed.TrustMarkInfo {
	return oidfed.TrustMarkInfo{TrustMarkType: m.Announced, TrustMarkJWT: m.JWT()}
}

func timeOK(iat, exp *float64) bool { return (iat == nil || *iat <= 0) && (exp == nil || *exp >= 0) }

func hasKey(ks []*Key, k *Key) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// Owner of a trust mark type
type Owner struct {
	ID   string
	Keys []*Key
}

// refDelegation says why the delegation of m is not valid for the owner ("" if valid)
func (m *Mark) refDelegation(o Owner) string {
	d := m.Deleg
	switch {
	case d == nil:
		return "no delegation"
	case d.Garbage:
		return "garbage delegation"
	case d.Typ != typDel:
		return "delegation of wrong jwt type"
	case d.Type != m.Type:
		return "delegation for another mark type"
	case d.Sub != m.Iss:
		return "delegation for another issuer"
	case d.Iss != o.ID:
		return "delegation not by owner"
	case !timeOK(d.Iat, d.Exp):
		return "delegation not valid in time"
	case d.Tamper || !hasKey(o.Keys, d.Signer):
		return "delegation signature"
	}
	return ""
}

// refExternal says why the mark does not verify with the given keys
func (m *Mark) refExternal(ks []*Key, o *Owner) string {
	switch {
	case m.Garbage:
		return "garbage"
	case m.Typ != typTM:
		return "wrong jwt type"
	case !timeOK(m.Iat, m.Exp):
		return "not valid in time"
	case m.Tamper || !hasKey(ks, m.Signer):
		return "signature"
	}
	if o != nil {
		return m.refDelegation(*o)
	}
	return ""
}

// MarkWorld is a federation with trust mark issuers
type MarkWorld struct {
	*World
	TA      *Stmt
	Issuers map[string][]string
	Owners  map[string]Owner
	Marks   []*Mark
}

// refFederation says why the mark is not valid in the federation
func (w *MarkWorld) refFederation(m *Mark) string {
	if m.Garbage {
		return "garbage"
	}
	if m.Typ != typTM {
		return "wrong jwt type"
	}
	if l, ok := w.Issuers[m.Type]; ok {
		in := false
		for _, x := range l {
			in = in || x == m.Iss
		}
		if !in {
			return "issuer not listed"
		}
	}
	var ks []*Key
	if m.Iss == w.TA.Iss {
		ks = w.TA.Keys
	} else {
		x := *w.World
		x.Start = m.Iss
		x.TAs = []Anchor{{ID: w.TA.Iss}}
		x.Types = nil
		cs := x.Expected()
		if len(cs) == 0 {
			return "issuer without trust chain"
		}
		ks = cs[0][0].Keys
	}
	if o, ok := w.Owners[m.Type]; ok {
		return m.refExternal(ks, &o)
	}
	return m.refExternal(ks, nil)
}

func (w *MarkWorld) finish() {
	w.TA.Extra = map[string]any{}
	if w.Issuers != nil {
		w.TA.Extra["trust_mark_issuers"] = w.Issuers
	}
	if w.Owners != nil {
		o := map[string]any{}
		for t, x := range w.Owners {
			o[t] = map[string]any{"sub": x.ID, "jwks": jwksOf(x.Keys...)}
		}
		w.TA.Extra["trust_mark_owners"] = o
	}
	leaf := w.EC[w.Start]
	l := []any{}
	for _, m := range w.Marks {
		l = append(l, map[string]any{"trust_mark_type": m.Announced, "trust_mark": m.JWT()})
	}
	leaf.Extra = map[string]any{"trust_marks": l}
}

// markWorld: leaf below TA, trust mark issuers of all kinds
func markWorld(c *C) *MarkWorld {
	k := 1 + c.R.Intn(2)
	w := &MarkWorld{World: chainWorld(c, k)}
	ta := fmt.Sprintf("https://sup%d.example.org", k)
	w.TA = w.EC[ta]
	add := func(id, sup string, own, supKey, att *Key) {
		s := &Stmt{Iss: id, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{own}, Signer: own, Hints: []string{sup}}
		s.Meta = map[string]any{"federation_entity": map[string]any{"organization_name": "tmi"}}
		w.EC[id] = s
		w.addFetch(sup+"/fetch", id, &Stmt{Iss: sup, Sub: id, Iat: fp(-1), Exp: fp(600), Keys: []*Key{att}, Signer: supKey})
	}
	add("https://tmi.example.org", ta, keys[8], keys[k], keys[8])
	// an issuer whose keys are not those its superior attests
	add("https://badkey.example.org", ta, keys[9], keys[k], keys[10])
	// an issuer that is only known to another trust anchor
	w.EC["https://otherta.example.org"] = &Stmt{
		Iss: "https://otherta.example.org", Sub: "https://otherta.example.org", Iat: fp(-1), Exp: fp(600), Keys: []*Key{keys[11]},
		Signer: keys[11], Meta: map[string]any{"federation_entity": fedEntity("https://otherta.example.org")},
	}
	add("https://foreign.example.org", "https://otherta.example.org", keys[12], keys[11], keys[12])
	if c.R.Intn(3) == 0 {
		w.EC["https://tmi.example.org"].Keys = []*Key{keys[8], keys[13]}
	}
	if c.R.Intn(10) == 0 {
		w.EC["https://tmi.example.org"].Exp = fp(-5)
	}
	if c.R.Intn(10) == 0 { // only a trust mark issuer for the intermediate's own branch
		w.EC["https://tmi.example.org"].Drop = true
	}
	return w
}

var tmTypes = []string{"https://tm.example.org/a", "https://tm.example.org/b", "https://tm.example.org/c"}

func issuerKey(w *MarkWorld, id string) *Key {
	if s := w.EC[id]; s != nil {
		return s.Keys[len(s.Keys)-1]
	}
	return keys[14]
}

func goodDeleg(r *rand.Rand, m *Mark, o Owner) *Deleg {
	return &Deleg{Iss: o.ID, Sub: m.Iss, Type: m.Type, Iat: fp(-5), Exp: fp(500), Signer: o.Keys[r.Intn(len(o.Keys))], Typ: typDel}
}

func breakTime(r *rand.Rand) (iat, exp *float64) {
	switch r.Intn(4) {
	case 0:
		return fp(300), fp(900)
	case 1:
		return fp(-900), fp(-1)
	case 2:
		return nil, fp(-100000)
	default:
		return fp(1e8), nil
	}
}

func okTime(r *rand.Rand) (iat, exp *float64) {
	switch r.Intn(4) {
	case 0:
		return fp(-1), nil
	case 1:
		return nil, fp(900)
	case 2:
		return nil, nil
	default:
		return fp(-1e8), fp(1e8)
	}
}

func randMark(c *C, w *MarkWorld, dev float64) *Mark {
	r := c.R
	m := &Mark{Typ: typTM, Sub: w.Start, Type: tmTypes[r.Intn(3)]}
	m.Iss = pick(
		r, "https://tmi.example.org", "https://tmi.example.org", w.TA.Iss, "https://badkey.example.org", "https://foreign.example.org",
		"https://unknown.example.org", "https://sup1.example.org", w.Start,
	)
	m.Announced = m.Type
	m.Signer = issuerKey(w, m.Iss)
	m.Iat, m.Exp = okTime(r)
	if o, ok := w.Owners[m.Type]; ok && !chance(r, dev/2) {
		m.Deleg = goodDeleg(r, m, o)
	} else if chance(r, 0.2) {
		m.Deleg = &Deleg{Iss: "https://nobody.example.org", Sub: m.Iss, Type: m.Type, Signer: keys[5], Typ: typDel}
	}
	if chance(r, dev) {
		switch r.Intn(8) {
		case 0:
			m.Announced = tmTypes[r.Intn(3)]
		case 1:
			m.Sub = pick(r, w.TA.Iss, "https://other.example.org", w.Start+"/")
		case 2:
			m.Iat, m.Exp = breakTime(r)
		case 3:
			m.Tamper = true
		case 4:
			m.Signer = keys[r.Intn(16)]
		case 5:
			m.Typ = pick(r, "JWT", typES, typDel, typRR, "")
		case 6:
			m.Garbage = true
		case 7:
			m.Iss = pick(r, w.TA.Iss, "https://tmi.example.org")
		}
	}
	if d := m.Deleg; d != nil && chance(r, dev) {
		breakDeleg(r, d, w)
	}
	return m
}

func breakDeleg(r *rand.Rand, d *Deleg, w *MarkWorld) {
	switch r.Intn(8) {
	case 0:
		d.Iss = pick(r, w.TA.Iss, d.Sub, "https://someone.example.org")
	case 1:
		d.Sub = pick(r, w.TA.Iss, d.Iss, w.Start)
	case 2:
		d.Type = tmTypes[r.Intn(3)]
	case 3:
		d.Iat, d.Exp = breakTime(r)
	case 4:
		d.Tamper = true
	case 5:
		d.Signer = keys[r.Intn(16)]
	case 6:
		d.Typ = pick(r, "JWT", typTM, typES, "")
	case 7:
		d.Garbage = true
	}
}

func randOwners(c *C, w *MarkWorld, p float64) {
	for i, t := range tmTypes {
		if chance(c.R, p) {
			if w.Owners == nil {
				w.Owners = map[string]Owner{}
			}
			o := Owner{ID: fmt.Sprintf("https://owner%d.example.org", i), Keys: []*Key{keys[5+i]}}
			if chance(c.R, 0.3) {
				o.Keys = append(o.Keys, keys[14])
			}
			w.Owners[t] = o
		}
	}
}

func (w *MarkWorld) payload(c *C) *oidfed.EntityStatementPayload {
	st, err := oidfed.ParseEntityStatement(w.TA.JWT())
	if err != nil {
		panic(err)
	}
	return &st.EntityStatementPayload
}

func (w *MarkWorld) dump() any {
	d := w.Dump().(map[string]any)
	d["trust_mark_issuers"], d["trust_mark_owners"] = w.Issuers, fmt.Sprintf("%v", w.Owners)
	var ms []any
	for _, m := range w.Marks {
		ms = append(ms, map[string]any{"announced": m.Announced, "jwt": m.JWT()})
	}
	d["marks"] = ms
	return d
}

func checkMarks(c *C, w *MarkWorld) {
	w.finish()
	netw.Reset()
	w.Serve()
	c.Input = w.dump()
	ta := w.payload(c)
	var infos oidfed.TrustMarkInfos
	var want []string
	var wantOwn []string
	for _, m := range w.Marks {
		bad := w.refFederation(m)
		annOK := m.Announced == m.Type
		infos = append(infos, m.info())
		i := m.info()
		err := i.VerifyFederation(ta)
		_, listed := w.Issuers[m.Type]
		_, owned := w.Owners[m.Type]
		c.Eval(fmt.Sprintf("iss %s listed %t owned %t announced %t own %t: %s", m.Iss, listed, owned, annOK, m.Sub == w.Start, bad))
		if (err == nil) != (bad == "" && annOK) {
			c.Fail("verify-info", "mark iss %s type %s announced %s: reference %q, library %v", m.Iss, m.Type, m.Announced, bad, err)
		}
		if bad == "" && annOK {
			want = append(want, m.JWT())
			if m.Sub == w.Start {
				wantOwn = append(wantOwn, m.JWT())
			}
		}
		tm, err := oidfed.ParseTrustMark([]byte(m.JWT()))
		if err == nil {
			err = tm.VerifyFederation(ta)
			if (err == nil) != (bad == "") {
				c.Fail("verify-mark", "mark iss %s type %s: reference %q, library %v", m.Iss, m.Type, bad, err)
			}
		} else if bad == "" {
			c.Fail("parse-mark", "valid mark is not parsed: %v", err)
		}
	}
	jwts := func(l oidfed.TrustMarkInfos) (out []string) {
		for _, i := range l {
			out = append(out, i.TrustMarkJWT)
		}
		return
	}
	if got := jwts(infos.VerifiedFederation(ta)); jstr(got) != jstr(want) {
		c.Fail("verified-list", "verified %d marks, want %d (in order)", len(got), len(want))
	}
	if len(w.World.Expected()) == 0 {
		return
	}
	res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
		apimodel.ResolveRequest{Subject: w.Start, TrustAnchor: []string{w.TA.Iss}},
	)
	if err != nil {
		c.Fail("resolve", "%v", err)
		return
	}
	if got := jwts(res.TrustMarks); jstr(got) != jstr(wantOwn) {
		c.Fail("reported-marks", "%d trust marks are reported for %s, want %d: %s", len(got), w.Start, len(wantOwn), jstr(got))
	}
}

func p12(h *H) {
	h.Cases("random", h.N(1500, 20000), func(c *C) {
		w := markWorld(c)
		if c.R.Intn(3) > 0 {
			w.Issuers = map[string][]string{}
			for _, t := range tmTypes {
				switch c.R.Intn(4) {
				case 0:
					w.Issuers[t] = []string{}
				case 1:
					w.Issuers[t] = []string{"https://tmi.example.org", w.TA.Iss}
				case 2:
					w.Issuers[t] = []string{pick(c.R, w.TA.Iss, "https://tmi.example.org", "https://foreign.example.org"), "https://badkey.example.org"}
				}
			}
		}
		randOwners(c, w, 0.2)
		for i := 0; i < 1+c.R.Intn(5); i++ {
			w.Marks = append(w.Marks, randMark(c, w, 0.4))
		}
		checkMarks(c, w)
	})
	// one deviation at a time from an accepted mark
	h.Cases("single-deviation", 400, func(c *C) {
		w := markWorld(c)
		w.EC["https://tmi.example.org"].Drop = false
		w.EC["https://tmi.example.org"].Exp = fp(600)
		iss := pick(c.R, "https://tmi.example.org", w.TA.Iss)
		w.Issuers = map[string][]string{tmTypes[0]: {"https://x.example.org", iss}}
		m := &Mark{Typ: typTM, Sub: w.Start, Type: tmTypes[0], Announced: tmTypes[0], Iss: iss, Signer: issuerKey(w, iss), Iat: fp(-1), Exp: fp(60)}
		switch c.Idx % 13 {
		case 0:
		case 1:
			w.Issuers = map[string][]string{tmTypes[0]: {"https://x.example.org"}}
		case 2:
			w.Issuers = map[string][]string{tmTypes[1]: {"https://x.example.org"}}
		case 3:
			m.Announced = tmTypes[1]
		case 4:
			m.Type = tmTypes[1]
		case 5:
			m.Exp = fp(-1)
		case 6:
			m.Iat = fp(120)
		case 7:
			m.Signer = keys[0]
		case 8:
			m.Tamper = true
		case 9:
			m.Typ = typES
		case 10:
			w.EC["https://tmi.example.org"].Keys = []*Key{keys[3]}
		case 11:
			w.EC["https://tmi.example.org"].Hints = nil
		case 12:
			m.Sub = "https://someone.example.org"
		}
		w.Marks = []*Mark{m}
		checkMarks(c, w)
	})
	// texts that are almost the expected ones
	h.Cases("near", h.N(1200, 15000), func(c *C) {
		w := markWorld(c)
		w.EC["https://tmi.example.org"].Drop = false
		w.EC["https://tmi.example.org"].Exp = fp(600)
		iss := pick(c.R, "https://tmi.example.org", w.TA.Iss)
		typ := tmTypes[0]
		if c.Idx%7 == 6 {
			typ = ""
		}
		w.Issuers = map[string][]string{typ: {"https://x.example.org", iss}}
		m := &Mark{Typ: typTM, Sub: w.Start, Type: typ, Announced: typ, Iss: iss, Signer: issuerKey(w, iss), Iat: fp(-1), Exp: fp(60)}
		switch c.Idx % 6 {
		case 0:
			m.Announced = almost(c.R, m.Type, tmTypes...)
		case 1:
			m.Type = almost(c.R, m.Type, tmTypes...)
		case 2:
			w.Issuers[typ] = []string{almost(c.R, iss, w.TA.Iss), almost(c.R, iss, w.Start), ""}
		case 3:
			w.Issuers = map[string][]string{almost(c.R, typ, tmTypes...): {}, typ: {iss}}
		case 4:
			m.Sub = almost(c.R, m.Sub, w.TA.Iss, iss)
		case 5:
			m.Iss = almost(c.R, m.Iss, w.TA.Iss, w.Start)
		}
		w.Marks = []*Mark{m}
		checkMarks(c, w)
	})
	// the issuer's own marks, with the resolver that asks remote resolve endpoints as default
	h.Cases("smart-default", 120, func(c *C) {
		old := oidfed.DefaultMetadataResolver
		oidfed.DefaultMetadataResolver = oidfed.SmartRemoteMetadataResolver{}
		defer func() { oidfed.DefaultMetadataResolver = old }()
		w := markWorld(c)
		m := randMark(c, w, 0.2)
		w.Marks = []*Mark{m}
		// the issuer presents a mark issued by itself
		if s := w.EC[m.Iss]; s != nil && m.Iss != w.Start {
			own := &Mark{Typ: typTM, Sub: m.Iss, Type: tmTypes[1], Announced: tmTypes[1], Iss: m.Iss, Signer: issuerKey(w, m.Iss)}
			defer func(x map[string]any) { s.Extra = x }(s.Extra)
			s.Extra = map[string]any{"trust_marks": []any{map[string]any{"trust_mark_type": own.Announced, "trust_mark": own.JWT()}}}
		}
		checkMarks(c, w)
	})
	// external verification with given keys
	h.Cases("external", h.N(1500, 15000), func(c *C) {
		w := markWorld(c)
		randOwners(c, w, 0.5)
		m := randMark(c, w, 0.4)
		ks := []*Key{issuerKey(w, m.Iss)}
		if c.R.Intn(4) == 0 {
			ks = append(ks, keys[c.R.Intn(16)])
		}
		externalCheck(c, w, m, ks)
	})
}

func externalCheck(c *C, w *MarkWorld, m *Mark, ks []*Key) {
	c.Input = map[string]any{"mark": m.JWT(), "announced": m.Announced, "keys": jwksOf(ks...), "owners": fmt.Sprint(w.Owners)}
	var spec []oidfed.TrustMarkOwnerSpec
	var o *Owner
	if x, ok := w.Owners[m.Type]; ok {
		o = &x
		spec = []oidfed.TrustMarkOwnerSpec{{ID: x.ID, JWKS: setOf(x.Keys...)}}
	}
	bad := m.refExternal(ks, o)
	i := m.info()
	err := i.VerifyExternal(setOf(ks...), spec...)
	c.Eval(fmt.Sprintf("external owned %t: %s", o != nil, bad))
	if (err == nil) != (bad == "" && m.Announced == m.Type) {
		c.Fail("verify-external", "reference %q announced %s type %s, library %v", bad, m.Announced, m.Type, err)
	}
	got := oidfed.TrustMarkInfos{m.info()}.VerifiedExternal(setOf(ks...), spec...)
	if (len(got) == 1) != (bad == "" && m.Announced == m.Type) {
		c.Fail("verified-external", "reference %q, library kept %d", bad, len(got))
	}
	if tm, err := oidfed.ParseTrustMark([]byte(m.JWT())); err == nil {
		if err = tm.VerifyExternal(setOf(ks...), spec...); (err == nil) != (bad == "") {
			c.Fail("verify-external", "mark: reference %q, library %v", bad, err)
		}
	}
}

func p13(h *H) {
	h.Cases("federation", h.N(1500, 15000), func(c *C) {
		w := markWorld(c)
		randOwners(c, w, 0.8)
		for i := 0; i < 1+c.R.Intn(3); i++ {
			m := randMark(c, w, 0)
			m.Iss = pick(c.R, "https://tmi.example.org", w.TA.Iss)
			m.Signer = issuerKey(w, m.Iss)
			if o, ok := w.Owners[m.Type]; ok {
				m.Deleg = goodDeleg(c.R, m, o)
				switch c.R.Intn(8) {
				case 0:
					m.Deleg = nil
				case 1:
					// another owner's delegation
					for t, x := range w.Owners {
						if t != m.Type {
							m.Deleg = goodDeleg(c.R, m, x)
						}
					}
				case 2, 3, 4, 5:
					breakDeleg(c.R, m.Deleg, w)
				case 6:
					m.Deleg.Iat, m.Deleg.Exp = okTime(c.R)
				}
			}
			w.Marks = append(w.Marks, m)
		}
		checkMarks(c, w)
	})
	// texts that are almost the expected ones; owners without id
	h.Cases("near", h.N(1500, 15000), func(c *C) {
		w := markWorld(c)
		w.EC["https://tmi.example.org"].Drop = false
		w.EC["https://tmi.example.org"].Exp = fp(600)
		randOwners(c, w, 1)
		iss := pick(c.R, "https://tmi.example.org", w.TA.Iss)
		m := &Mark{Typ: typTM, Sub: w.Start, Type: tmTypes[c.R.Intn(3)], Iss: iss, Signer: issuerKey(w, iss), Iat: fp(-1), Exp: fp(60)}
		o := w.Owners[m.Type]
		if chance(c.R, 0.3) {
			o.ID = almost(c.R, o.ID, iss, w.TA.Iss)
			w.Owners[m.Type] = o
		}
		m.Deleg = goodDeleg(c.R, m, o)
		switch c.Idx % 6 {
		case 0:
			m.Deleg.Iss = almost(c.R, o.ID, iss, w.Start)
		case 1:
			m.Deleg.Sub = almost(c.R, iss, o.ID, w.Start)
		case 2:
			m.Deleg.Type = almost(c.R, m.Type, tmTypes...)
		case 3:
			m.Deleg = nil
		case 4:
			delete(w.Owners, m.Type)
			w.Owners[almost(c.R, m.Type, tmTypes...)] = o
		}
		m.Announced = m.Type
		w.Marks = []*Mark{m}
		checkMarks(c, w)
		externalCheck(c, w, m, []*Key{m.Signer})
	})
	// the owner of a type issues marks of that type itself
	h.Cases("owner-issues", 64, func(c *C) {
		w := markWorld(c)
		w.EC["https://tmi.example.org"].Drop = false
		w.EC["https://tmi.example.org"].Exp = fp(600)
		iss := pick(c.R, "https://tmi.example.org", w.TA.Iss)
		m := &Mark{Typ: typTM, Sub: w.Start, Type: tmTypes[0], Announced: tmTypes[0], Iss: iss, Signer: issuerKey(w, iss), Iat: fp(-1), Exp: fp(60)}
		o := Owner{ID: iss, Keys: []*Key{m.Signer}}
		w.Owners = map[string]Owner{m.Type: o}
		if c.Idx%2 == 0 {
			m.Deleg = goodDeleg(c.R, m, o)
			if c.Idx%4 == 0 {
				breakDeleg(c.R, m.Deleg, w)
			}
		}
		w.Marks = []*Mark{m}
		checkMarks(c, w)
		externalCheck(c, w, m, []*Key{m.Signer})
	})
	h.Cases("external", h.N(2000, 15000), func(c *C) {
		w := markWorld(c)
		randOwners(c, w, 1)
		m := randMark(c, w, 0)
		m.Deleg = goodDeleg(c.R, m, w.Owners[m.Type])
		if c.R.Intn(3) > 0 {
			breakDeleg(c.R, m.Deleg, w)
		}
		if c.R.Intn(8) == 0 {
			m.Deleg = nil
		}
		externalCheck(c, w, m, []*Key{m.Signer})
	})
	// delegations on their own
	h.Cases("standalone", h.N(2000, 15000), func(c *C) {
		w := markWorld(c)
		randOwners(c, w, 0.7)
		m := &Mark{Typ: typTM, Sub: w.Start, Type: tmTypes[c.R.Intn(3)], Iss: "https://tmi.example.org", Signer: keys[8]}
		o, owned := w.Owners[m.Type]
		if !owned {
			o = Owner{ID: "https://o.example.org", Keys: []*Key{keys[2]}}
		}
		m.Deleg = goodDeleg(c.R, m, o)
		d := m.Deleg
		switch c.R.Intn(7) {
		case 0:
			d.Iat, d.Exp = breakTime(c.R)
		case 1:
			d.Tamper = true
		case 2:
			d.Signer = keys[c.R.Intn(16)]
		case 3:
			d.Type = tmTypes[c.R.Intn(3)]
		case 4:
			d.Iat, d.Exp = okTime(c.R)
		}
		w.finish()
		c.Input = w.dump()
		tm, err := oidfed.ParseTrustMark([]byte(m.JWT()))
		if err != nil {
			c.Fail("parse", "%v", err)
			return
		}
		del, err := tm.Delegation()
		if err != nil || del == nil {
			c.Fail("parse", "delegation: %v", err)
			return
		}
		own, ok := w.Owners[d.Type]
		want := ok && timeOK(d.Iat, d.Exp) && !d.Tamper && hasKey(own.Keys, d.Signer)
		err = del.VerifyFederation(w.payload(c))
		c.Eval(fmt.Sprintf("standalone owned %t time %t sig %t", ok, timeOK(d.Iat, d.Exp), !d.Tamper && hasKey(own.Keys, d.Signer)))
		if (err == nil) != want {
			c.Fail("standalone", "want %t, library %v", want, err)
		}
		wantExt := timeOK(d.Iat, d.Exp) && !d.Tamper && hasKey(o.Keys, d.Signer)
		if err = del.VerifyExternal(setOf(o.Keys...)); (err == nil) != wantExt {
			c.Fail("standalone-external", "want %t, library %v", wantExt, err)
		}
	})
}

// p03marks: time validity of marks and delegations
func p03marks(h *H) {
	offs := []*float64{nil, fp(-1e9), fp(-3600), fp(-1), fp(60), fp(3600), fp(1e9)}
	h.Cases("mark-times", 49, func(c *C) {
		w := markWorld(c)
		w.EC["https://tmi.example.org"].Drop = false
		w.EC["https://tmi.example.org"].Exp = fp(600)
		w.Owners = map[string]Owner{tmTypes[0]: {"https://owner.example.org", []*Key{keys[5]}}}
		a, b := offs[c.Idx%7], offs[c.Idx/7]
		mk := func(t string) *Mark {
			return &Mark{Typ: typTM, Sub: w.Start, Type: t, Announced: t, Iss: "https://tmi.example.org", Signer: keys[8], Iat: fp(-1), Exp: fp(60)}
		}
		w.EC["https://tmi.example.org"].Keys = []*Key{keys[8]}
		m1, m2 := mk(tmTypes[0]), mk(tmTypes[1])
		m1.Deleg = goodDeleg(c.R, m1, w.Owners[tmTypes[0]])
		m1.Deleg.Iat, m1.Deleg.Exp = a, b
		m2.Iat, m2.Exp = a, b
		w.Marks = []*Mark{m1, m2}
		checkMarks(c, w)
	})
}

var _ = json.Marshal
