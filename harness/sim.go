package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"github.com/vmihailenco/msgpack/v5"

	"github.com/go-oidfed/lib/cache"
	ihttp "github.com/go-oidfed/lib/internal/http"
	"github.com/go-oidfed/lib/jwks"
)

// Key is a signing key of the simulation
type Key struct {
	N    int
	Priv *ecdsa.PrivateKey
	Kid  string
	JWK  map[string]any
	Set  jwks.JWKS
}

var keys []*Key

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func newKey(n int) *Key {
	sk, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	k := &Key{N: n, Priv: sk, Set: jwks.KeyToJWKS(sk.Public(), jwa.ES256())}
	data, _ := json.Marshal(k.Set)
	var m struct {
		Keys []map[string]any `json:"keys"`
	}
	if err = json.Unmarshal(data, &m); err != nil {
		panic(err)
	}
	k.JWK = m.Keys[0]
	k.Kid, _ = k.JWK["kid"].(string)
	return k
}

func jwksOf(ks ...*Key) map[string]any {
	a := []any{}
	for _, k := range ks {
		a = append(a, k.JWK)
	}
	return map[string]any{"keys": a}
}

func setOf(ks ...*Key) (s jwks.JWKS) {
	s = jwks.NewJWKS()
	data, _ := json.Marshal(jwksOf(ks...))
	if err := json.Unmarshal(data, &s); err != nil {
		panic(err)
	}
	return
}

func (k *Key) sign(input []byte) []byte {
	hash := sha256.Sum256(input)
	r, s, err := ecdsa.Sign(rand.Reader, k.Priv, hash[:])
	if err != nil {
		panic(err)
	}
	out := make([]byte, 64)
	r.FillBytes(out[:32])
	s.FillBytes(out[32:])
	return out
}

func (k *Key) verifies(input, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	hash := sha256.Sum256(input)
	return ecdsa.Verify(&k.Priv.PublicKey, hash[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:]))
}

// compact creates a compact JWS
func compact(header map[string]any, payload []byte, k *Key) []byte {
	hd, err := json.Marshal(header)
	if err != nil {
		panic(err)
	}
	in := b64(hd) + "." + b64(payload)
	return []byte(in + "." + b64(k.sign([]byte(in))))
}

func jwt(typ string, payload any, k *Key) []byte {
	data, err := json.Marshal(payload)
	if err != nil {
		panic(err)
	}
	h := map[string]any{"alg": "ES256", "kid": k.Kid}
	if typ != "" {
		h["typ"] = typ
	}
	return compact(h, data, k)
}

// decodeJWT splits a compact JWS without verifying it
func decodeJWT(tok []byte) (header, payload map[string]any, input, sig []byte, err error) {
	parts := strings.Split(string(tok), ".")
	if len(parts) != 3 {
		err = fmt.Errorf("not a compact JWS: %q", trunc(string(tok), 100))
		return
	}
	var raw [3][]byte
	for i, p := range parts {
		if raw[i], err = base64.RawURLEncoding.DecodeString(p); err != nil {
			return
		}
	}
	if err = json.Unmarshal(raw[0], &header); err != nil {
		return
	}
	if err = json.Unmarshal(raw[1], &payload); err != nil {
		return
	}
	return header, payload, []byte(parts[0] + "." + parts[1]), raw[2], nil
}

// Handler answers a simulated request
type Handler func(req *http.Request) (int, string, []byte, error)

// Net is the simulated network
type Net struct {
	mu       sync.Mutex
	handlers map[string]Handler
	Requests []string
	Fallback Handler
}

var netw = &Net{handlers: map[string]Handler{}}

// Reset forgets all handlers
func (n *Net) Reset() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.handlers = map[string]Handler{}
	n.Requests = nil
	n.Fallback = nil
}

// Handle registers a handler for the URL (without query)
func (n *Net) Handle(u string, h Handler) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.handlers[u] = h
}

// Static registers a fixed response
func (n *Net) Static(u string, status int, ctype string, body []byte) {
	n.Handle(u, func(*http.Request) (int, string, []byte, error) { return status, ctype, body, nil })
}

// Count gives the number of requests with the prefix
func (n *Net) Count(prefix string) (c int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, r := range n.Requests {
		if strings.HasPrefix(r, prefix) {
			c++
		}
	}
	return
}

// RoundTrip implements http.RoundTripper
func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	u := *req.URL
	u.RawQuery = ""
	u.Fragment = ""
	n.mu.Lock()
	h, ok := n.handlers[u.String()]
	if !ok {
		h = n.Fallback
	}
	if len(n.Requests) < 100000 {
		n.Requests = append(n.Requests, req.Method+" "+req.URL.String())
	}
	n.mu.Unlock()
	status, ctype, body := 404, "application/json", []byte(`{"error":"not_found"}`)
	if h != nil {
		var err error
		status, ctype, body, err = h(req)
		if err != nil {
			return nil, err
		}
	}
	return &http.Response{
		Status: fmt.Sprintf("%d x", status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header:  http.Header{"Content-Type": []string{ctype}},
		Body:    io.NopCloser(bytes.NewReader(body)),
		Request: req, ContentLength: int64(len(body)),
	}, nil
}

func jsonResp(v any) (int, string, []byte, error) {
	data, err := json.Marshal(v)
	return 200, "application/json", data, err
}

// noCache never stores anything
type noCache struct{}

// Get implements cache.Cache
func (noCache) Get(string, any) (bool, error) { return false, nil }

// Set implements cache.Cache
func (noCache) Set(string, any, time.Duration) error { return nil }

// mapCache stores everything that does not expire at once and records what is done
type mapCache struct {
	mu   sync.Mutex
	m    map[string]mapEntry
	Sets []setRec
	Hits []string
}
type mapEntry struct {
	data []byte
	exp  time.Time
}
type setRec struct {
	Key string
	Val any
	TTL time.Duration
	At  time.Time
}

func newMapCache() *mapCache { return &mapCache{m: map[string]mapEntry{}} }

// Get implements cache.Cache
func (c *mapCache) Get(key string, target any) (bool, error) {
	c.mu.Lock()
	e, ok := c.m[key]
	if ok && time.Now().After(e.exp) {
		ok = false
	}
	if ok {
		c.Hits = append(c.Hits, key)
	}
	c.mu.Unlock()
	if !ok {
		return false, nil
	}
	return true, msgpack.Unmarshal(e.data, target)
}

// Set implements cache.Cache
func (c *mapCache) Set(key string, value any, ttl time.Duration) error {
	data, err := msgpack.Marshal(value)
	if err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Sets = append(c.Sets, setRec{key, value, ttl, time.Now()})
	if ttl > 0 {
		c.m[key] = mapEntry{data, time.Now().Add(ttl)}
	}
	return nil
}

func simInit(ownCache bool) {
	c := ihttp.Do()
	c.SetRetryCount(0)
	c.GetClient().Transport = netw
	http.DefaultTransport = netw
	http.DefaultClient.Transport = netw
	if !ownCache {
		cache.SetCache(noCache{})
	}
	for i := 0; i < 16; i++ {
		keys = append(keys, newKey(i))
	}
}

func hostOf(id string) string {
	u, err := url.Parse(id)
	if err != nil {
		return ""
	}
	return u.Hostname()
}

func nowf() float64 { return float64(time.Now().UnixNano()) / 1e9 }
