package zzverif

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	nethttp "net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/internal/http"
	"github.com/go-oidfed/lib/jwks"
)

type M = map[string]any

// ------------------------------------------------------------------- keys --

var keyMemo sync.Map

// edKey returns the (deterministic) key with the given name.
func edKey(name string) ed25519.PrivateKey {
	if k, ok := keyMemo.Load(name); ok {
		return k.(ed25519.PrivateKey)
	}
	seed := sha256.Sum256([]byte("zzverif/" + name))
	k := ed25519.NewKeyFromSeed(seed[:])
	keyMemo.Store(name, k)
	return k
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// kidOf: "I1!evil" is another key that claims the key id of "I1".
func kidOf(name string) string {
	if i := strings.IndexByte(name, '!'); i >= 0 {
		name = name[:i]
	}
	return "kid-" + name
}

// jwkOf is the public JWK of a named key.
func jwkOf(name string) M {
	pub := edKey(name).Public().(ed25519.PublicKey)
	return M{"kty": "OKP", "crv": "Ed25519", "x": b64(pub), "kid": kidOf(name), "use": "sig", "alg": "EdDSA"}
}

func jwksOf(names ...string) M {
	ks := []any{}
	for _, n := range names {
		ks = append(ks, jwkOf(n))
	}
	return M{"keys": ks}
}

// libJWKS parses named keys into the library's type.
func libJWKS(names ...string) jwks.JWKS {
	b, _ := json.Marshal(jwksOf(names...))
	s := jwks.NewJWKS()
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	return s
}

type signKey struct{ key, typ, payload string }

var signMemo = map[signKey][]byte{}
var signMu sync.Mutex

// signJWT makes a compact JWS over the JSON of payload.
func signJWT(key, typ string, payload any) []byte {
	p, err := json.Marshal(payload)
	if err != nil {
		panic(err)
	}
	return signRaw(key, typ, p)
}

func signRaw(key, typ string, p []byte) []byte {
	sk := signKey{key, typ, string(p)}
	signMu.Lock()
	defer signMu.Unlock()
	if j, ok := signMemo[sk]; ok {
		return j
	}
	hdr := M{"alg": "EdDSA", "kid": kidOf(key)}
	if typ != "" {
		hdr["typ"] = typ
	}
	h, _ := json.Marshal(hdr)
	in := b64(h) + "." + b64(p)
	j := []byte(in + "." + b64(ed25519.Sign(edKey(key), []byte(in))))
	if len(signMemo) < 200000 {
		signMemo[sk] = j
	}
	return j
}

// verifyJWT is the harness's own verification of a compact JWS against a JWKS
// in its JSON form. It returns the payload.
func verifyJWT(jwt []byte, set any) (M, bool) {
	m, _ := set.(map[string]any)
	ks, _ := m["keys"].([]any)
	key := string(jwt)
	for _, kk := range ks {
		k, _ := kk.(map[string]any)
		key += fmt.Sprint("|", k["kid"], ":", k["x"])
	}
	if v, ok := verifyMemo[key]; ok {
		return payloadOf(jwt), v
	}
	p, ok := verifyJWTSlow(jwt, set)
	if len(verifyMemo) < 100000 {
		verifyMemo[key] = ok
	}
	return p, ok
}

// memos of the harness's own functions; used by the exploring goroutine only.
var verifyMemo = map[string]bool{}
var payloadMemo = map[string]M{}

func verifyJWTSlow(jwt []byte, set any) (M, bool) {
	parts := bytes.Split(jwt, []byte("."))
	if len(parts) != 3 {
		return nil, false
	}
	h, e1 := base64.RawURLEncoding.DecodeString(string(parts[0]))
	p, e2 := base64.RawURLEncoding.DecodeString(string(parts[1]))
	s, e3 := base64.RawURLEncoding.DecodeString(string(parts[2]))
	if e1 != nil || e2 != nil || e3 != nil {
		return nil, false
	}
	var hdr, pl M
	if json.Unmarshal(h, &hdr) != nil || json.Unmarshal(p, &pl) != nil {
		return nil, false
	}
	m, _ := set.(map[string]any)
	ks, _ := m["keys"].([]any)
	for _, kk := range ks {
		k, _ := kk.(map[string]any)
		if k["kid"] != hdr["kid"] || k["crv"] != "Ed25519" {
			continue
		}
		xs, _ := k["x"].(string)
		pub, err := base64.RawURLEncoding.DecodeString(xs)
		if err != nil || len(pub) != ed25519.PublicKeySize {
			continue
		}
		if ed25519.Verify(pub, append(append(append([]byte{}, parts[0]...), '.'), parts[1]...), s) {
			return pl, true
		}
	}
	return pl, false
}

// payloadOf decodes a payload (shared between calls: not to be modified).
func payloadOf(jwt []byte) M {
	if p, ok := payloadMemo[string(jwt)]; ok {
		return p
	}
	p := payloadOfSlow(jwt)
	if len(payloadMemo) < 100000 {
		payloadMemo[string(jwt)] = p
	}
	return p
}

func payloadOfSlow(jwt []byte) M {
	parts := bytes.Split(jwt, []byte("."))
	if len(parts) != 3 {
		return nil
	}
	p, _ := base64.RawURLEncoding.DecodeString(string(parts[1]))
	var pl M
	_ = json.Unmarshal(p, &pl)
	return pl
}

// generic turns a value into its generic JSON form.
func generic(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(fmt.Sprintf("marshal: %v", err))
	}
	var g any
	if err = json.Unmarshal(b, &g); err != nil {
		panic(err)
	}
	return g
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

// ---------------------------------------------------------------- network --

// Resp is an answer of the model network.
type Resp struct {
	Status int
	CT     string
	Body   []byte
	Err    error
	// BodyErr breaks the connection in the middle of the body.
	BodyErr error
	Hdr     map[string]string
}

// Net is the model network: it answers the library's HTTP requests.
type Net struct {
	mu     sync.Mutex
	H      map[string]func(r *nethttp.Request) *Resp // by scheme://host/path
	Log    []string
	Budget int
	// Gate, when set, is called before a request is answered (scheduling point).
	Gate func(what string)
	// All, when set, answers every request.
	All func(r *nethttp.Request) *Resp
	// Fault may replace the answer.
	Fault func(what string) *Resp
}

type budgetExceeded struct{ n int }

// RoundTrip implements http.RoundTripper.
func (n *Net) RoundTrip(r *nethttp.Request) (*nethttp.Response, error) {
	u := *r.URL
	u.RawQuery = ""
	base := u.String()
	what := base
	if r.URL.RawQuery != "" {
		what += "?" + r.URL.RawQuery
	}
	n.mu.Lock()
	n.Log = append(n.Log, what)
	over := n.Budget > 0 && len(n.Log) > n.Budget
	n.mu.Unlock()
	if over {
		panic(fmt.Sprintf("more than %d HTTP requests in one execution", n.Budget))
	}
	if n.Gate != nil {
		n.Gate(what)
	}
	var resp *Resp
	if n.Fault != nil {
		resp = n.Fault(what)
	}
	if resp == nil && n.All != nil {
		resp = n.All(r)
	}
	if resp == nil {
		n.mu.Lock()
		h := n.H[base]
		n.mu.Unlock()
		if h != nil {
			resp = h(r)
		}
	}
	if resp == nil {
		resp = notFound()
	}
	if resp.Err != nil {
		return nil, resp.Err
	}
	ct := resp.CT
	if ct == "" {
		ct = "application/entity-statement+jwt"
	}
	st := resp.Status
	if st == 0 {
		st = 200
	}
	hdr := nethttp.Header{"Content-Type": []string{ct}}
	for k, v := range resp.Hdr {
		if v == "self" {
			v = r.URL.String()
		}
		hdr.Set(k, v)
	}
	body := io.Reader(bytes.NewReader(resp.Body))
	if resp.BodyErr != nil {
		body = io.MultiReader(bytes.NewReader(resp.Body[:len(resp.Body)/2]), failingReader{resp.BodyErr})
	}
	return &nethttp.Response{
		StatusCode: st, Status: fmt.Sprintf("%d X", st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hdr, Body: io.NopCloser(body),
		ContentLength: int64(len(resp.Body)), Request: r,
	}, nil
}

type failingReader struct{ err error }

func (f failingReader) Read([]byte) (int, error) { return 0, f.err }

func notFound() *Resp {
	return &Resp{Status: 404, CT: "application/json", Body: []byte(`{"error":"not_found","error_description":"x"}`)}
}

func jsonResp(status int, v any) *Resp {
	b, _ := json.Marshal(v)
	return &Resp{Status: status, CT: "application/json", Body: b}
}

var curNet *Net

type quiet struct{}

func (quiet) Errorf(string, ...any) {}
func (quiet) Warnf(string, ...any)  {}
func (quiet) Debugf(string, ...any) {}

type netSwitch struct{}

// RoundTrip dispatches to the network of the current execution.
func (netSwitch) RoundTrip(r *nethttp.Request) (*nethttp.Response, error) { return curNet.RoundTrip(r) }

func init() {
	http.Do().GetClient().Transport = netSwitch{}
	http.Do().SetLogger(quiet{})
	nethttp.DefaultTransport = netSwitch{}
	nethttp.DefaultClient.Transport = netSwitch{}
}

func newNet() *Net {
	n := &Net{H: map[string]func(r *nethttp.Request) *Resp{}, Budget: 20000}
	curNet = n
	return n
}

// setJWT serves a fixed body.
func (n *Net) set(u string, f func(r *nethttp.Request) *Resp) {
	n.mu.Lock()
	n.H[u] = f
	n.mu.Unlock()
}

// ------------------------------------------------------------------ cache --

type memEntry struct {
	data []byte
	exp  time.Time // zero: never
}

// memCache has the semantics of the library's default cache, on the virtual
// clock: a non-positive lifetime other than -1ns is not stored, -1ns means
// forever.
type memCache struct {
	mu   sync.Mutex
	m    map[string]memEntry
	Gate func(what string)
	Ops  int
	Sets map[string]time.Duration
	// Redis selects go-redis semantics for non-positive lifetimes (kept forever)
	Redis bool
	Fail  func(op, key string) error
}

func newMemCache() *memCache {
	c := &memCache{m: map[string]memEntry{}, Sets: map[string]time.Duration{}}
	cache.SetCache(c)
	return c
}

func (c *memCache) Get(key string, target any) (bool, error) {
	if c.Gate != nil {
		c.Gate("get " + key)
	}
	if c.Fail != nil {
		if err := c.Fail("get", key); err != nil {
			return false, err
		}
	}
	c.mu.Lock()
	c.Ops++
	if c.Ops > 200000 {
		c.mu.Unlock()
		panic("more than 200000 cache operations in one execution")
	}
	e, ok := c.m[key]
	if ok && !e.exp.IsZero() && time.Now().After(e.exp) {
		delete(c.m, key)
		ok = false
	}
	c.mu.Unlock()
	if !ok {
		return false, nil
	}
	return true, msgpack.Unmarshal(e.data, target)
}

func (c *memCache) Set(key string, value any, ttl time.Duration) error {
	if c.Gate != nil {
		c.Gate("set " + key)
	}
	if c.Fail != nil {
		if err := c.Fail("set", key); err != nil {
			return err
		}
	}
	data, err := msgpack.Marshal(value)
	if err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Ops++
	c.Sets[key] = ttl
	if ttl < 1 && ttl != -1 {
		if c.Redis {
			c.m[key] = memEntry{data: data}
		} else {
			delete(c.m, key)
		}
		return nil
	}
	e := memEntry{data: data}
	if ttl != -1 {
		e.exp = time.Now().Add(ttl)
	}
	c.m[key] = e
	return nil
}

// ------------------------------------------------------------------ world --

// Stmt describes an entity statement to be served.
type Stmt struct {
	Iss, Sub string
	Key      string // signing key
	Typ      string // "" = the right one, "-" = none
	Iat, Exp time.Duration
	NoExp    bool
	Keys     []string // jwks content
	Hints    []string
	Md       any
	Claims   M // further claims (constraints, policies, ...)
	Raw      []byte
	Miss     bool // not served: 404
}

var t0 = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(epochShift)

// Payload is the payload with times relative to t0.
func (s *Stmt) Payload() M {
	p := M{
		"iss": s.Iss, "sub": s.Sub, "iat": t0.Add(s.Iat).Unix(), "jwks": jwksOf(s.Keys...),
	}
	if !s.NoExp {
		p["exp"] = t0.Add(s.Exp).Unix()
	}
	if len(s.Hints) > 0 {
		hs := make([]any, len(s.Hints))
		for i, h := range s.Hints {
			hs[i] = h
		}
		p["authority_hints"] = hs
	}
	if s.Md != nil {
		p["metadata"] = s.Md
	}
	for k, v := range s.Claims {
		p[k] = v
	}
	return p
}

// JWT signs the statement.
func (s *Stmt) JWT() []byte {
	if s.Raw != nil {
		return s.Raw
	}
	typ := s.Typ
	if typ == "" {
		typ = "entity-statement+jwt"
	} else if typ == "-" {
		typ = ""
	}
	return signJWT(s.Key, typ, s.Payload())
}

// Fed is a model federation: entity configurations and subordinate statements
// by entity short name.
type Fed struct {
	EC   map[string]*Stmt
	SS   map[[2]string]*Stmt // issuer, subject
	List map[string][]string // listing endpoint content (short names)
	ID   func(string) string
	base string
	Dup  bool // an entity names an authority twice
}

func newFed() *Fed {
	return &Fed{
		EC: map[string]*Stmt{}, SS: map[[2]string]*Stmt{}, List: map[string][]string{},
		ID: func(n string) string { return "https://" + strings.ToLower(n) + ".example.org" },
	}
}

const (
	dEC = 24 * time.Hour
	dSS = 12 * time.Hour
)

// entity adds an entity with default statements: keys[name], superiors.
func (f *Fed) entity(n string, md M, hints ...string) *Stmt {
	hs := []string{}
	for _, h := range hints {
		hs = append(hs, f.ID(h))
	}
	s := &Stmt{Iss: f.ID(n), Sub: f.ID(n), Key: n, Keys: []string{n}, Iat: -time.Hour, Exp: dEC, Hints: hs, Md: md}
	f.EC[n] = s
	return s
}

func (f *Fed) authorityMd(n string) M {
	return M{
		"federation_entity": M{
			"federation_fetch_endpoint": f.ID(n) + "/fetch",
			"federation_list_endpoint":  f.ID(n) + "/list",
		},
	}
}

// sub adds the statement of iss about subject.
func (f *Fed) sub(iss, subject string) *Stmt {
	s := &Stmt{
		Iss: f.ID(iss), Sub: f.ID(subject), Key: iss, Keys: []string{subject}, Iat: -time.Hour, Exp: dSS,
	}
	f.SS[[2]string{iss, subject}] = s
	return s
}

// install serves the federation on the network.
func (f *Fed) install(n *Net) {
	for name := range f.EC {
		name := name
		n.set(
			strings.TrimSuffix(f.ID(name), "/")+"/.well-known/openid-federation", func(*nethttp.Request) *Resp {
				s := f.EC[name]
				if s == nil || s.Miss {
					return notFound()
				}
				return &Resp{Body: s.JWT()}
			},
		)
		n.set(
			f.ID(name)+"/fetch", func(r *nethttp.Request) *Resp {
				q, err := url.ParseQuery(r.URL.RawQuery)
				if err != nil || len(q["sub"]) != 1 {
					return jsonResp(400, M{"error": "invalid_request"})
				}
				for k, s := range f.SS {
					if k[0] == name && f.ID(k[1]) == q.Get("sub") {
						if s.Miss {
							return notFound()
						}
						return &Resp{Body: s.JWT()}
					}
				}
				return notFound()
			},
		)
		n.set(
			f.ID(name)+"/list", func(r *nethttp.Request) *Resp {
				l, ok := f.List[name]
				if !ok {
					l = []string{}
					for k := range f.SS {
						if k[0] == name {
							l = append(l, k[1])
						}
					}
					sort.Strings(l)
				}
				ids := []string{}
				for _, s := range l {
					ids = append(ids, f.ID(s))
				}
				return jsonResp(200, ids)
			},
		)
	}
}

// chainKey renders a returned chain as the raw JWTs it consists of.
func chainKey(c oidfed.TrustChain) string {
	var sb strings.Builder
	for _, m := range c.Messages() {
		if m == nil {
			sb.WriteString("nil|")
			continue
		}
		h := sha256.Sum256(m.RawJWT)
		sb.WriteString(b64(h[:9]))
		sb.WriteString("|")
	}
	return sb.String()
}

func chainKeyRaw(jwts [][]byte) string {
	var sb strings.Builder
	for _, j := range jwts {
		h := sha256.Sum256(j)
		sb.WriteString(b64(h[:9]))
		sb.WriteString("|")
	}
	return sb.String()
}

func setOf(ss []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

func descChain(c oidfed.TrustChain) string {
	s := ""
	for _, st := range c {
		if st == nil {
			s += "(nil)"
			continue
		}
		s += fmt.Sprintf("(%s->%s)", shortID(st.Issuer), shortID(st.Subject))
	}
	return s
}

func shortID(id string) string {
	return strings.TrimSuffix(strings.TrimPrefix(id, "https://"), ".example.org")
}
