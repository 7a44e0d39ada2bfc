package oidfed

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	nethttp "net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/vmihailenco/msgpack/v5"

	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/internal/http"
	"github.com/go-oidfed/lib/jwks"
)

// A small model federation for demonstrations.

type zzM = map[string]any

func zzKey(n string) ed25519.PrivateKey {
	s := sha256.Sum256([]byte(n))
	return ed25519.NewKeyFromSeed(s[:])
}
func zzB64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// "X!evil" is another key under the key id of X.
func zzKid(n string) string { return strings.Split(n, "!")[0] }

func zzJWKS(names ...string) zzM {
	ks := []any{}
	for _, n := range names {
		ks = append(
			ks, zzM{
				"kty": "OKP", "crv": "Ed25519", "x": zzB64(zzKey(n).Public().(ed25519.PublicKey)), "kid": zzKid(n),
				"use": "sig", "alg": "EdDSA",
			},
		)
	}
	return zzM{"keys": ks}
}

func zzLibJWKS(names ...string) jwks.JWKS {
	b, _ := json.Marshal(zzJWKS(names...))
	s := jwks.NewJWKS()
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	return s
}

func zzSign(key, typ string, payload any) []byte {
	p, _ := json.Marshal(payload)
	h, _ := json.Marshal(zzM{"alg": "EdDSA", "kid": zzKid(key), "typ": typ})
	in := zzB64(h) + "." + zzB64(p)
	return []byte(in + "." + zzB64(ed25519.Sign(zzKey(key), []byte(in))))
}

// zzNet maps URL (without query, or with it) to an answer.
type zzNet struct {
	mu  sync.Mutex
	H   map[string]func(r *nethttp.Request) (int, string, []byte)
	Log []string
}

func (n *zzNet) RoundTrip(r *nethttp.Request) (*nethttp.Response, error) {
	u := *r.URL
	u.RawQuery = ""
	n.mu.Lock()
	h := n.H[r.URL.String()]
	if h == nil {
		h = n.H[u.String()]
	}
	n.Log = append(n.Log, r.URL.String())
	n.mu.Unlock()
	st, ct, body := 404, "application/json", []byte(`{"error":"not_found"}`)
	if h != nil {
		st, ct, body = h(r)
	}
	if st == 0 {
		return nil, fmt.Errorf("unreachable")
	}
	return &nethttp.Response{
		StatusCode: st, Status: fmt.Sprint(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: nethttp.Header{"Content-Type": []string{ct}}, Body: io.NopCloser(bytes.NewReader(body)),
		ContentLength: int64(len(body)), Request: r,
	}, nil
}

type zzEntry struct {
	data []byte
	exp  time.Time
}
type zzCache struct {
	mu sync.Mutex
	m  map[string]zzEntry
}

func (c *zzCache) Get(key string, target any) (bool, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	e, ok := c.m[key]
	if !ok || time.Now().After(e.exp) {
		return false, nil
	}
	return true, msgpack.Unmarshal(e.data, target)
}
func (c *zzCache) Set(key string, value any, ttl time.Duration) error {
	d, err := msgpack.Marshal(value)
	if err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if ttl > 0 {
		c.m[key] = zzEntry{d, time.Now().Add(ttl)}
	}
	return nil
}

// zzStart installs a fresh network and cache.
func zzStart(t *testing.T) *zzNet {
	n := &zzNet{H: map[string]func(r *nethttp.Request) (int, string, []byte){}}
	old, oldDef := http.Do().GetClient().Transport, nethttp.DefaultTransport
	http.Do().GetClient().Transport = n
	nethttp.DefaultTransport = n
	cache.SetCache(&zzCache{m: map[string]zzEntry{}})
	t.Cleanup(func() { http.Do().GetClient().Transport = old; nethttp.DefaultTransport = oldDef })
	return n
}

func zzID(n string) string { return "https://" + strings.ToLower(n) + ".example.org" }

func (n *zzNet) json(url string, v any) {
	b, _ := json.Marshal(v)
	n.set(url, 200, "application/json", b)
}

func (n *zzNet) set(url string, status int, ct string, body []byte) {
	n.mu.Lock()
	n.H[url] = func(*nethttp.Request) (int, string, []byte) { return status, ct, body }
	n.mu.Unlock()
}

// zzEC serves the entity configuration of name; extra overrides claims. It returns the payload.
func (n *zzNet) ec(name string, hints []string, extra zzM) zzM {
	p := zzM{
		"iss": zzID(name), "sub": zzID(name), "iat": time.Now().Add(-time.Hour).Unix(),
		"exp": time.Now().Add(24 * time.Hour).Unix(), "jwks": zzJWKS(name),
		"metadata": zzM{
			"federation_entity": zzM{
				"federation_fetch_endpoint": zzID(name) + "/fetch", "federation_list_endpoint": zzID(name) + "/list",
			},
		},
	}
	if len(hints) > 0 {
		hs := []string{}
		for _, h := range hints {
			hs = append(hs, zzID(h))
		}
		p["authority_hints"] = hs
	}
	key := name
	for k, v := range extra {
		if k == "!key" {
			key = v.(string)
			continue
		}
		p[k] = v
	}
	n.set(zzID(name)+"/.well-known/openid-federation", 200, "application/entity-statement+jwt", zzSign(key, "entity-statement+jwt", p))
	return p
}

// sub serves the statement of iss about sub.
func (n *zzNet) sub(iss, sub string, extra zzM) {
	p := zzM{
		"iss": zzID(iss), "sub": zzID(sub), "iat": time.Now().Add(-time.Hour).Unix(),
		"exp": time.Now().Add(12 * time.Hour).Unix(), "jwks": zzJWKS(sub),
	}
	key := iss
	for k, v := range extra {
		if k == "!key" {
			key = v.(string)
			continue
		}
		p[k] = v
	}
	j := zzSign(key, "entity-statement+jwt", p)
	n.mu.Lock()
	old := n.H[zzID(iss)+"/fetch"]
	n.H[zzID(iss)+"/fetch"] = func(r *nethttp.Request) (int, string, []byte) {
		if r.URL.Query().Get("sub") == zzID(sub) {
			return 200, "application/entity-statement+jwt", j
		}
		if old != nil {
			return old(r)
		}
		return 404, "application/json", []byte(`{"error":"not_found"}`)
	}
	n.mu.Unlock()
}

func zzChains(start string, types []string, anchors ...TrustAnchor) TrustChains {
	r := TrustResolver{TrustAnchors: anchors, StartingEntity: zzID(start), Types: types}
	return r.ResolveToValidChains()
}

func zzTA(name string, pin ...string) TrustAnchor {
	ta := TrustAnchor{EntityID: zzID(name)}
	if len(pin) > 0 {
		ta.JWKS = zzLibJWKS(pin...)
	}
	return ta
}
