package zzverif

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash"
	"math/big"
	"slices"
	"strings"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
)

// ---- C11: signed documents are bound to their type and keys ----------------------------

// The harness's own JOSE, on the standard library only.

type joseKey struct {
	name string
	priv crypto.Signer
	algs []string
}

func ecKey(name string, curve elliptic.Curve) *ecdsa.PrivateKey {
	for i := 0; ; i++ {
		h := sha512.Sum512([]byte(fmt.Sprint("zzverif/", name, i)))
		h2 := sha512.Sum512(h[:])
		raw := append(h[:], h2[:]...)[:(curve.Params().BitSize+7)/8]
		if curve == elliptic.P521() {
			raw[0] = 0
		}
		if k, err := ecdsa.ParseRawPrivateKey(curve, raw); err == nil {
			return k
		}
	}
}

func rsaKey(i int) *rsa.PrivateKey {
	b, _ := pem.Decode([]byte(rsaPEM[i]))
	k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	return k
}

var joseMemo = map[string]joseKey{}

// joseKeyOf gives a key by its kind and number ("ES256/0").
func joseKeyOf(kind string, n int) joseKey {
	name := fmt.Sprint(kind, "/", n)
	if k, ok := joseMemo[name]; ok {
		return k
	}
	k := joseKey{name: name}
	switch kind {
	case "Ed25519":
		k.priv, k.algs = edKey(name), []string{"EdDSA"}
	case "P-256":
		k.priv, k.algs = ecKey(name, elliptic.P256()), []string{"ES256"}
	case "P-384":
		k.priv, k.algs = ecKey(name, elliptic.P384()), []string{"ES384"}
	case "P-521":
		k.priv, k.algs = ecKey(name, elliptic.P521()), []string{"ES512"}
	case "RSA":
		k.priv, k.algs = rsaKey(n), []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}
	}
	joseMemo[name] = k
	return k
}

var joseKinds = []string{"Ed25519", "P-256", "P-384", "P-521", "RSA"}

func fixed(b *big.Int, n int) string { return b64(b.FillBytes(make([]byte, n))) }

// jwk is the public key in its JSON form, without any optional members.
func (k joseKey) jwk() M {
	switch p := k.priv.Public().(type) {
	case ed25519.PublicKey:
		return M{"kty": "OKP", "crv": "Ed25519", "x": b64(p)}
	case *ecdsa.PublicKey:
		raw, err := p.Bytes()
		if err != nil {
			panic(err)
		}
		n := (len(raw) - 1) / 2
		return M{"kty": "EC", "crv": p.Params().Name, "x": b64(raw[1 : 1+n]), "y": b64(raw[1+n:])}
	case *rsa.PublicKey:
		return M{"kty": "RSA", "n": b64(p.N.Bytes()), "e": b64(big.NewInt(int64(p.E)).Bytes())}
	}
	panic(k.name)
}

// thumbprint is the RFC 7638 thumbprint.
func (k joseKey) thumbprint() string {
	h := sha256.Sum256([]byte(jsonOf(k.jwk()))) // map keys come out sorted
	return b64(h[:])
}

func hashOf(alg string) (crypto.Hash, func() hash.Hash) {
	switch alg[2:] {
	case "256":
		return crypto.SHA256, sha256.New
	case "384":
		return crypto.SHA384, sha512.New384
	}
	return crypto.SHA512, sha512.New
}

// sign makes the signature of an algorithm; for HMAC the secret is secret.
func (k joseKey) sign(alg, in string, secret []byte) []byte {
	if alg == "none" {
		return nil
	}
	if alg == "EdDSA" {
		return ed25519.Sign(k.priv.(ed25519.PrivateKey), []byte(in))
	}
	h, mk := hashOf(alg)
	if strings.HasPrefix(alg, "HS") {
		m := hmac.New(mk, secret)
		m.Write([]byte(in))
		return m.Sum(nil)
	}
	d := mk()
	d.Write([]byte(in))
	sum := d.Sum(nil)
	switch alg[:2] {
	case "ES":
		p := k.priv.(*ecdsa.PrivateKey)
		r, s, err := ecdsa.Sign(rand.Reader, p, sum)
		if err != nil {
			panic(err)
		}
		n := (p.Params().BitSize + 7) / 8
		return append(r.FillBytes(make([]byte, n)), s.FillBytes(make([]byte, n))...)
	case "RS":
		s, err := rsa.SignPKCS1v15(rand.Reader, k.priv.(*rsa.PrivateKey), h, sum)
		if err != nil {
			panic(err)
		}
		return s
	case "PS":
		s, err := rsa.SignPSS(rand.Reader, k.priv.(*rsa.PrivateKey), h, sum, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		if err != nil {
			panic(err)
		}
		return s
	}
	panic(alg)
}

// joseVerify verifies a signature under a public JWK and an algorithm.
func joseVerify(k M, alg, in string, sig []byte) bool {
	dec := func(n string) []byte {
		s, _ := k[n].(string)
		b, _ := base64.RawURLEncoding.DecodeString(s)
		return b
	}
	if alg == "EdDSA" {
		x := dec("x")
		return k["kty"] == "OKP" && k["crv"] == "Ed25519" && len(x) == ed25519.PublicKeySize && ed25519.Verify(x, []byte(in), sig)
	}
	if len(alg) != 5 || !strings.Contains(" ES256 ES384 ES512 RS256 RS384 RS512 PS256 PS384 PS512 ", " "+alg+" ") {
		return false
	}
	h, mk := hashOf(alg)
	d := mk()
	d.Write([]byte(in))
	sum := d.Sum(nil)
	switch {
	case alg[:2] == "ES" && k["kty"] == "EC":
		var curve elliptic.Curve
		switch alg {
		case "ES256":
			curve = elliptic.P256()
		case "ES384":
			curve = elliptic.P384()
		default:
			curve = elliptic.P521()
		}
		n := (curve.Params().BitSize + 7) / 8
		if k["crv"] != curve.Params().Name || len(sig) != 2*n {
			return false
		}
		p, err := ecdsa.ParseUncompressedPublicKey(curve, append(append([]byte{4}, dec("x")...), dec("y")...))
		return err == nil && ecdsa.Verify(p, sum, new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]))
	case alg[:2] == "RS" && k["kty"] == "RSA":
		p := &rsa.PublicKey{N: new(big.Int).SetBytes(dec("n")), E: int(new(big.Int).SetBytes(dec("e")).Int64())}
		return rsa.VerifyPKCS1v15(p, h, sum, sig) == nil
	case alg[:2] == "PS" && k["kty"] == "RSA":
		p := &rsa.PublicKey{N: new(big.Int).SetBytes(dec("n")), E: int(new(big.Int).SetBytes(dec("e")).Int64())}
		return rsa.VerifyPSS(p, h, sum, sig, nil) == nil
	}
	return false
}

func parseSet(c *C, keys ...M) (jwks.JWKS, bool) {
	ks := []any{}
	for _, k := range keys {
		ks = append(ks, k)
	}
	s := jwks.NewJWKS()
	if err := json.Unmarshal([]byte(jsonOf(M{"keys": ks})), &s); err != nil {
		return s, false
	}
	return s, true
}

func with(m M, kv ...any) M {
	out := M{}
	for k, v := range m {
		out[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == any(absent) {
			delete(out, kv[i].(string))
		} else {
			out[kv[i].(string)] = kv[i+1]
		}
	}
	return out
}

// the kinds of signed documents
var docKinds = []struct {
	name, typ string
	payload   func() M
	// accept parses and verifies
	accept func(doc []byte, set jwks.JWKS) error
}{
	{
		"entity statement", "entity-statement+jwt",
		func() M {
			return M{"iss": "https://i", "sub": "https://s", "iat": t0.Unix(), "exp": t0.Unix() + 100, "jwks": jwksOf("x")}
		},
		func(doc []byte, set jwks.JWKS) error {
			s, err := oidfed.ParseEntityStatement(doc)
			if err == nil && !s.Verify(set) {
				err = fmt.Errorf("not verified")
			}
			return err
		},
	},
	{
		"trust mark", "trust-mark+jwt",
		func() M {
			return M{"iss": "https://i", "sub": "https://s", "iat": t0.Unix(), "exp": t0.Unix() + 100, "trust_mark_type": "https://tm"}
		},
		func(doc []byte, set jwks.JWKS) error {
			tm, err := oidfed.ParseTrustMark(doc)
			if err == nil {
				err = tm.VerifyExternal(set)
			}
			return err
		},
	},
	{
		"delegation", "trust-mark-delegation+jwt",
		func() M {
			return M{"iss": "https://o", "sub": "https://i", "iat": t0.Unix(), "exp": t0.Unix() + 100, "trust_mark_type": "https://tm"}
		},
		func(doc []byte, set jwks.JWKS) error {
			tm, err := oidfed.ParseTrustMark(signJWT("x", "trust-mark+jwt", M{
				"iss": "https://i", "sub": "https://s", "iat": t0.Unix(), "exp": t0.Unix() + 100, "trust_mark_type": "https://tm", "delegation": string(doc),
			}))
			if err == nil {
				err = tm.VerifyExternal(libJWKS("x"), oidfed.TrustMarkOwnerSpec{ID: "https://o", JWKS: set})
			}
			return err
		},
	},
	{
		"resolve response", "resolve-response+jwt",
		func() M {
			return M{"iss": "https://i", "sub": "https://s", "iat": t0.Unix(), "exp": t0.Unix() + 100, "metadata": M{}}
		},
		func(doc []byte, set jwks.JWKS) error {
			_, err := oidfed.ParseResolveResponse(doc)
			return err
		},
	},
}

func init() {
	none := any("<none>")
	registry["C11"] = func(x *X) {
		x.ExploreB(
			"acceptance", Pick(x, 2, 3), func(c *C) {
				kind := docKinds[c.Choose(len(docKinds), "kind")]
				c.labels[len(c.labels)-1] = kind.name
				type ka struct{ kind, alg string }
				var kas []any
				for _, k := range joseKinds {
					for _, a := range joseKeyOf(k, 0).algs {
						if k != "RSA" || x.Thorough() || a == "PS256" || a == "RS512" {
							kas = append(kas, ka{k, a})
						}
					}
				}
				sel := Of(c, "key", kas...).(ka)
				good, other := joseKeyOf(sel.kind, 0), joseKeyOf(sel.kind, 1)
				types := []any{kind.typ}
				for _, k := range docKinds {
					if k.typ != kind.typ {
						types = append(types, k.typ)
					}
				}
				typ := DevOf(c, "typ", append(types, "JWT", "jwt", "", none, nil, 1, l(kind.typ), M{})...)
				algs := []any{sel.alg}
				for _, k := range joseKinds {
					for _, a := range joseKeyOf(k, 0).algs {
						if a != sel.alg {
							algs = append(algs, a)
						}
					}
				}
				algH := DevOf(c, "alg", append(algs, "none", "HS256", "HS384", "HS512", "", none, nil, "NONE", "ES256K", 5)...)
				kidH := DevOf[any](c, "kid", "k", none, "o", "unknown", "")
				how := DevOf(
					c, "signature", "right", "other key", "payload changed", "header changed", "empty", "cut", "longer", "HMAC with the public key",
					"HMAC with the public key document", "HMAC with nothing", "of another document", "DER", "other algorithm",
				)
				setH := DevOf(
					c, "key set", "right", "nil", "empty", "other with its key id", "other", "other, right", "right, other", "right without key id", "right with its algorithm", "right with another algorithm",
					"right for encryption", "symmetric", "symmetric, right", "right twice", "other with its key id, right",
					"symmetric with another key id, right", "right, symmetric with another key id", "unusable, right", "right, unusable", "every kind, right",
				)
				form := DevOf(
					c, "form", "compact", "flattened", "general", "general with other", "general with other first", "general with unsigned type", "flattened with unsigned type", "space before", "space after",
					"four parts", "two parts", "padded", "newline inside", "crit", "key in header", "detached",
				)
				c.Commit()

				hdr := M{}
				put := func(n string, v any) {
					if v != none {
						hdr[n] = v
					}
				}
				put("typ", typ)
				put("alg", algH)
				put("kid", kidH)
				right := with(good.jwk(), "kid", "k")
				foreign := with(other.jwk(), "kid", "o")
				secret := M{"kty": "oct", "k": b64([]byte("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef")), "kid": "k"}
				if form == "crit" {
					hdr["crit"] = l("x-unknown")
					hdr["x-unknown"] = true
				}
				if form == "key in header" {
					hdr["jwk"] = other.jwk()
				}
				var set []M
				switch setH {
				case "right":
					set = []M{right}
				case "other with its key id":
					set = []M{with(foreign, "kid", "k")}
				case "other":
					set = []M{foreign}
				case "other, right":
					set = []M{foreign, right}
				case "right, other":
					set = []M{right, foreign}
				case "right without key id":
					set = []M{good.jwk()}
				case "right with its algorithm":
					set = []M{with(right, "alg", sel.alg)}
				case "right with another algorithm":
					a := "ES256"
					if sel.alg == a {
						a = "ES384"
					}
					set = []M{with(right, "alg", a)}
				case "right for encryption":
					set = []M{with(right, "use", "enc")}
				case "symmetric":
					set = []M{secret}
				case "symmetric, right":
					set = []M{secret, right}
				case "right twice":
					set = []M{right, with(right, "kid", "k2")}
				case "symmetric with another key id, right":
					set = []M{with(secret, "kid", "s"), right}
				case "right, symmetric with another key id":
					set = []M{right, with(secret, "kid", "s")}
				case "unusable, right":
					set = []M{{"kty": "OKP", "crv": "Ed25519", "x": b64(make([]byte, 31)), "kid": "u"}, right}
				case "right, unusable":
					set = []M{right, {"kty": "OKP", "crv": "Ed25519", "x": b64(make([]byte, 31)), "kid": "u"}}
				case "every kind, right":
					for i, k := range joseKinds {
						set = append(set, with(joseKeyOf(k, 1).jwk(), "kid", fmt.Sprint("other ", i)))
					}
					set = append(set, right)
				case "other with its key id, right":
					set = []M{with(foreign, "kid", "k"), right}
				}
				lib, ok := parseSet(c, set...)
				if !ok {
					c.Outcome("keys not readable")
					return
				}
				if setH == "nil" {
					lib = jwks.JWKS{}
				}
				// the signature is made with the algorithm in the header where that is possible
				alg, _ := algH.(string)
				switch {
				case strings.HasPrefix(alg, "HS") || alg == "none":
				case slices.Contains(good.algs, alg):
				default:
					alg = sel.alg
				}
				if how == "other algorithm" && len(good.algs) > 1 {
					for _, a := range good.algs {
						if a != alg {
							alg = a
							break
						}
					}
				}
				signer := good
				var hm []byte
				switch how {
				case "other key":
					signer = other
				case "HMAC with the public key":
					switch p := good.priv.Public().(type) {
					case ed25519.PublicKey:
						hm = p
					default:
						der, _ := x509.MarshalPKIXPublicKey(p)
						hm = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
					}
				case "HMAC with the public key document":
					hm = []byte(jsonOf(right))
				case "right":
					hm, _ = base64.RawURLEncoding.DecodeString(secret["k"].(string))
				}
				if strings.HasPrefix(how, "HMAC") && !strings.HasPrefix(alg, "HS") {
					alg = "HS256"
				}
				p := jsonOf(kind.payload())
				h := b64([]byte(jsonOf(hdr)))
				in := h + "." + b64([]byte(p))
				sig := signer.sign(alg, in, hm)
				switch how {
				case "payload changed":
					p = jsonOf(with(kind.payload(), "iss", "https://evil"))
				case "header changed":
					h = b64([]byte(jsonOf(with(hdr, "x", 1))))
				case "empty":
					sig = nil
				case "cut":
					if len(sig) > 0 {
						sig = sig[:len(sig)-1]
					}
				case "longer":
					sig = append(sig, 0)
				case "of another document":
					sig = signer.sign(alg, h+"."+b64([]byte(jsonOf(docKinds[0].payload())+" ")), hm)
				case "DER":
					if strings.HasPrefix(alg, "ES") {
						n := len(sig) / 2
						sig = derOf(sig[:n], sig[n:])
					}
				}
				part := func(b string) string { return b64([]byte(b)) }
				in = h + "." + part(p)
				otherHdr := b64([]byte(jsonOf(M{"alg": sel.alg, "kid": "o", "typ": typ})))
				otherSig := other.sign(sel.alg, otherHdr+"."+part(p), nil)
				entry := M{"protected": h, "signature": b64(sig)}
				otherEntry := M{"protected": otherHdr, "signature": b64(otherSig)}
				var doc string
				switch form {
				default:
					doc = in + "." + b64(sig)
				case "flattened":
					doc = jsonOf(M{"payload": part(p), "protected": h, "signature": b64(sig)})
				case "general":
					doc = jsonOf(M{"payload": part(p), "signatures": []any{entry}})
				case "general with other":
					doc = jsonOf(M{"payload": part(p), "signatures": []any{entry, otherEntry}})
				case "general with other first":
					doc = jsonOf(M{"payload": part(p), "signatures": []any{otherEntry, entry}})
				case "general with unsigned type":
					nh := b64([]byte(jsonOf(with(hdr, "typ", absent))))
					e := M{"protected": nh, "signature": b64(signer.sign(alg, nh+"."+part(p), hm)), "header": M{"typ": kind.typ}}
					doc = jsonOf(M{"payload": part(p), "signatures": []any{e}})
				case "flattened with unsigned type":
					nh := b64([]byte(jsonOf(with(hdr, "typ", absent))))
					doc = jsonOf(M{"payload": part(p), "protected": nh, "signature": b64(signer.sign(alg, nh+"."+part(p), hm)), "header": M{"typ": kind.typ}})
				case "space before":
					doc = " " + in + "." + b64(sig)
				case "space after":
					doc = in + "." + b64(sig) + "\n"
				case "four parts":
					doc = in + "." + b64(sig) + "." + b64(sig)
				case "two parts":
					doc = in
				case "padded":
					doc = in + "." + base64.URLEncoding.EncodeToString(sig) + "="
				case "newline inside":
					doc = h + "." + part(p)[:5] + "\n" + part(p)[5:] + "." + b64(sig)
				case "detached":
					doc = h + ".." + b64(sig)
				}
				c.Step("document", c.labels)
				err := kind.accept([]byte(doc), lib)

				// what may be accepted
				verified := false
				for _, k := range set {
					for _, a := range append(good.algs, "EdDSA") { // an algorithm that the header does not tell is found by trying
						if joseVerify(k, a, in, sig) {
							verified = true
						}
					}
				}
				unkeyed := kind.name == "resolve response" // there are no expected keys
				may := typ == any(kind.typ) && (verified || unkeyed)
				switch form {
				case "flattened", "general":
				case "compact", "space before", "space after", "crit", "key in header", "padded", "newline inside":
				default:
					may = false
				}
				must := may && form == "compact" && how == "right" && algH == any(sel.alg) && kidH == any("k") && hasOf(setH, "right", "other, right", "right, other", "right with its algorithm", "right twice",
					"symmetric with another key id, right", "right, symmetric with another key id", "unusable, right", "right, unusable", "every kind, right")
				if err == nil && !may {
					c.Fail("a %s is accepted: %s", kind.name, strings.Join(c.labels, " "))
					return
				}
				if err != nil && must {
					c.Fail("a %s is refused with %v: %s", kind.name, err, strings.Join(c.labels, " "))
					return
				}
				if err == nil {
					c.Outcome("accepted")
				} else {
					c.Outcome("refused")
				}
			},
		)
		// what the library signs
		x.ExploreB(
			"signing", 0, func(c *C) {
				kindI := c.Choose(len(joseKinds), "key")
				k := joseKeyOf(joseKinds[kindI], 0)
				algName := Of(c, "algorithm", k.algs...)
				what := Of(c, "document", "entity statement", "trust mark", "delegation", "resolve response", "own type", "general")
				made := Of(c, "signer", "new", "derived")
				c.Commit()
				alg, ok := jwa.LookupSignatureAlgorithm(algName)
				if !ok {
					c.Fail("algorithm %s is unknown", algName)
					return
				}
				general := oidfed.NewGeneralJWTSigner(k.priv, alg)
				typ := ""
				var payload any = M{"iss": "https://x", "n": 1}
				for _, d := range docKinds {
					if d.name == what {
						typ = d.typ
						payload = d.payload()
					}
				}
				type signs interface{ JWT(any) ([]byte, error) }
				var s signs
				switch what {
				case "entity statement":
					s = oidfed.NewEntityStatementSigner(k.priv, alg)
					if made == "derived" {
						s = general.EntityStatementSigner()
					}
				case "trust mark":
					s = oidfed.NewTrustMarkSigner(k.priv, alg)
					if made == "derived" {
						s = general.TrustMarkSigner()
					}
				case "delegation":
					s = oidfed.NewTrustMarkDelegationSigner(k.priv, alg)
					if made == "derived" {
						s = general.TrustMarkDelegationSigner()
					}
				case "resolve response":
					s = oidfed.NewResolveResponseSigner(k.priv, alg)
					if made == "derived" {
						s = general.ResolveResponseSigner()
					}
				case "own type":
					typ = "x-own+jwt"
					s = general.Typed(typ)
				case "general":
					typ = "explicit-registration-response+jwt"
				}
				var doc []byte
				var err error
				if s == nil {
					doc, err = general.JWT(payload, typ)
				} else {
					doc, err = s.JWT(payload)
				}
				if err != nil {
					c.Fail("cannot sign a %s with %s: %v", what, algName, err)
					return
				}
				parts := strings.Split(string(doc), ".")
				if len(parts) != 3 {
					c.Fail("not a compact JWS: %s", doc)
					return
				}
				hb, _ := base64.RawURLEncoding.DecodeString(parts[0])
				pb, _ := base64.RawURLEncoding.DecodeString(parts[1])
				sb, _ := base64.RawURLEncoding.DecodeString(parts[2])
				var h M
				_ = json.Unmarshal(hb, &h)
				want := M{"alg": algName, "kid": k.thumbprint(), "typ": typ}
				if jsonOf(h) != jsonOf(want) {
					c.Fail("the header of a %s is %s, not %s", what, hb, jsonOf(want))
					return
				}
				if jsonOf(genericJSON(pb)) != jsonOf(payload) {
					c.Fail("the payload of a %s is %s, not %s", what, pb, jsonOf(payload))
					return
				}
				pub := genericJSON([]byte(jsonOf(general.JWKS()))).(map[string]any)
				ks, _ := pub["keys"].([]any)
				if len(pub) != 1 || len(ks) != 1 {
					c.Fail("the published keys are %s", jsonOf(pub))
					return
				}
				wantKey := with(k.jwk(), "kid", k.thumbprint(), "alg", algName, "use", "sig")
				if jsonOf(ks[0]) != jsonOf(wantKey) {
					c.Fail("the published key is %s, not %s", jsonOf(ks[0]), jsonOf(wantKey))
					return
				}
				if !joseVerify(k.jwk(), algName, parts[0]+"."+parts[1], sb) {
					c.Fail("the signature of a %s with %s does not verify", what, algName)
					return
				}
				c.Step("signed", c.labels)
				// accepted as its own kind with the published keys only
				for _, d := range docKinds {
					err := d.accept(doc, general.JWKS())
					if own := d.name == what; (err == nil) != own {
						c.Fail("a %s signed by the library with %s is accepted as %s: %v (%v)", what, algName, d.name, err == nil, err)
						return
					}
					if d.name == "resolve response" {
						continue
					}
					for _, o := range joseKinds {
						for n := 0; n < 2; n++ {
							ok := joseKeyOf(o, n)
							for _, a := range ok.algs[:1] {
								if ok.name == k.name {
									continue
								}
								wrong, _ := jwa.LookupSignatureAlgorithm(a)
								sets := []jwks.JWKS{oidfed.NewGeneralJWTSigner(ok.priv, wrong).JWKS()}
								if s, good := parseSet(c, with(ok.jwk(), "kid", k.thumbprint())); good {
									sets = append(sets, s)
								}
								for _, set := range sets {
									if d.accept(doc, set) == nil {
										c.Fail("a %s signed with %s is accepted with key %s", what, k.name, ok.name)
										return
									}
								}
							}
						}
					}
				}
				// and in the place of a key set with others
				both := general.JWKS()
				o := joseKeyOf("P-256", 1)
				oa, _ := jwa.LookupSignatureAlgorithm("ES256")
				ok2, _ := oidfed.NewGeneralJWTSigner(o.priv, oa).JWKS().Key(0)
				_ = both.AddKey(ok2)
				for _, d := range docKinds {
					if d.name == what && d.accept(doc, both) != nil {
						c.Fail("a %s is refused when there is another key", what)
						return
					}
				}
				c.Outcome("signed and verified")
			},
		)
		_ = time.Second
	}
}

func derOf(r, s []byte) []byte {
	enc := func(b []byte) []byte {
		for len(b) > 1 && b[0] == 0 {
			b = b[1:]
		}
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	body := append(enc(r), enc(s)...)
	if len(body) > 127 {
		return append([]byte{0x30, 0x81, byte(len(body))}, body...)
	}
	return append([]byte{0x30, byte(len(body))}, body...)
}

func hasOf(v string, in ...string) bool { return slices.Contains(in, v) }
