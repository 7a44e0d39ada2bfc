package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	nethttp "net/http"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/jwks"
)

// C10: whatever a remote party sends, the library does not panic or loop. The
// federation: the OP L below I below T, the trust mark issuer X below T, the
// trust mark owner O outside; T has resolve and collection endpoints.

// crDoc is a document of a remote party.
type crDoc struct {
	name    string
	key     string // signing key, "" for a JSON document
	typ     string
	payload any
	raw     []byte // replaces the document
	resp    *Resp  // replaces the answer
}

type crWorld struct {
	c        *C
	f        *Fed
	docs     map[string]*crDoc
	quick    bool // the small battery
	coldOnly bool // no second battery
}

func (w *crWorld) doc(name, key, typ string, payload any) *crDoc {
	d := &crDoc{name: name, key: key, typ: typ, payload: generic(payload)}
	w.docs[name] = d
	return d
}

func (d *crDoc) bytes() []byte {
	switch {
	case d.raw != nil:
		return d.raw
	case d.key == "":
		b, _ := json.Marshal(d.payload)
		return b
	default:
		return signJWT(d.key, d.typ, d.payload)
	}
}

func (d *crDoc) answer() *Resp {
	if d.resp != nil {
		return d.resp
	}
	if d.key == "" {
		return &Resp{CT: "application/json", Body: d.bytes()}
	}
	return &Resp{CT: "application/" + d.typ, Body: d.bytes()}
}

const esTyp = "entity-statement+jwt"

// crPolicies is a policy with every operator on parameters of every type.
func crPolicies() M {
	return M{
		"openid_provider": M{
			"issuer":                      M{"one_of": l("https://l.example.org", "b"), "essential": true},
			"token_endpoint":              M{"value": "https://l.example.org/token"},
			"scopes_supported":            M{"subset_of": l("openid", "email", "x"), "superset_of": l("openid"), "add": l("x")},
			"op_policy_uri":               M{"default": "https://p"},
			"claims_parameter_supported":  M{"value": true},
			"request_parameter_supported": M{"default": true},
			"mtls_endpoint_aliases":       M{"essential": false},
			"x_custom":                    M{"one_of": []any{1.0, "a"}, "default": 1.0},
			"request_authentication_methods_supported": M{"default": M{"a": l("b")}},
		},
		"openid_relying_party": M{"scope": M{"subset_of": l("openid", "email"), "default": "openid"}, "default_max_age": M{"default": 3.0}},
		"x_type":               M{"p": M{"add": l("z"), "subset_of": l("q", "z")}, "n": M{"value": nil}},
	}
}

func newCrWorld(c *C) *crWorld {
	f := newFed()
	w := &crWorld{c: c, f: f, docs: map[string]*crDoc{}}
	id := f.ID
	iat, exp := t0.Add(-time.Hour).Unix(), t0.Add(2*time.Hour).Unix()
	w.doc(
		"delegation", "O", "trust-mark-delegation+jwt",
		M{"iss": id("O"), "sub": id("X"), "trust_mark_type": tmType, "iat": iat, "exp": exp, "ref": "https://r", "x": 1},
	)
	w.doc(
		"mark", "X", "trust-mark+jwt", M{
			"iss": id("X"), "sub": id("L"), "trust_mark_type": tmType, "iat": iat, "exp": exp, "logo_uri": "https://x/l", "ref": "https://r",
			"delegation": "", "x": 1,
		},
	)
	w.doc(
		"ecL", "L", esTyp, M{
			"iss": id("L"), "sub": id("L"), "iat": iat, "exp": exp, "jwks": jwksOf("L"), "authority_hints": l(id("I")),
			"crit": l("x"), "aud": "https://aud", "x_claim": M{"a": []any{1.0}},
			"metadata": M{
				"openid_provider": M{
					"issuer": id("L"), "authorization_endpoint": id("L") + "/auth", "token_endpoint": id("L") + "/token",
					"scopes_supported": l("openid", "email"), "response_types_supported": l("code"), "subject_types_supported": l("pairwise"),
					"grant_types_supported": l("authorization_code"), "client_registration_types_supported": l("automatic", "explicit"),
					"claims_parameter_supported": false, "mtls_endpoint_aliases": M{"a": "b"}, "x_custom": 1.0,
					"request_authentication_methods_supported": M{"ar": l("x")}, "jwks": jwksOf("K1"), "display_name": "L name",
					"keywords": l("k"), "logo_uri": "https://logo",
				},
				"openid_relying_party": M{
					"redirect_uris": l("https://rp"), "client_name": "c", "scope": "openid email", "default_max_age": 5.0, "require_auth_time": true,
					"contacts": l("c"), "client_registration_types": l("automatic"),
				},
				"oauth_authorization_server": M{"issuer": "x"}, "oauth_client": M{"client_name": "x"},
				"oauth_resource":    M{"resource": "r", "resource_encryption_alg_values_supported": l("a")},
				"federation_entity": M{"organization_name": "org", "contacts": l("c")},
				"x_type":            M{"p": l("q"), "n": nil},
			},
			"trust_marks": []any{M{"trust_mark_type": tmType, "trust_mark": "", "x": 1}},
		},
	)
	w.doc(
		"ecI", "I", esTyp, M{
			"iss": id("I"), "sub": id("I"), "iat": iat, "exp": exp, "jwks": jwksOf("I"), "authority_hints": l(id("T")),
			"metadata": M{"federation_entity": M{"federation_fetch_endpoint": id("I") + "/fetch", "federation_list_endpoint": id("I") + "/list"}},
		},
	)
	w.doc(
		"ecX", "X", esTyp, M{
			"iss": id("X"), "sub": id("X"), "iat": iat, "exp": exp, "jwks": jwksOf("X"), "authority_hints": l(id("T")),
			"metadata": M{"federation_entity": M{"federation_trust_mark_endpoint": id("X") + "/tm"}},
		},
	)
	w.doc(
		"ecT", "T", esTyp, M{
			"iss": id("T"), "sub": id("T"), "iat": iat, "exp": exp, "jwks": jwksOf("T"),
			"metadata": M{
				"federation_entity": M{
					"federation_fetch_endpoint": id("T") + "/fetch", "federation_list_endpoint": id("T") + "/list",
					"federation_resolve_endpoint": id("T") + "/resolve", "federation_collection_endpoint": id("T") + "/collect",
				},
			},
			"trust_mark_issuers": M{tmType: l(id("X"))},
			"trust_mark_owners":  M{tmType: M{"sub": id("O"), "jwks": jwksOf("O")}},
		},
	)
	ss := func(iss, sub string, more M) M {
		p := M{"iss": id(iss), "sub": id(sub), "iat": iat, "exp": exp, "jwks": jwksOf(sub), "source_endpoint": id(iss) + "/fetch"}
		for k, v := range more {
			p[k] = v
		}
		return p
	}
	w.doc(
		"ssI", "T", esTyp, ss(
			"T", "I", M{
				"metadata_policy": crPolicies(), "metadata_policy_crit": l("one_of"),
				"constraints": M{
					"max_path_length": 3, "allowed_entity_types": append(toAny(allTypes()), "x_type"),
					"naming_constraints": M{"permitted": l(".example.org"), "excluded": l("bad.example.org")},
				},
			},
		),
	)
	w.doc(
		"ssL", "I", esTyp, ss(
			"I", "L", M{
				"metadata_policy": M{
					"openid_provider": M{"scopes_supported": M{"subset_of": l("openid", "x"), "add": l("x")}, "token_endpoint": M{"value": "https://l.example.org/token"}},
					"x_type":          M{"p": M{"add": l("z")}},
				},
				"constraints": M{"max_path_length": 0},
			},
		),
	)
	w.doc("ssX", "T", esTyp, ss("T", "X", nil))
	w.doc("listT", "", "", l(id("I"), id("X")))
	w.doc("listI", "", "", l(id("L")))
	w.doc(
		"resolve", "T", "resolve-response+jwt", M{
			"iss": id("T"), "sub": id("L"), "iat": iat, "exp": exp,
			"metadata":    M{"openid_provider": M{"issuer": id("L"), "authorization_endpoint": id("L") + "/auth", "token_endpoint": id("L") + "/token"}, "x_type": M{}},
			"trust_marks": []any{M{"trust_mark_type": tmType, "trust_mark": "a.b.c"}},
			"trust_chain": l("-", "-", "-"), "x": 1,
		},
	)
	w.doc(
		"collection", "", "", M{
			"federation_entities": []any{
				M{
					"entity_id": id("L"), "entity_types": l("openid_provider"), "trust_marks": []any{M{"trust_mark_type": tmType, "trust_mark": "a.b.c"}},
					"trust_chain": l(), "ui_infos": M{"openid_provider": M{"display_name": "x", "keywords": l("k"), "x": 1}}, "x": 1,
				},
				M{"entity_id": id("I")},
			},
			"next_entity_id": "x", "last_updated": iat, "x": 1,
		},
	)
	w.doc("token", "", "", M{"access_token": "a", "token_type": "b", "expires_in": 1, "refresh_token": "r", "scope": "s", "id_token": "i", "x": 1})
	w.doc("error", "", "", M{"error": "invalid_trust_chain", "error_description": "d"})
	return w
}

func toAny(ss []string) []any {
	var out []any
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

func allTypes() []string {
	var out []string
	for _, t := range entityTypes() {
		out = append(out, t.tag)
	}
	return out
}

// install puts the documents together and serves them; it is called after the
// mutation.
func (w *crWorld) install() *Net {
	id := w.f.ID
	at := func(v any, path ...any) (any, bool) {
		for _, p := range path {
			switch k := p.(type) {
			case string:
				m, ok := v.(M)
				if !ok {
					return nil, false
				}
				if v, ok = m[k]; !ok {
					return nil, false
				}
			case int:
				s, ok := v.([]any)
				if !ok || k >= len(s) {
					return nil, false
				}
				v = s[k]
			}
		}
		return v, true
	}
	if v, ok := at(w.docs["mark"].payload, "delegation"); ok && v == "" {
		w.docs["mark"].payload.(M)["delegation"] = string(w.docs["delegation"].bytes())
	}
	if v, ok := at(w.docs["ecL"].payload, "trust_marks", 0); ok {
		if m, ok := v.(M); ok && m["trust_mark"] == "" {
			m["trust_mark"] = string(w.docs["mark"].bytes())
		}
	}
	if v, ok := at(w.docs["resolve"].payload, "trust_chain"); ok {
		if s, ok := v.([]any); ok {
			for i, name := range []string{"ecL", "ssL", "ecT"} {
				if i < len(s) && s[i] == "-" {
					s[i] = string(w.docs[name].bytes())
				}
			}
		}
	}
	n := newNet()
	n.Budget = 3000
	serve := func(u, name string) {
		n.set(u, func(*nethttp.Request) *Resp { return w.docs[name].answer() })
	}
	for _, e := range []string{"L", "I", "X", "T"} {
		serve(id(e)+"/.well-known/openid-federation", "ec"+e)
	}
	for _, e := range []string{"I", "T"} {
		e := e
		n.set(
			id(e)+"/fetch", func(r *nethttp.Request) *Resp {
				for _, s := range []string{"I", "L", "X"} {
					if r.URL.Query().Get("sub") == id(s) && (e == "I") == (s == "L") {
						return w.docs["ss"+s].answer()
					}
				}
				return w.docs["error"].answerErr(404)
			},
		)
		serve(id(e)+"/list", "list"+e)
	}
	serve(id("T")+"/resolve", "resolve")
	serve(id("T")+"/collect", "collection")
	serve(id("X")+"/tm", "mark")
	n.set(id("L")+"/token", func(*nethttp.Request) *Resp { return w.docs["token"].answer() })
	n.set("https://err.example.org/x", func(*nethttp.Request) *Resp { return w.docs["error"].answerErr(400) })
	return n
}

func (d *crDoc) answerErr(status int) *Resp {
	r := *d.answer()
	if d.resp == nil {
		r.Status = status
	}
	return &r
}

type crMut struct {
	path []any
	val  any // absent deletes
	add  bool
}

// crPaths lists all nodes of a JSON document.
func crPaths(v any, prefix []any, f func(path []any)) {
	f(append([]any{}, prefix...))
	switch t := v.(type) {
	case map[string]any:
		for _, k := range keysOf(t) {
			crPaths(t[k], append(prefix, k), f)
		}
	case []any:
		for i := range t {
			crPaths(t[i], append(prefix, i), f)
		}
	}
}

func crNode(v any, path []any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			v = v.(M)[k]
		case int:
			v = v.([]any)[k]
		}
	}
	return v
}

// crSet returns the document with the node replaced.
func crSet(v any, path []any, val any) any {
	if len(path) == 0 {
		return val
	}
	switch k := path[0].(type) {
	case string:
		m, ok := v.(M)
		if !ok {
			return v
		}
		out := M{}
		for kk, vv := range m {
			out[kk] = vv
		}
		if len(path) == 1 && val == any(absent) {
			delete(out, k)
		} else {
			old, found := m[k]
			if !found && len(path) > 1 {
				return v
			}
			out[k] = crSet(old, path[1:], val)
		}
		return out
	case int:
		s, ok := v.([]any)
		if !ok || k > len(s) {
			return v
		}
		out := append([]any{}, s...)
		switch {
		case k == len(s):
			out = append(out, val)
		case len(path) == 1 && val == any(absent):
			out = append(out[:k], out[k+1:]...)
		default:
			out[k] = crSet(s[k], path[1:], val)
		}
		return out
	}
	return v
}

func nested(n int) any {
	var v any = "x"
	for range n {
		v = []any{v}
	}
	return v
}

func nestedMap(n int) any {
	var v any = "x"
	for range n {
		v = M{"x": v}
	}
	return v
}

var crValues = []any{
	any(absent), nil, "", "x", "https://t.example.org", 0.0, 1e300, true, []any{}, []any{nil}, []any{"openid"}, []any{1.0}, M{}, M{"": nil}, M{"x": M{}},
}

var crMoreValues = append(
	slices.Clone(crValues), "a b", -1.0, 1.5, []any{""}, []any{[]any{}}, []any{M{}}, M{"x": []any{nil}}, M{"keys": []any{}},
)

// crKeys are odd key sets.
func crKeys() []any {
	k := func(kv ...any) any { return M{"keys": []any{with(jwkOf("L"), kv...)}} }
	one := func(m M) any { return M{"keys": []any{m}} }
	return []any{
		k("kty", "RSA"), k("kty", "EC"), k("kty", "oct"), k("kty", "XX"), k("crv", "X25519"), k("crv", "P-256"), k("x", ""), k("x", "AA"), k("x", "!!"), k("d", "AA"),
		k("alg", 1.0), k("alg", "none"), k("alg", "HS256"), k("alg", "XX"), k("kid", 1.0), k("kid", nil), k("use", "enc"), k("use", 1.0), k("key_ops", "x"), k("key_ops", l("verify")),
		k("x5c", l("AA")), k("x5u", 1.0), k("x5t", "x"), one(M{"kty": "oct", "k": "AA", "kid": "kid-L"}), one(M{"kty": "oct", "k": ""}),
		one(M{"kty": "RSA", "n": "AQ", "e": "AQ", "kid": "kid-L"}), one(M{"kty": "RSA", "n": "", "e": ""}), one(M{"kty": "RSA", "n": "AQAB", "e": "AAAA"}),
		one(M{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "kid": "kid-L"}), one(M{"kty": "EC", "crv": "P-999", "x": "AA", "y": "AA"}), one(with(ecJWK, "kid", "kid-L")),
		M{"keys": []any{jwkOf("L"), jwkOf("L")}}, M{"keys": []any{jwkOf("L"), nil}}, M{"keys": nil}, M{"keys": M{}}, jwkOf("L"), []any{jwkOf("L")}, "x",
	}
}

// crJWTs are odd JWTs made from a good one.
func crJWTs(good []byte) [][]byte {
	p := strings.Split(string(good), ".")
	h := func(s string) string { return b64([]byte(s)) }
	out := []string{
		"", ".", "..", "...", "....", "a", "a.b", "a.b.c", "a.b.c.d.e", p[0], p[0] + ".", p[0] + "..", p[0] + "." + p[1], p[0] + "." + p[1] + ".", p[0] + ".." + p[2],
		"." + p[1] + "." + p[2], p[0] + "." + p[1] + "." + p[2] + ".", p[0] + "." + p[1] + "." + p[2] + "\n", " " + string(good), string(good) + "=", "\x00\xff",
		p[0] + "." + p[1] + "." + p[2][:4], string(good) + string(good),
	}
	for _, hd := range []string{
		"", "null", "[]", "{}", `""`, "1", "{", `{"alg":null}`, `{"alg":"none"}`, `{"alg":5}`, `{"alg":"EdDSA","typ":5}`, `{"alg":"EdDSA","typ":null}`, `{"alg":"EdDSA","kid":5}`,
		`{"alg":"EdDSA","jwk":{}}`, `{"alg":"EdDSA","jwk":null}`, `{"alg":"EdDSA","crit":["x"]}`, `{"alg":"EdDSA","crit":"x"}`, `{"alg":"EdDSA","b64":false,"crit":["b64"]}`, `{"alg":"EdDSA","b64":5}`,
		`{"alg":"EdDSA","x5c":[null]}`, `{"alg":"HS256","typ":"entity-statement+jwt"}`, `{"alg":"EdDSA","typ":"entity-statement+jwt","kid":""}`, `{"alg":"","typ":"entity-statement+jwt"}`,
	} {
		out = append(out, h(hd)+"."+p[1]+"."+p[2])
	}
	pl := p[1]
	out = append(
		out, `{"payload":"`+pl+`","signatures":[]}`, `{"payload":"`+pl+`","signatures":null}`, `{"payload":"`+pl+`"}`, `{"payload":"`+pl+`","signatures":[{}]}`,
		`{"payload":"`+pl+`","signatures":[null]}`, `{"payload":"`+pl+`","signatures":[{"protected":"`+p[0]+`"}]}`, `{"payload":"`+pl+`","signature":"`+p[2]+`"}`,
		`{"payload":"`+pl+`","protected":"`+p[0]+`","signature":"`+p[2]+`"}`, `{"payload":"`+pl+`","signatures":[{"protected":"`+p[0]+`","signature":"`+p[2]+`"}]}`, `{"payload":null}`,
		`{}`, `null`, `[]`, `"x"`, `{`, "<html></html>",
	)
	var bs [][]byte
	for _, s := range out {
		bs = append(bs, []byte(s))
	}
	return bs
}

// crPayloads are payloads that are no JSON objects.
var crPayloads = []string{"", "null", "[]", "1", `"x"`, "{", "{}", "{}x", "\xff", `{"iss":`, `{"iss":"https://l.example.org","iss":1}`, strings.Repeat("[", 9000), strings.Repeat(`{"a":`, 9000), strings.Repeat("[", 11000) + strings.Repeat("]", 11000)}

// crResps are odd answers.
func crResps(d *crDoc) []*Resp {
	body := d.bytes()
	js := "application/json"
	return []*Resp{
		{Body: []byte{}}, {Body: []byte("null"), CT: js}, {Body: []byte("[]"), CT: js}, {Body: []byte("{}"), CT: js}, {Body: []byte("{"), CT: js}, {Body: []byte(`"x"`), CT: js},
		{Body: []byte("x"), CT: js}, {Body: body, CT: js}, {Body: body, CT: "text/html"}, {Body: body, CT: "application/xml"}, {Body: body, CT: "\x00"}, {Body: body, Status: 204},
		{Body: nil, Status: 204}, {Body: body, Status: 302}, {Body: body, Status: 304}, {Body: body, Status: 199}, {Body: body, Status: 500, CT: js}, {Body: []byte("null"), Status: 500, CT: js},
		{Body: []byte("[]"), Status: 400, CT: js}, {Body: []byte("{}"), Status: 400, CT: js}, {Body: []byte(`{"error":5}`), Status: 400, CT: js}, {Body: []byte(`{"error":null,"error_description":{}}`), Status: 400, CT: js},
		{Body: []byte(`{"error":"invalid_metadata"}`), Status: 400, CT: js}, {Body: []byte(`{"error":"invalid_subject"}`), Status: 404, CT: js}, {Body: []byte(`{"error":"x"}`), Status: 200, CT: js},
		{Body: nil, Status: 500}, {Body: body, Status: 999}, {Err: errors.New("refused")}, {Body: body, BodyErr: errors.New("reset")}, {Body: []byte(strings.Repeat("a", 1<<18))},
		{Body: []byte(strings.Repeat("[", 200000)), CT: js}, {Status: 302, Hdr: map[string]string{"Location": "self"}}, {Status: 302, Hdr: map[string]string{"Location": "::"}},
		{Status: 302, Hdr: map[string]string{"Location": "https://t.example.org/list"}}, {Body: []byte("\x1f\x8b"), Hdr: map[string]string{"Content-Encoding": "gzip"}},
		{Body: body, Hdr: map[string]string{"Content-Encoding": "gzip"}}, {Body: body, CT: "application/xml", Status: 400},
	}
}

// crOps are the groups of operations that read a document.
func crOps(full bool, doc string) string {
	if full {
		return "cmrlRsxCVSUot"
	}
	switch doc {
	case "ecL":
		return "cmrlCVo"
	case "ssI", "ssL", "ecI":
		return "cmrlCo"
	case "ecX", "ssX", "mark", "delegation":
		return "cmlCt"
	case "ecT":
		return "cmrlRCVSo"
	case "listT", "listI":
		return "CV"
	case "collection":
		return "SU"
	case "resolve":
		return "RUs"
	case "token":
		return "o"
	default:
		return "xCVto"
	}
}

// battery runs the operations that read remote documents and returns what came
// out, coarsely.
func (w *crWorld) battery(ops string) string {
	var sb strings.Builder
	id := w.f.ID
	op := func(name string, ok bool) {
		if ok {
			sb.WriteString("+" + name)
			return
		}
		sb.WriteString("-" + name)
	}
	has := func(o string) bool { return strings.Contains(ops, o) }
	enc := func(v any) bool { _, err := json.Marshal(v); return err == nil }
	// entity configurations and what they contain
	var ta *oidfed.EntityStatement
	for _, e := range []string{"T", "L", "I", "X"} {
		if !has("c") {
			break
		}
		s, err := oidfed.GetEntityConfiguration(id(e))
		op("ec"+e, err == nil)
		if err != nil {
			continue
		}
		if e == "T" {
			ta = s
		}
		enc(s.EntityStatementPayload)
		s.Verify(s.JWKS)
		s.Verify(jwks.JWKS{})
		s.TimeValid()
		if md := s.Metadata; md != nil {
			md.GuessEntityTypes()
			md.GuessDisplayNames()
			md.IterateStringClaim("logo_uri", func(string, string) {})
			md.IterateStringSliceClaim("keywords", func(string, []string) {})
			var op oidfed.OpenIDProviderMetadata
			_ = md.FindEntityMetadata("openid_provider", &op)
			var fe oidfed.FederationEntityMetadata
			_ = md.FindEntityMetadata("federation_entity", &fe)
			var m map[string]any
			_ = md.FindEntityMetadata("x_type", &m)
			var xt struct {
				P []string
				N int
			}
			_ = md.FindEntityMetadata("x_type", &xt)
			_ = md.FindEntityMetadata("none", &m)
		}
		for i := range s.TrustMarks {
			if !has("m") {
				break
			}
			tm := &s.TrustMarks[i]
			if ta != nil {
				op("vf", tm.VerifyFederation(&ta.EntityStatementPayload) == nil)
			}
			_ = tm.VerifyFederation(&s.EntityStatementPayload)
			op("ve", tm.VerifyExternal(libJWKS("X"), oidfed.TrustMarkOwnerSpec{ID: id("O"), JWKS: libJWKS("O")}) == nil)
			_ = tm.VerifyExternal(s.JWKS)
			mark, err := tm.TrustMark()
			if err != nil {
				continue
			}
			enc(mark)
			d, err := mark.Delegation()
			op("d", err == nil && d != nil)
			if err == nil && d != nil {
				enc(d)
				_ = d.VerifyExternal(libJWKS("O"))
				_ = d.VerifyExternal(jwks.JWKS{})
				if ta != nil {
					op("dv", d.VerifyFederation(&ta.EntityStatementPayload) == nil)
				}
			}
		}
		s.TrustMarks.FindByID(tmType)
		s.TrustMarks.VerifiedExternal(s.JWKS)
		cfg := &oidfed.EntityConfigurationTrustMarkConfig{Refresh: true}
		if len(s.TrustMarks) > 0 {
			cfg.JWT = s.TrustMarks[0].TrustMarkJWT
			op("cfg", cfg.Verify(id(e), "", nil) == nil)
			_, err = cfg.TrustMarkJWT()
			op("cfgj", err == nil)
		}
	}
	// resolution
	if has("r") {
		anchors := [][]oidfed.TrustAnchor{oidfed.NewTrustAnchorsFromEntityIDs(id("T"))}
		if ta != nil {
			anchors = append(anchors, []oidfed.TrustAnchor{{EntityID: id("T"), JWKS: ta.JWKS}})
		}
		for i, a := range anchors {
			var types []string
			if i == 1 {
				types = []string{"openid_provider", "x_type"}
			}
			r := oidfed.TrustResolver{TrustAnchors: a, StartingEntity: id("L"), Types: types}
			chains := r.ResolveToValidChainsWithoutVerifyingMetadata()
			valid := chains.Filter(oidfed.TrustChainsFilterValidMetadata, oidfed.TrustChainsFilterMinPathLength, oidfed.TrustChainsFilterTrustAnchor(id("T")))
			op(fmt.Sprint("res", i), len(valid) > 0)
			for _, ch := range chains.SortAsc(oidfed.TrustChainScoringPathLen) {
				md, err := ch.Metadata()
				if err == nil {
					enc(md)
				}
				enc(ch.Messages())
				enc(ch.ExpiresAt())
			}
		}
	}
	rr := apimodel.ResolveRequest{Subject: id("L"), TrustAnchor: []string{id("T")}}
	resolver := func(name string, res oidfed.MetadataResolver) {
		md, err := res.Resolve(rr)
		op("R"+name, err == nil)
		if err == nil {
			enc(md)
		}
		p, err := res.ResolveResponsePayload(rr)
		if err == nil {
			enc(p)
		}
		ok, _ := res.ResolvePossible(rr)
		op("P"+name, ok)
	}
	if has("l") {
		resolver("local", oidfed.LocalMetadataResolver{})
	}
	if has("R") {
		resolver("remote", oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: id("T") + "/resolve"})
		resolver("smart", oidfed.SmartRemoteMetadataResolver{})
	}
	if has("x") {
		resolver("err", oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: "https://err.example.org/x"})
		oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: "https://err.example.org/x"}.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: id("T")})
	}
	// trust mark issuer asked for a mark
	if has("t") {
		cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: tmType, TrustMarkIssuer: id("X"), Refresh: true}
		if err := cfg.Verify(id("L"), "", nil); err == nil {
			_, err = cfg.TrustMarkJWT()
			op("tm", err == nil)
		}
	}
	// collection
	show := func(name string, es []*oidfed.CollectedEntity) {
		op(name, len(es) > 0)
		for _, e := range es {
			enc(e)
		}
	}
	ids := []string{id("T")}
	filters := []oidfed.EntityCollectionFilter{
		oidfed.EntityCollectionFilterOPs(), oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(ids, "authorization_code"),
		oidfed.EntityCollectionFilterOPSupportedScopesIncludes(ids, "openid"), oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(ids),
		oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(ids),
	}
	req := apimodel.EntityCollectionRequest{TrustAnchor: id("T")}
	collect := func() {
		if has("C") {
			r := req
			r.Claims = []string{
				"entity_types", "display_name", "description", "keywords", "logo_uri", "policy_uri", "information_uri", "metadata", "trust_chain", "trust_marks",
			}
			show("coll", (&oidfed.SimpleEntityCollector{}).CollectEntities(r))
			r.Claims, r.TrustMarkTypes, r.NameQuery, r.EntityTypes = nil, []string{tmType}, "name", []string{"openid_provider", "x_type"}
			show("collf", (&oidfed.SimpleEntityCollector{}).CollectEntities(r))
		}
		if has("V") {
			show("collv", oidfed.FilterableVerifiedChainsEntityCollector{Filters: filters}.CollectEntities(req))
		}
	}
	smart := oidfed.SmartRemoteEntityCollector{TrustAnchors: []string{id("T"), id("I")}}
	if has("S") {
		show("smart", smart.CollectEntities(req))
		show("remote", oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: id("T") + "/collect"}.CollectEntities(req))
	}
	login := func() {
		signer := oidfed.NewEntityStatementSigner(edKey("R"), jwa.EdDSA())
		rp, err := oidfed.NewFederationLeaf(
			id("R"), []string{id("T")}, oidfed.NewTrustAnchorsFromEntityIDs(id("T")), &oidfed.Metadata{}, signer, 1000, edKey("R2"), jwa.EdDSA(), nil,
		)
		if err != nil {
			panic(err)
		}
		_, err = rp.GetAuthorizationURL(id("L"), "https://r/cb", "s", "openid", url.Values{"nonce": {"n"}})
		op("auth", err == nil)
		tok, terr, err := rp.CodeExchange(id("L"), "code", "https://r/cb", nil)
		op("code", err == nil && terr == nil)
		enc(tok)
	}
	collect()
	if has("o") {
		login()
	}
	if has("U") {
		oidfed.DefaultMetadataResolver = oidfed.SmartRemoteMetadataResolver{}
		defer func() { oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{} }()
		show("collvs", oidfed.FilterableVerifiedChainsEntityCollector{Collector: smart, Filters: filters}.CollectEntities(req))
		if has("s") {
			r := req
			r.Claims = []string{"metadata", "trust_chain", "trust_marks"}
			show("colls", (&oidfed.SimpleEntityCollector{}).CollectEntities(r))
			login()
		}
	}
	return sb.String()
}

// run executes the battery on a cold and a warm cache.
func (w *crWorld) run(doc, what string) {
	defer func() { oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{} }()
	newMemCache()
	n := w.install()
	ops := crOps(w.c.x.Thorough() && !w.quick, doc)
	r1 := w.battery(ops)
	synctest.Wait()
	if w.coldOnly {
		time.Sleep(time.Minute)
		synctest.Wait()
		w.c.Step(what, r1)
		w.c.Outcome(fmt.Sprintf("%d of %d operations succeed", strings.Count(r1, "+"), strings.Count(r1, "+")+strings.Count(r1, "-")))
		return
	}
	time.Sleep(90 * time.Minute) // into the grace period: refreshes in the background
	n.mu.Lock()
	n.Log = nil
	n.mu.Unlock()
	if !w.c.x.Thorough() || w.quick {
		ops = strings.Map(
			func(r rune) rune {
				if strings.ContainsRune("orlCRS", r) {
					return -1
				}
				return r
			}, ops,
		) // not V, which resolves too
	}
	r2 := w.battery(ops)
	time.Sleep(time.Minute)
	synctest.Wait()
	w.c.Step(what, r1, r2)
	w.c.Outcome(fmt.Sprintf("%d of %d operations succeed", strings.Count(r1, "+"), strings.Count(r1, "+")+strings.Count(r1, "-")))
}

var crNames = []string{
	"ecL", "ecI", "ecX", "ecT", "ssI", "ssL", "ssX", "mark", "delegation", "listT", "listI", "resolve", "collection", "token", "error",
}

func pathName(p []any) string {
	s := ""
	for _, e := range p {
		s += "." + fmt.Sprint(e)
	}
	if s == "" {
		return "."
	}
	return s
}

// crMutations lists the mutations of a document.
func crMutations(d *crDoc, vals []any, full bool) []crMut {
	var out []crMut
	crPaths(
		d.payload, nil, func(path []any) {
			for _, v := range vals {
				if len(path) == 0 && v == any(absent) {
					continue
				}
				out = append(out, crMut{path: path, val: v})
			}
			if !full {
				return
			}
			out = append(out, crMut{path: path, val: nested(60)}, crMut{path: path, val: nestedMap(60)})
			switch t := crNode(d.payload, path).(type) {
			case map[string]any:
				for _, v := range vals[1:] {
					out = append(out, crMut{path: append(slices.Clone(path), "zz"), val: v})
				}
			case []any:
				for _, v := range vals[1:] {
					out = append(out, crMut{path: append(slices.Clone(path), len(t)), val: v})
				}
				if len(t) > 0 {
					out = append(out, crMut{path: append(slices.Clone(path), len(t)), val: t[0]})
				}
			}
			if len(path) > 0 && (path[len(path)-1] == "jwks" || path[len(path)-1] == "x_claim") {
				for _, v := range crKeys() {
					out = append(out, crMut{path: path, val: v})
				}
			}
		},
	)
	return out
}

var crMemo = map[string][]crMut{}

func crMutationsOf(name string, vals []any, full bool) []crMut {
	key := name + strconv.FormatBool(full)
	if m, ok := crMemo[key]; ok {
		return m
	}
	w := newCrWorld(nil)
	m := crMutations(w.docs[name], vals, full)
	crMemo[key] = m
	return m
}

func exploreCrash(x *X) {
	// one mutation anywhere
	x.ExploreB(
		"one mutation", 99, func(c *C) {
			name := Of(c, "document", crNames...)
			vals := crValues
			if x.Thorough() {
				vals = crMoreValues
			}
			muts := crMutationsOf(name, vals, true)
			m := muts[c.Choose(len(muts), "mutation")]
			c.Commit()
			w := newCrWorld(c)
			w.docs[name].payload = crSet(w.docs[name].payload, m.path, generic2(m.val))
			w.coldOnly = !x.Thorough() && m.val != any(absent) && m.val != nil
			w.run(name, name+pathName(m.path)+"="+short(m.val))
		},
	)
	// odd JWTs, payloads and answers
	x.ExploreB(
		"odd documents", 99, func(c *C) {
			name := Of(c, "document", crNames...)
			w := newCrWorld(c)
			d := w.docs[name]
			resps := crResps(d)
			var raws [][]byte
			if d.key != "" {
				raws = crJWTs(d.bytes())
				for _, p := range crPayloads {
					raws = append(raws, signRaw(d.key, d.typ, []byte(p)))
				}
			} else {
				for _, p := range crPayloads {
					raws = append(raws, []byte(p))
				}
			}
			i := c.Choose(len(resps)+len(raws), "oddity")
			c.Commit()
			if i < len(resps) {
				d.resp = resps[i]
			} else {
				d.raw = raws[i-len(resps)]
			}
			w.run(name, fmt.Sprint(name, " odd ", i))
		},
	)
}

// exploreCrashKeys verifies JWTs of every algorithm against every odd key.
func exploreCrashKeys(x *X) {
	good := map[string]M{
		"OKP": with(jwkOf("L"), "kid", "k"), "EC": with(ecJWK, "kid", "k"),
		"RSA": {"kty": "RSA", "kid": "k", "n": b64(append([]byte{0xc1}, make([]byte, 255)...)), "e": "AQAB"}, "oct": {"kty": "oct", "kid": "k", "k": "AAAA"},
	}
	x.Explore(
		"keys", 99, func(c *C) {
			kty := Of(c, "kty", "OKP", "EC", "RSA", "oct")
			key := with(good[kty])
			delete(key, "alg")
			delete(key, "use")
			vals := []any{"", "A", "AA", "AQ", "!!", "AAAAAAAAAAAAAAAA", b64(make([]byte, 31)), b64(make([]byte, 32)), b64(make([]byte, 33)), b64(make([]byte, 256)), b64([]byte(strings.Repeat("\xff", 32))), 1.0, nil, l()}
			members := map[string][]string{"OKP": {"x", "d", "crv"}, "EC": {"x", "y", "d", "crv"}, "RSA": {"n", "e", "d", "p"}, "oct": {"k"}}[kty]
			m := c.Choose(len(members)+1, "member")
			if m < len(members) {
				vs := vals
				if members[m] == "crv" {
					vs = []any{"", "Ed25519", "Ed448", "X25519", "X448", "P-256", "P-384", "P-521", "secp256k1", "p-256", 1.0, nil}
				}
				key[members[m]] = vs[c.Choose(len(vs), "value")]
				if key[members[m]] == nil {
					delete(key, members[m])
				}
			}
			if kalg := Of[any](c, "key alg", any(absent), "EdDSA", "ES256", "RS256", "PS256", "HS256", "none", "XX"); kalg != any(absent) {
				key["alg"] = kalg
			}
			alg := Of(c, "alg", "EdDSA", "RS256", "PS512", "ES256", "ES384", "ES512", "ES256K", "HS256", "none", "XX")
			kid := Of[any](c, "kid", "k", any(absent), "other")
			c.Commit()
			var set jwks.JWKS
			if err := json.Unmarshal([]byte(jsonOf(M{"keys": []any{key, jwkOf("L")}})), &set); err != nil {
				c.Outcome("the key set is refused")
				return
			}
			hdr := M{"alg": alg, "typ": "trust-mark+jwt"}
			if kid != any(absent) {
				hdr["kid"] = kid
			}
			_ = jsonOf(set)
			for _, n := range []int{0, 1, 64, 96, 256} {
				jwt := b64([]byte(jsonOf(hdr))) + "." + b64([]byte(`{"iss":"a","trust_mark_type":"t"}`)) + "." + b64(make([]byte, n))
				tm := oidfed.TrustMarkInfo{TrustMarkType: "t", TrustMarkJWT: jwt}
				err := tm.VerifyExternal(set)
				c.Step("verify", jsonOf(key), jsonOf(hdr), n, err == nil)
				c.Outcome(fmt.Sprint("verifies: ", err == nil))
			}
		},
	)
}

// exploreCrashPolicies applies and merges metadata policies of any shape.
func exploreCrashPolicies(x *X) {
	vals := []any{nil, true, 1.5, "", "a b", []any{}, []any{nil}, l("a", "b"), []any{1.0, "a"}, M{"a": l("b")}}
	if x.Thorough() {
		vals = append(vals, 0.0, "x", l("a"), []any{[]any{}}, []any{M{}}, M{}, M{"a": nil}, M{"value": M{}}, -1.0, 1e300, false, []any{true}, []any{1.0, 1.0}, l("a", "a"), nested(9), nestedMap(9))
	}
	ops := []string{"value", "default", "add", "one_of", "subset_of", "superset_of", "essential", "intersects", "regexp", ""}
	params := []string{
		"openid_provider.issuer", "openid_provider.scopes_supported", "openid_provider.claims_parameter_supported", "openid_provider.request_authentication_methods_supported",
		"openid_relying_party.default_max_age", "openid_relying_party.jwks", "x_type.p", "openid_relying_party.scope",
	}
	if x.Thorough() {
		params = append(params, "openid_provider.mtls_endpoint_aliases", "openid_provider.zz", "federation_entity.contacts", "x_type.scope", "openid_provider.display_name")
	}
	quiet := func(f func() error) string {
		if f() != nil {
			return "error"
		}
		return "ok"
	}
	x.Explore(
		"policy", 99, func(c *C) {
			param := Of(c, "parameter", params...)
			typ, name, _ := strings.Cut(param, ".")
			op1 := Of(c, "operator", ops...)
			v1 := vals[c.Choose(len(vals), "operand")]
			op2 := Of(c, "2nd operator", ops...)
			if !x.Thorough() && op2 < op1 {
				c.Discard()
			}
			c.Commit()
			v2 := vals[c.Choose(len(vals), "2nd operand")]
			entry := M{op1: v1}
			second := M{op2: v2}
			both := with(entry, op2, v2)
			parse := func(e M) *oidfed.MetadataPolicies {
				var p *oidfed.MetadataPolicies
				if err := json.Unmarshal([]byte(jsonOf(M{typ: M{name: e}})), &p); err != nil {
					return nil
				}
				return p
			}
			a, b, ab := parse(entry), parse(second), parse(both)
			var merged *oidfed.MetadataPolicies
			r := ""
			if a != nil && b != nil {
				r = quiet(func() (err error) { merged, err = oidfed.MergeMetadataPolicies(parse(entry), parse(second)); return })
				_, _ = oidfed.MergeMetadataPolicies(a, nil, b)
			}
			for i, v := range append(vals, any(absent)) {
				md := M{}
				if v != any(absent) {
					md[name] = v
				}
				for _, p := range []*oidfed.MetadataPolicies{ab, merged} {
					if p == nil {
						continue
					}
					var m oidfed.Metadata
					if err := json.Unmarshal([]byte(jsonOf(M{typ: md})), &m); err != nil {
						continue
					}
					r += quiet(func() error {
						out, err := m.ApplyPolicy(p)
						if err == nil {
							_, err = json.Marshal(out)
						}
						return err
					})
				}
				_ = i
			}
			c.Step(param, op1, op2, r)
			c.Outcome(fmt.Sprint("merge: ", merged != nil))
		},
	)
}

// exploreCrashRequests makes odd requests.
func exploreCrashRequests(x *X) {
	x.ExploreB(
		"odd requests", 99, func(c *C) {
			defer func() { oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{} }()
			w := newCrWorld(c)
			id := w.f.ID
			odd := []string{
				id("L"), id("T"), "", " ", "x", ":", "::", "http://", "https://", "https://[", "https://l.example.org:x", "https://%zz", "\x00", "https://l.example.org/%2e%2e/?a=b#c",
				"mailto:a@b", "//l.example.org", strings.Repeat("a", 70000), "https://" + strings.Repeat("a", 300) + ".org", "https://é.example", "ftp://l.example.org", "file:///etc/hostname",
			}
			sub := c.Choose(len(odd), "subject")
			anchor := c.Choose(len(odd)+2, "anchor")
			c.Commit()
			newMemCache()
			w.install()
			var tas []string
			switch {
			case anchor < len(odd):
				tas = []string{odd[anchor]}
			case anchor == len(odd):
				tas = []string{id("T"), odd[sub], ""}
			}
			a := ""
			if len(tas) > 0 {
				a = tas[0]
			}
			res := ""
			op := func(ok bool) { res += strconv.FormatBool(ok)[:1] }
			s, err := oidfed.GetEntityConfiguration(odd[sub])
			op(err == nil && s != nil)
			s, err = oidfed.FetchEntityStatement(a, odd[sub], a)
			op(err == nil && s != nil)
			s, err = oidfed.FetchEntityStatement(odd[sub], odd[sub], a)
			op(err == nil && s != nil)
			rr := apimodel.ResolveRequest{Subject: odd[sub], TrustAnchor: tas, EntityTypes: []string{"", "openid_provider", odd[sub]}}
			for _, r := range []oidfed.MetadataResolver{
				oidfed.LocalMetadataResolver{}, oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: odd[sub]}, oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: id("T") + "/resolve"},
				oidfed.SmartRemoteMetadataResolver{},
			} {
				for _, q := range []apimodel.ResolveRequest{rr, {Subject: odd[sub], TrustAnchor: tas}} {
					_, err := r.Resolve(q)
					op(err == nil)
					_, err = r.ResolveResponsePayload(q)
					op(err == nil)
					ok, _ := r.ResolvePossible(q)
					op(ok)
				}
			}
			for _, q := range []apimodel.EntityCollectionRequest{
				{TrustAnchor: a}, {}, {TrustAnchor: a, NameQuery: odd[sub], Claims: []string{"", "x", odd[sub], "metadata"}, TrustMarkTypes: []string{odd[sub]}, EntityTypes: []string{odd[sub]}, Limit: 1, FromEntityID: odd[sub]},
			} {
				for _, cl := range []oidfed.EntityCollector{
					&oidfed.SimpleEntityCollector{}, oidfed.FilterableVerifiedChainsEntityCollector{}, oidfed.SmartRemoteEntityCollector{TrustAnchors: tas},
					oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: odd[sub]}, oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: id("T") + "/collect"},
				} {
					op(len(cl.CollectEntities(q)) > 0)
				}
			}
			signer := oidfed.NewEntityStatementSigner(edKey("R"), jwa.EdDSA())
			rp, err := oidfed.NewFederationLeaf(odd[sub], tas, oidfed.NewTrustAnchorsFromEntityIDs(tas...), &oidfed.Metadata{}, signer, 1000, edKey("R2"), jwa.EdDSA(), nil)
			if err == nil {
				_, err = rp.GetAuthorizationURL(odd[sub], a, odd[sub], "", nil)
				op(err == nil)
				_, _, err = rp.CodeExchange(odd[sub], odd[sub], a, nil)
				op(err == nil)
				_, err = rp.EntityConfigurationJWT()
				op(err == nil)
			}
			synctest.Wait()
			time.Sleep(time.Minute)
			synctest.Wait()
			c.Step("requests", sub, anchor, res)
			c.Outcome(fmt.Sprintf("%d of %d succeed", strings.Count(res, "t"), len(res)))
		},
	)
}

// exploreCrashPairs mutates two members, of one document or of two.
func exploreCrashPairs(x *X) {
	if !x.Thorough() {
		return
	}
	type site struct {
		doc string
		mut crMut
	}
	var sites []site
	w := newCrWorld(nil)
	for _, name := range crNames {
		for _, m := range crMutations(w.docs[name], []any{any(absent), nil, M{"x": nil}, "x"}, false) {
			if len(m.path) <= 1 {
				sites = append(sites, site{name, m})
			}
		}
	}
	x.ExploreB(
		"two mutations", 99, func(c *C) {
			i := c.Choose(len(sites), "first")
			j := c.Choose(len(sites), "second")
			c.Commit()
			if j <= i || pathName(sites[i].mut.path) == pathName(sites[j].mut.path) && sites[i].doc == sites[j].doc {
				c.Discard()
			}
			w := newCrWorld(c)
			for _, s := range []site{sites[i], sites[j]} {
				w.docs[s.doc].payload = crSet(w.docs[s.doc].payload, s.mut.path, generic2(s.mut.val))
			}
			w.quick = true
			w.run(sites[i].doc, sites[i].doc+pathName(sites[i].mut.path)+" "+sites[j].doc+pathName(sites[j].mut.path))
		},
	)
}

// generic2 is generic, keeping the absent marker.
func generic2(v any) any {
	if v == any(absent) {
		return v
	}
	return generic(v)
}

func init() {
	registry["C10"] = func(x *X) {
		// what is logged must not crash either
		log.SetOutput(io.Discard)
		oidfed.EnableDebugLogging()
		defer oidfed.DisableDebugLogging()
		exploreCrashKeys(x)
		exploreCrashPolicies(x)
		exploreCrashRequests(x)
		exploreCrash(x)
		exploreCrashPairs(x)
	}
}
