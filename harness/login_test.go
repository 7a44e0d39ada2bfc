package zzverif

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	nethttp "net/http"
	"net/url"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
)

// C22: what a relying party sends for a login. The RP R logs in at the OPs L
// and M below the trust anchor T.

// loginJWT verifies and reads a JWT made by the RP.
func loginJWT(jwt string, key joseKey, alg string) (M, string) {
	parts := strings.Split(jwt, ".")
	if len(parts) != 3 {
		return nil, "is no JWT"
	}
	sig, err := base64.RawURLEncoding.DecodeString(parts[2])
	if err != nil {
		return nil, "has an unreadable signature"
	}
	hdr := rawMembers(parts[0])
	if hdr["alg"] != alg {
		return nil, fmt.Sprintf("has the algorithm %v", hdr["alg"])
	}
	if !joseVerify(key.jwk(), alg, parts[0]+"."+parts[1], sig) {
		return nil, "is not signed with the key of the RP"
	}
	p := rawMembers(parts[1])
	if p == nil {
		return nil, "has no payload"
	}
	return p, ""
}

func rawMembers(part string) M {
	b, err := base64.RawURLEncoding.DecodeString(part)
	if err != nil {
		return nil
	}
	var m M
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func audIs(v any, want ...string) bool {
	if s, ok := v.([]any); ok && len(s) == 1 {
		v = s[0]
	}
	s, ok := v.(string)
	return ok && slices.Contains(want, s)
}

// loginIDs collects the identifiers used so far.
type loginIDs map[string]bool

func (u loginIDs) fresh(v any) string {
	s, ok := v.(string)
	switch {
	case !ok || len(s) < 16:
		return fmt.Sprintf("the identifier %v is none", v)
	case u[s]:
		return "the identifier is used twice"
	}
	u[s] = true
	return ""
}

// checkRO checks a request object made now from the values; values is nil if
// aud is missing.
func checkRO(jwt string, key joseKey, alg, rp string, values M, lifetime int64, ids loginIDs) string {
	p, bad := loginJWT(jwt, key, alg)
	if bad != "" {
		return bad
	}
	now := time.Now().Unix()
	want := generic(values).(M)
	delete(want, "sub")
	delete(want, "client_secret")
	want["iss"], want["client_id"], want["iat"] = rp, rp, float64(now)
	if lifetime > 0 {
		want["exp"] = float64(now + lifetime)
	} else {
		exp, _ := p["exp"].(float64)
		if exp <= float64(now) || exp > float64(now+3600) {
			return fmt.Sprintf("is valid for %v s", exp-float64(now))
		}
		want["exp"] = p["exp"]
	}
	if _, ok := want["jti"]; !ok {
		if bad = ids.fresh(p["jti"]); bad != "" {
			return bad
		}
		want["jti"] = p["jti"]
	}
	if aud, ok := want["aud"].(string); ok && audIs(p["aud"], aud) {
		want["aud"] = p["aud"]
	}
	if !reflect.DeepEqual(p, want) {
		return fmt.Sprintf("is %s instead of %s", jsonOf(p), jsonOf(want))
	}
	return ""
}

func exploreRequestObjects(x *X) {
	x.ExploreB(
		"request objects", Pick(x, 2, 3), func(c *C) {
			kind := joseKinds[c.Choose(len(joseKinds), "kind of key")]
			key := joseKeyOf(kind, 1)
			alg := key.algs[c.Choose(len(key.algs), "algorithm")]
			rp := DevOf(c, "entity id", "https://r.example.org", "https://r.example.org/a b?c=d")
			lifetime := DevOf(c, "lifetime", 60, 1, 86400)
			values := M{}
			put := func(k string, alts ...any) {
				if v := DevOf(c, k, alts...); v != any(absent) {
					values[k] = v
				}
			}
			put("aud", "https://op.example.org", l("https://op.example.org"), []string{"https://op.example.org", "b"}, absent)
			c.Commit()
			put("iss", absent, "https://evil", 5)
			put("client_id", absent, "https://evil")
			put("sub", absent, "s", nil)
			put("client_secret", absent, "s")
			put("jti", absent, "my-own-identifier")
			put("iat", absent, 5, "x")
			put("exp", absent, 5, time.Now().Unix()+999999)
			put("state", absent, "", "a\"b<>é")
			put("claims", absent, M{"id_token": M{"acr": M{"essential": true, "values": l("a")}, "x": nil}}, nil, []string{"a"}, 1.5, int64(1)<<53, true)
			nilMap := c.Dev(2, "no map") == 1
			if nilMap {
				values = nil
			}
			a, ok := jwa.LookupSignatureAlgorithm(alg)
			if !ok {
				panic(alg)
			}
			rop := oidfed.NewRequestObjectProducer(rp, key.priv, a, int64(lifetime))
			before := jsonOf(values)
			ids := loginIDs{}
			for i := range 3 {
				jwt, err := rop.RequestObject(values)
				if jsonOf(values) != before {
					c.Fail("the caller's values became %s", jsonOf(values))
				}
				if _, aud := values["aud"]; !aud {
					if err == nil {
						c.Fail("a request object without audience: %s", jwt)
					}
					c.Outcome("refused")
				} else if err != nil {
					c.Fail("no request object: %v", err)
				} else if bad := checkRO(string(jwt), key, alg, rp, values, int64(lifetime), ids); bad != "" {
					c.Fail("the request object %d %s", i, bad)
				}
				jwt, err = rop.ClientAssertion("https://op.example.org/token")
				if err != nil {
					c.Fail("no client assertion: %v", err)
				} else if bad := checkAssertion(string(jwt), key, alg, rp, int64(lifetime), ids, "https://op.example.org/token"); bad != "" {
					c.Fail("the client assertion %s", bad)
				}
				time.Sleep(1500 * time.Millisecond)
			}
			c.Step("request object", kind, alg, before, lifetime, rp)
			c.Outcome("request objects")
		},
	)
}

func checkAssertion(jwt string, key joseKey, alg, rp string, lifetime int64, ids loginIDs, aud ...string) string {
	p, bad := loginJWT(jwt, key, alg)
	if bad != "" {
		return bad
	}
	now := time.Now().Unix()
	exp, _ := p["exp"].(float64)
	switch {
	case p["iss"] != rp || p["sub"] != rp:
		return fmt.Sprintf("is from %v about %v", p["iss"], p["sub"])
	case !audIs(p["aud"], aud...):
		return fmt.Sprintf("is for %v", p["aud"])
	case p["iat"] != float64(now):
		return fmt.Sprintf("is issued at %v", p["iat"])
	case lifetime > 0 && exp != float64(now+lifetime), exp <= float64(now), lifetime == 0 && exp > float64(now+3600):
		return fmt.Sprintf("is valid for %v s", exp-float64(now))
	case len(p) != 6:
		return "has further members: " + jsonOf(p)
	}
	return ids.fresh(p["jti"])
}

// loginTokenAnswer is an answer of the token endpoint.
type loginTokenAnswer struct {
	name string
	kind string // token, error document, failure, any
	resp *Resp
	doc  M
}

func loginTokenAnswers() []loginTokenAnswer {
	tok := M{"access_token": "a", "token_type": "Bearer", "expires_in": 3600.0, "refresh_token": "r", "scope": "openid email", "id_token": "i", "x_member": M{"a": l("b")}}
	few := M{"access_token": "a", "token_type": "Bearer"}
	e := M{"error": "invalid_grant", "error_description": "expired"}
	js := func(st int, v any) *Resp { return jsonResp(st, v) }
	txt := func(st int, s string) *Resp { return &Resp{Status: st, CT: "application/json", Body: []byte(s)} }
	return []loginTokenAnswer{
		{"token", "token", js(200, tok), tok}, {"few members", "token", js(200, few), few}, {"empty error", "token", js(200, with(few, "error", "")), few},
		{"other content type", "token", &Resp{CT: "text/plain", Body: []byte(jsonOf(tok))}, tok},
		{"400", "error document", js(400, e), e}, {"401", "error document", js(401, M{"error": "invalid_client"}), M{"error": "invalid_client"}}, {"error with 200", "error document", js(200, e), e},
		{"error and token", "error document", js(200, with(tok, "error", "x")), M{"error": "x"}}, {"500 error", "error document", js(500, M{"error": "server_error"}), M{"error": "server_error"}},
		{"refused", "failure", &Resp{Err: errors.New("refused")}, nil}, {"broken off", "failure", &Resp{CT: "application/json", Body: []byte(jsonOf(tok)), BodyErr: errors.New("reset")}, nil},
		{"500 token", "failure", js(500, tok), nil}, {"400 token", "failure", js(400, tok), nil}, {"500 {}", "failure", js(500, M{}), nil}, {"503 null", "failure", txt(503, "null"), nil},
		{"502 html", "failure", txt(502, "<html>"), nil}, {"404 empty", "failure", txt(404, ""), nil}, {"html", "failure", txt(200, "<html>"), nil}, {"empty", "failure", txt(200, ""), nil},
		{"list", "failure", txt(200, "[]"), nil}, {"cut", "failure", txt(200, `{"access_token":"a"`), nil}, {"ill-typed token", "failure", txt(200, `{"access_token":5}`), nil},
		{"ill-typed error", "failure", txt(400, `{"error":5}`), nil}, {"304", "failure", txt(304, ""), nil}, {"199", "failure", js(199, tok), nil}, {"error null", "any", js(400, M{"error": nil}), nil},
		{"{}", "any", js(200, M{}), nil},
	}
}

type loginWorld struct {
	f     *Fed
	n     *Net
	rp    *oidfed.FederationLeaf
	key   joseKey
	alg   string
	forms []string
	heads []string
}

func newLoginWorld(kind, rpID string, mds map[string]M, policy any) *loginWorld {
	f := newFed()
	for _, op := range []string{"L", "M"} {
		md := mds[op]
		f.entity(op, md, "T")
		f.sub("T", op)
	}
	f.entity("T", f.authorityMd("T"))
	if policy != nil {
		f.SS[[2]string{"T", "L"}].Claims = M{"metadata_policy": policy}
	}
	w := &loginWorld{f: f, n: newNet(), key: joseKeyOf(kind, 1)}
	w.alg = w.key.algs[0]
	f.install(w.n)
	alg, _ := jwa.LookupSignatureAlgorithm(w.alg)
	rp, err := oidfed.NewFederationLeaf(
		rpID, []string{f.ID("T")}, oidfed.NewTrustAnchorsFromEntityIDs(f.ID("T")), &oidfed.Metadata{}, oidfed.NewEntityStatementSigner(edKey("R"), jwa.EdDSA()), 1000, w.key.priv, alg, nil,
	)
	if err != nil {
		panic(err)
	}
	w.rp = rp
	return w
}

func (w *loginWorld) tokenEndpoint(u string, resp *Resp) {
	w.n.set(
		u, func(r *nethttp.Request) *Resp {
			var buf bytes.Buffer
			if r.Body != nil {
				_, _ = io.Copy(&buf, r.Body)
			}
			w.forms = append(w.forms, buf.String())
			w.heads = append(w.heads, r.Method+" "+r.Header.Get("Content-Type"))
			return resp
		},
	)
}

func loginOP(f func(string) string, op string) M {
	return M{
		"openid_provider": M{
			"issuer": f(op), "authorization_endpoint": f(op) + "/auth", "token_endpoint": f(op) + "/token", "response_types_supported": l("code"),
			"subject_types_supported": l("pairwise"), "client_registration_types_supported": l("automatic"),
		},
	}
}

func cloneValues(v url.Values) url.Values {
	if v == nil {
		return nil
	}
	out := url.Values{}
	for k, e := range v {
		out[k] = slices.Clone(e)
	}
	return out
}

// checkAuth checks an authorization URL.
func (w *loginWorld) checkAuth(got, endpoint, op, redirect, state, scope string, add url.Values, ids loginIDs) string {
	u, err := url.Parse(got)
	if err != nil {
		return "is unreadable"
	}
	e, _ := url.Parse(endpoint)
	if u.Scheme != e.Scheme || u.Host != e.Host || u.Path != e.Path || u.User.String() != e.User.String() {
		return "goes elsewhere: " + got
	}
	q, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return "has an unreadable query"
	}
	rp := w.rp.EntityID
	need := url.Values{"client_id": {rp}, "response_type": {"code"}, "redirect_uri": {redirect}, "scope": {scope}}
	for k, v := range e.Query() {
		need[k] = v
	}
	for k, v := range need {
		if !slices.Equal(q[k], v) {
			return fmt.Sprintf("has %s=%v instead of %v", k, q[k], v)
		}
	}
	values := M{}
	for k, v := range add {
		switch len(v) {
		case 0:
		case 1:
			values[k] = v[0]
		default:
			values[k] = v
		}
	}
	if len(q["request"]) != 1 {
		return "has no request object"
	}
	for k, v := range q {
		if _, ok := need[k]; ok || k == "request" || k == "state" && slices.Equal(v, []string{state}) || add[k] != nil && slices.Equal(v, add[k]) {
			continue
		}
		return fmt.Sprintf("has %s=%v", k, v)
	}
	values["aud"], values["redirect_uri"], values["state"], values["response_type"], values["scope"] = w.f.ID(op), redirect, state, "code", scope
	jwt := q.Get("request")
	if p, _ := loginJWT(jwt, w.key, w.alg); p != nil {
		if _, ok := p["state"]; !ok && state == "" {
			delete(values, "state")
		}
		for k, v := range add {
			if s, ok := p[k].([]any); ok && len(s) == 0 && len(v) == 0 {
				values[k] = s
			}
		}
	}
	if bad := checkRO(jwt, w.key, w.alg, rp, values, 0, ids); bad != "" {
		return "has a request object that " + bad
	}
	return ""
}

// checkForm checks a token request.
func (w *loginWorld) checkForm(form, head, op, endpoint, code, redirect string, add url.Values, ids loginIDs) string {
	if !strings.HasPrefix(head, "POST application/x-www-form-urlencoded") {
		return "is sent as " + head
	}
	q, err := url.ParseQuery(form)
	if err != nil {
		return "is unreadable"
	}
	rp := w.rp.EntityID
	want := cloneValues(add)
	if want == nil {
		want = url.Values{}
	}
	want["grant_type"], want["code"], want["redirect_uri"], want["client_id"] = []string{"authorization_code"}, []string{code}, []string{redirect}, []string{rp}
	want["client_assertion_type"] = []string{"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}
	if len(q["client_assertion"]) != 1 {
		return "has no client assertion"
	}
	if bad := checkAssertion(q.Get("client_assertion"), w.key, w.alg, rp, 0, ids, endpoint, w.f.ID(op)); bad != "" {
		return "has a client assertion that " + bad
	}
	want["client_assertion"] = q["client_assertion"]
	for k, v := range want {
		if len(v) == 0 {
			delete(want, k)
		}
	}
	if !reflect.DeepEqual(q, want) {
		return fmt.Sprintf("is %v instead of %v", q, want)
	}
	return ""
}

func (w *loginWorld) checkAnswer(a loginTokenAnswer, tok *oidfed.OIDCTokenResponse, eres *oidfed.OIDCErrorResponse, err error) string {
	switch a.kind {
	case "token":
		if tok == nil || eres != nil || err != nil {
			return fmt.Sprintf("instead of the token response: %v %v", eres, err)
		}
		got := M{
			"access_token": tok.AccessToken, "token_type": tok.TokenType, "expires_in": tok.ExpiresIn, "refresh_token": tok.RefreshToken, "scope": tok.Scopes, "id_token": tok.IDToken,
		}
		for k, v := range tok.Extra {
			if _, ok := got[k]; ok {
				return "the member " + k + " twice"
			}
			got[k] = v
		}
		drop := func(m any) any {
			out := generic(m).(M)
			for k, v := range out {
				if v == "" || v == 0.0 {
					delete(out, k)
				}
			}
			return out
		}
		if !reflect.DeepEqual(drop(got), drop(a.doc)) {
			return fmt.Sprintf("the token response is %s", jsonOf(got))
		}
	case "error document":
		if tok != nil || (eres == nil) == (err == nil) {
			return fmt.Sprintf("instead of the error: %v %v %v", tok, eres, err)
		}
		if eres != nil && !sameJSON(eres, a.doc) {
			return "the error is " + jsonOf(eres)
		}
	case "failure":
		if tok != nil || err == nil && eres == nil {
			return fmt.Sprintf("instead of an error: %v %v", tok, eres)
		}
	case "any":
		if tok != nil && a.resp.Status >= 300 {
			return "a token response from an unsuccessful answer"
		}
	}
	return ""
}

var loginAdds = []url.Values{
	nil, {}, {"nonce": {"n"}}, {"nonce": {"n&=é"}, "acr_values": {"a", "b"}, "x y": {""}}, {"none": {}},
	{
		"client_id": {"https://evil"}, "aud": {"https://evil"}, "iss": {"https://evil"}, "response_type": {"token"}, "redirect_uri": {"https://evil"}, "state": {"evil"}, "scope": {"evil"},
		"exp": {"9999999999"}, "iat": {"1"}, "sub": {"s"}, "client_secret": {"s"}, "grant_type": {"evil"}, "code": {"evil"}, "client_assertion": {"evil", "evil2"},
		"client_assertion_type": {"evil"},
	},
	{"jti": {"my-own-identifier"}}, {"request": {"evil"}, "nonce": {"n"}},
	{"scope": {"a", "b", "a"}, "resource": {"r2", "r1"}, "prompt": {"", "login"}, "username": {"u"}, "code_verifier": {"v", "w"}},
}

func exploreLogin(x *X) {
	answers := loginTokenAnswers()
	x.ExploreB(
		"login", Pick(x, 2, 3), func(c *C) {
			id := newFed().ID
			mds := map[string]M{"L": loginOP(id, "L"), "M": loginOP(id, "M")}
			op := mds["L"]["openid_provider"].(M)
			// what the OP publishes
			authEP := DevOf(
				c, "authorization endpoint", id("L")+"/auth", id("L")+"/auth?a=b&c=d", "https://login.example.org:8443/x/y", "https://u:p@l.example.org/auth", id("L"), "https://l.example.org/a%20b?x=%26",
				"https://[", ":",
			)
			op["authorization_endpoint"] = authEP
			tokEP := DevOf(c, "token endpoint", id("L")+"/token", id("L")+"/token?a=b", "https://login.example.org/t", "https://[", "")
			op["token_endpoint"] = tokEP
			issuer := DevOf[any](c, "issuer", id("L"), id("M"), absent, "", id("L")+"/")
			op["issuer"] = issuer
			if issuer == any(absent) {
				delete(op, "issuer")
			}
			var policy any
			switch DevOf(c, "policy", "none", "endpoints", "issuer", "unmet") {
			case "endpoints":
				authEP, tokEP = "https://p.example.org/auth", "https://p.example.org/token"
				policy = M{"openid_provider": M{"authorization_endpoint": M{"value": authEP}, "token_endpoint": M{"value": tokEP}}}
			case "issuer":
				policy = M{"openid_provider": M{"issuer": M{"value": id("M")}}}
				issuer = id("M")
			case "unmet":
				policy, issuer = M{"openid_provider": M{"scopes_supported": M{"essential": true}}}, "unresolvable"
			}
			fault := DevOf(c, "fault", "none", "no statement", "expired", "unsigned", "no OP", "no metadata", "configuration not fetchable", "anchor not fetchable")
			switch fault {
			case "no OP":
				mds["L"] = M{"openid_relying_party": M{"client_name": "x"}}
			case "no metadata":
				mds["L"] = nil
			}
			kind := DevOf(c, "kind of key", "Ed25519", "P-256", "RSA")
			rpID := DevOf(c, "rp", "https://r.example.org", "https://r.example.org/x?y=z")
			outage := c.Dev(2, "the cache fails") == 1
			c.Commit()
			w := newLoginWorld(kind, rpID, mds, policy)
			f := w.f
			cache := newMemCache()
			if outage {
				cache.Fail = func(string, string) error { return errors.New("no cache") }
			}
			ss := f.SS[[2]string{"T", "L"}]
			switch fault {
			case "no statement":
				ss.Miss = true
			case "expired":
				ss.Exp = -time.Second
			case "unsigned":
				ss.Key = "L"
			case "configuration not fetchable":
				f.EC["L"].Miss = true
			case "anchor not fetchable":
				f.EC["T"].Miss = true
			}
			ok := issuer == any(id("L")) && fault == "none"
			// what the caller gives
			redirect := DevOf(c, "redirect", "https://r.example.org/cb", "https://r.example.org/cb?a=b&c=é#f", "")
			state := DevOf(c, "state", "s1", "", "a&b=c\"<é")
			scope := DevOf(c, "scope", "openid", "openid email x:y&z", "")
			code := DevOf(c, "code", "c1", "a&b=c+é", "")
			add := loginAdds[c.Dev(len(loginAdds), "parameters")]
			a := answers[c.Dev(len(answers), "token endpoint answers")]
			for _, u := range []string{id("L") + "/token", strings.SplitN(tokEP, "?", 2)[0]} {
				if u != "" {
					w.tokenEndpoint(u, a.resp)
				}
			}
			mine := cloneValues(add)
			ids := loginIDs{}
			for i := range 2 {
				got, err := w.rp.GetAuthorizationURL(id("L"), redirect, state, scope, mine)
				_, uerr := url.Parse(authEP)
				switch {
				case !ok || uerr != nil:
					if err == nil {
						c.Fail("call %d: an authorization URL for an OP that cannot be resolved or reached: %s", i, got)
					}
				case err != nil:
					c.Fail("call %d: no authorization URL: %v", i, err)
				default:
					if bad := w.checkAuth(got, authEP, "L", redirect, state, scope, add, ids); bad != "" {
						c.Fail("call %d: the authorization URL %s", i, bad)
					}
					c.Outcome("authorization URL")
				}
				w.forms, w.heads = nil, nil
				tok, eres, err := w.rp.CodeExchange(id("L"), code, redirect, mine)
				if !reflect.DeepEqual(mine, add) {
					c.Fail("call %d: the caller's parameters became %v", i, mine)
				}
				if !ok || tokEP == "https://[" || tokEP == "" {
					if err == nil && eres == nil || tok != nil {
						c.Fail("call %d: an answer of an OP that cannot be resolved or reached: %v %v", i, tok, eres)
					}
					if len(w.forms) > 0 {
						c.Fail("call %d: a token request to an OP that cannot be resolved: %s", i, w.forms)
					}
					c.Outcome("refused")
				} else {
					if len(w.forms) != 1 {
						c.Fail("call %d: %d token requests", i, len(w.forms))
					}
					for j := range w.forms {
						if bad := w.checkForm(w.forms[j], w.heads[j], "L", tokEP, code, redirect, add, ids); bad != "" {
							c.Fail("call %d: the token request %s", i, bad)
						}
					}
					if bad := w.checkAnswer(a, tok, eres, err); bad != "" {
						c.Fail("call %d: token endpoint answers %s: %s", i, a.name, bad)
					}
					c.Outcome("token request, " + a.kind)
				}
				time.Sleep(1200 * time.Millisecond)
			}
			c.Step("login", authEP, tokEP, issuer, policy, fault, kind, rpID, outage, redirect, state, scope, code, add, a.name)
		},
	)
}

// exploreLoginHistories mixes logins at two OPs that share the caller's values.
func exploreLoginHistories(x *X) {
	x.ExploreB(
		"histories", 99, func(c *C) {
			id := newFed().ID
			steps := []string{"auth L", "auth M", "code L", "code M", "object", "M moves", "wait a day"}
			var seq []int
			for i := range Pick(x, 4, 6) {
				seq = append(seq, c.Choose(len(steps), fmt.Sprint("step ", i)))
			}
			c.Commit()
			mds := map[string]M{"L": loginOP(id, "L"), "M": loginOP(id, "M")}
			w := newLoginWorld("Ed25519", "https://r.example.org", mds, nil)
			newMemCache()
			tok := loginTokenAnswers()[0]
			ids := loginIDs{}
			orig := url.Values{"nonce": {"n"}, "acr": {"a", "b"}}
			add := cloneValues(orig)
			roVals := M{"aud": id("L"), "x": M{"y": l("z")}}
			roBefore := jsonOf(roVals)
			moved, known := false, false
			for i, s := range seq {
				op, hosts := "M", []string{id("M")}
				if moved {
					hosts = append(hosts, "https://new.example.org")
				}
				if known {
					hosts = hosts[1:]
				}
				if strings.HasSuffix(steps[s], "L") {
					op, hosts = "L", []string{id("L")}
				}
				for _, u := range []string{id("L"), id("M"), "https://new.example.org"} {
					w.tokenEndpoint(u+"/token", tok.resp)
				}
				switch strings.Fields(steps[s])[0] {
				case "auth":
					got, err := w.rp.GetAuthorizationURL(id(op), "https://r/cb", fmt.Sprint("s", i), "openid", add)
					if err != nil {
						c.Fail("step %d: no authorization URL: %v", i, err)
					} else {
						bad := "goes elsewhere: " + got
						for _, h := range hosts {
							if strings.HasPrefix(got, h+"/auth?") {
								bad = w.checkAuth(got, h+"/auth", op, "https://r/cb", fmt.Sprint("s", i), "openid", orig, ids)
							}
						}
						if bad != "" {
							c.Fail("step %d: the authorization URL %s", i, bad)
						}
					}
				case "code":
					w.forms, w.heads = nil, nil
					at, token := 0, ""
					before := len(w.n.Log)
					got, eres, err := w.rp.CodeExchange(id(op), fmt.Sprint("c", i), "https://r/cb", add)
					for _, e := range w.n.Log[before:] {
						if strings.HasSuffix(e, "/token") {
							if !slices.Contains(hosts, strings.TrimSuffix(e, "/token")) {
								c.Fail("step %d: the token request went to %s", i, e)
							}
							token = e
							at++
						}
					}
					if at != 1 {
						c.Fail("step %d: %d token requests", i, at)
					} else if bad := w.checkForm(w.forms[0], w.heads[0], op, token, fmt.Sprint("c", i), "https://r/cb", orig, ids); bad != "" {
						c.Fail("step %d: the token request %s", i, bad)
					}
					if bad := w.checkAnswer(tok, got, eres, err); bad != "" {
						c.Fail("step %d: %s", i, bad)
					}
				case "object":
					jwt, err := w.rp.RequestObjectProducer().RequestObject(roVals)
					if err != nil {
						c.Fail("step %d: no request object: %v", i, err)
					} else if bad := checkRO(string(jwt), w.key, w.alg, "https://r.example.org", roVals, 0, ids); bad != "" {
						c.Fail("step %d: the request object %s", i, bad)
					}
				case "M":
					if moved {
						c.Discard()
					}
					moved = true
					w.f.EC["M"].Md = M{
						"openid_provider": with(loginOP(id, "M")["openid_provider"].(M), "authorization_endpoint", "https://new.example.org/auth", "token_endpoint", "https://new.example.org/token"),
					}
				case "wait":
					// fresh statements
					time.Sleep(25 * time.Hour)
					for _, st := range w.f.EC {
						st.Iat, st.Exp = st.Iat+25*time.Hour, st.Exp+25*time.Hour
					}
					for _, st := range w.f.SS {
						st.Iat, st.Exp = st.Iat+25*time.Hour, st.Exp+25*time.Hour
					}
					known = moved // no statement seen before the move is valid any more
				}
				if !reflect.DeepEqual(add, orig) || jsonOf(roVals) != roBefore {
					c.Fail("step %d: the caller's values became %v %s", i, add, jsonOf(roVals))
				}
				time.Sleep(time.Second)
			}
			c.Step("history", seq)
			c.Outcome("histories")
		},
	)
}

func init() {
	registry["C22"] = func(x *X) {
		exploreRequestObjects(x)
		exploreLogin(x)
		exploreLoginHistories(x)
	}
}
