package zzverif

import (
	"fmt"
	"reflect"
	"strings"
	"testing/synctest"
	"time"

	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
)

// ---- C20: cached statements mean the same as fresh ones -----------------------------

// throughCache gives the chain as it comes back from a cache.
func throughCache(ch oidfed.TrustChain) (oidfed.TrustChain, error) {
	b, err := msgpack.Marshal(ch)
	if err != nil {
		return nil, err
	}
	var out oidfed.TrustChain
	return out, msgpack.Unmarshal(b, &out)
}

// payloadJSON is the content of a statement.
func payloadJSON(s *oidfed.EntityStatement) string { return jsonOf(s.EntityStatementPayload) }

func sameStatement(a, b *oidfed.EntityStatement, full bool) string {
	if x, y := payloadJSON(a), payloadJSON(b); x != y {
		return fmt.Sprintf("has content\n%s\nfresh it has\n%s", y, x)
	}
	for i, k := range [][]string{{"T"}, {"L"}, {"I"}, {"L!evil"}, {}, {"T", "L", "I"}} {
		if i > 1 && !full {
			break
		}
		set := libJWKS(k...)
		if x, y := a.Verify(set), b.Verify(set); x != y {
			return fmt.Sprintf("verifies with keys %v: %v, fresh: %v", k, y, x)
		}
	}
	if a.TimeValid() != b.TimeValid() {
		return "differs in validity"
	}
	return ""
}

func init() {
	// policies that tell apart what is absent, empty and set
	policiesFor := func(t reflect.Type) []any {
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		some := someJSON(t)
		out := []any{absent, M{"essential": true}}
		if len(some) > 0 {
			out = append(out, M{"value": some[0]}, M{"default": some[len(some)-1]}, M{"value": nil})
		}
		switch {
		case t.Kind() == reflect.Slice:
			out = append(
				out, M{"add": l("z")}, M{"subset_of": l("a")}, M{"superset_of": l("a")}, M{"subset_of": l("z")},
				M{"default": l("b"), "superset_of": l("b")}, M{"add": l("a"), "essential": true},
			)
		case t.Kind() == reflect.String:
			out = append(out, M{"one_of": l("a", "x")}, M{"default": "a", "one_of": l("a")}, M{"one_of": l("")})
		case t.Kind() == reflect.Bool:
			out = append(out, M{"one_of": []any{true}}, M{"default": true, "essential": true})
		}
		return out
	}
	stmt := func(iss, sub, key string, claims M) *oidfed.EntityStatement {
		p := M{"iss": "https://" + iss, "sub": "https://" + sub, "iat": 7000000000, "exp": 8000000000, "jwks": jwksOf(strings.ToUpper(sub))}
		for k, v := range claims {
			p[k] = v
		}
		s, err := oidfed.ParseEntityStatement(signJWT(key, "entity-statement+jwt", p))
		if err != nil {
			return nil
		}
		return s
	}
	compareEval := func(c *C, what string, ch oidfed.TrustChain) bool {
		cached, err := throughCache(ch)
		if err != nil || len(cached) != len(ch) {
			c.Fail("%s: the chain does not survive the cache: %v", what, err)
			return false
		}
		twice, err := throughCache(cached)
		if err != nil {
			c.Fail("%s: the chain does not survive the cache twice: %v", what, err)
			return false
		}
		for i := range ch {
			for n, o := range []oidfed.TrustChain{cached, twice} {
				if d := sameStatement(ch[i], o[i], len(ch) == 1); d != "" {
					c.Fail("%s: statement %d, %d times cached, %s", what, i, n+1, d)
					return false
				}
			}
		}
		m1, e1 := ch.Metadata()
		for n, o := range []oidfed.TrustChain{cached, twice} {
			m2, e2 := o.Metadata()
			if (e1 != nil) != (e2 != nil) || jsonOf(m1) != jsonOf(m2) {
				c.Fail("%s: the metadata of the chain cached %d times is %s (%v), fresh it is %s (%v)", what, n+1, jsonOf(m2), e2, jsonOf(m1), e1)
				return false
			}
		}
		if e1 == nil && m1 != nil {
			// the result in turn is cached
			b, err := msgpack.Marshal(m1)
			m3 := &oidfed.Metadata{}
			if err == nil {
				err = msgpack.Unmarshal(b, m3)
			}
			if err != nil || jsonOf(m3) != jsonOf(m1) {
				c.Fail("%s: the metadata %s comes back from the cache as %s, %v", what, jsonOf(m1), jsonOf(m3), err)
				return false
			}
			c.Outcome("same metadata")
		} else {
			c.Outcome("refused alike")
		}
		return true
	}
	type tp struct {
		typ string
		p   param
	}
	var all []tp
	for _, et := range entityTypes() {
		for _, p := range et.params {
			all = append(all, tp{et.tag, p})
		}
	}
	valuesOf := func(t reflect.Type) []any {
		return append(append([]any{absent, nil}, zeroJSON(t)...), someJSON(t)...)
	}
	chainFor := func(md, pol any) oidfed.TrustChain {
		claims := M{}
		if pol != nil {
			claims["metadata_policy"] = pol
		}
		leaf := stmt("l", "l", "L", M{"metadata": md, "authority_hints": l("https://t")})
		ss := stmt("t", "l", "T", claims)
		ta := stmt("t", "t", "T", nil)
		if leaf == nil || ss == nil || ta == nil {
			return nil
		}
		return oidfed.TrustChain{leaf, ss, ta}
	}
	registry["C20"] = func(x *X) {
		cache.SetCache(noCache{})
		x.Explore(
			"parameters", 0, func(c *C) {
				t := all[c.Choose(len(all), "parameter")]
				c.labels[len(c.labels)-1] = t.typ + "." + t.p.tag
				c.Commit()
				v := Of(c, "value", valuesOf(t.p.typ)...)
				pol := Of(c, "policy", policiesFor(t.p.typ)...)
				md := M{}
				if v != any(absent) {
					md[t.p.tag] = v
				}
				var mp any
				if pol != any(absent) {
					mp = M{t.typ: M{t.p.tag: pol}}
				}
				ch := chainFor(M{t.typ: md}, mp)
				c.Step("evaluate", c.labels)
				if ch == nil {
					c.Outcome("refused document")
					return
				}
				compareEval(c, strings.Join(c.labels, " "), ch)
			},
		)
		x.Explore(
			"custom parameters", 0, func(c *C) {
				types := append([]entityTyp{{tag: "x_type"}}, entityTypes()...)
				typ := types[c.Choose(len(types), "type")].tag
				v := Of(c, "value", append([]any{absent}, extras()...)...)
				v2 := Of(c, "other value", append([]any{absent}, extras()...)...)
				c.Commit()
				pol := Of[any](c, "policy", absent, M{"essential": true}, M{"default": "d"}, M{"value": l("v")}, M{"add": l("z")}, M{"one_of": []any{"x", 1.0, true, false, 0.0}}, M{"subset_of": l("a")})
				md := M{}
				if v != any(absent) {
					md["x_param"] = v
				}
				if v2 != any(absent) {
					md["x_other"] = v2
				}
				var mp any
				if pol != any(absent) {
					mp = M{typ: M{"x_param": pol}}
				}
				ch := chainFor(M{typ: md}, mp)
				c.Step("evaluate", c.labels)
				if ch == nil {
					c.Outcome("refused document")
					return
				}
				compareEval(c, typ+" "+strings.Join(c.labels, " "), ch)
			},
		)
		manyKeys, manyValues := []string{}, []any{}
		for i := range 400 {
			if i < 40 {
				manyKeys = append(manyKeys, fmt.Sprint("M", i))
			}
			manyValues = append(manyValues, fmt.Sprint(i), float64(i)/8, nil, i%2 == 0)
		}
		manyKeys = append(manyKeys, "L")
		bigKey := jwkOf("L")
		bigKey["x_large"] = strings.Repeat("large ", 20000)
		bigKeys := M{"keys": []any{ecJWK, bigKey}}
		claims := append(
			statementClaims(),
			memberAlts{"jwks", []any{jwksOf("L"), absent, M{"keys": l()}, jwksOf("L", "K1"), nil, M{"keys": []any{ecJWK}}, jwksOf(manyKeys...), bigKeys}},
			memberAlts{"x_large", []any{absent, strings.Repeat("0123456789", 10000), manyValues, M{"a": M{"b": manyValues}}}},
			memberAlts{"signing key", []any{"L", "T", "L!evil"}},
		)
		x.Explore(
			"claims", Pick(x, 2, 3), func(c *C) {
				p := M{"iss": "https://l", "sub": "https://l"}
				key := "L"
				for _, cl := range claims {
					v := DevOf(c, cl.name, cl.alts...)
					if cl.name == "signing key" {
						key = v.(string)
					} else if v != any(absent) {
						p[cl.name] = v
					}
				}
				c.Commit()
				s, err := oidfed.ParseEntityStatement(signJWT(key, "entity-statement+jwt", p))
				c.Step("statement", c.labels)
				if err != nil {
					c.Outcome("refused document")
					return
				}
				compareEval(c, strings.Join(c.labels, " "), oidfed.TrustChain{s})
			},
		)
		// a whole federation, resolved from more and more of the cache
		dims := []struct {
			where string
			claim string
			alts  []any
		}{
			{"L", "metadata", []any{
				absent, M{"openid_relying_party": M{"redirect_uris": l("https://a"), "default_max_age": 0, "require_auth_time": false, "client_name": "", "x_p": 0.0}, "x_type": M{"p": l("a")}},
				M{"openid_relying_party": M{}, "oauth_client": M{"scope": "a b"}, "oauth_resource": M{"resource": "r"}}, M{"openid_provider": M{"scopes_supported": l()}},
			}},
			{"T->I", "metadata_policy", []any{
				absent, M{"openid_relying_party": M{"contacts": M{"add": l("c")}, "client_name": M{"default": "n"}, "x_p": M{"default": 1.0}}, "x_type": M{"p": M{"add": l("b")}}},
				M{"openid_relying_party": M{"grant_types": M{"subset_of": l("a", "b")}, "require_auth_time": M{"essential": true}}},
				M{"openid_relying_party": M{"response_types": M{"value": nil}, "default_max_age": M{"default": 7.0}, "redirect_uris": M{"x-unknown": 1.0}}},
			}},
			{"I->L", "metadata_policy", []any{
				absent, M{"openid_relying_party": M{"contacts": M{"add": l("d")}, "client_name": M{"essential": true}}},
				M{"openid_relying_party": M{"grant_types": M{"subset_of": l("b", "c"), "default": l("b")}}}, M{"oauth_client": M{"scope": M{"subset_of": l("a")}}},
			}},
			{"T->I", "metadata_policy_crit", []any{absent, l("subset_of"), l("x-unknown"), l()}},
			{"T->I", "constraints", []any{absent, M{"max_path_length": 0}, M{"max_path_length": 1}, M{"allowed_entity_types": l()}, M{"allowed_entity_types": l("openid_relying_party", "x_type")}, M{"naming_constraints": M{"permitted": l(".example.org")}}, M{"naming_constraints": M{"excluded": l("l.example.org")}}}},
			{"T", "trust_mark_issuers", []any{absent, M{}, M{"a": l()}, M{"a": l("https://t.example.org")}}},
			{"T", "trust_mark_owners", []any{absent, M{"a": ownerSpec()}}},
			{"L", "trust_marks", []any{absent, l(), []any{tmInfo("a")}}},
			{"L", "x_claim", []any{absent, nil, 0.0, M{"a": l("b")}}},
			{"I->L", "exp", []any{absent, t0.Add(time.Hour).Unix(), t0.Add(-time.Second).Unix()}},
			{"I->L", "jwks", []any{absent, jwksOf("L", "K1"), jwksOf("K1"), M{"keys": l()}}},
			{"L", "jwks", []any{absent, jwksOf("L", "K1"), M{"keys": l()}}},
		}
		x.ExploreB(
			"resolution", Pick(x, 2, 3), func(c *C) {
				f := mkFed(map[string][]string{"L": {"I", "T"}, "I": {"T"}, "T": nil})
				for _, d := range dims {
					v := DevOf(c, d.where+" "+d.claim, d.alts...)
					if v == any(absent) {
						continue
					}
					var s *Stmt
					if a, b, ok := strings.Cut(d.where, "->"); ok {
						s = f.SS[[2]string{a, b}]
					} else {
						s = f.EC[d.where]
					}
					if s.Claims == nil {
						s.Claims = M{}
					}
					s.Claims[d.claim] = v
				}
				pinned := c.Choose(2, "pinned") == 1
				c.Commit()
				defer noRefresh()()
				f.install(newNet())
				as := []Anchor{{Name: "T"}}
				if pinned {
					as[0].Pin = []string{"T"}
				}
				mc := newMemCache()
				answer := func() string {
					tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
					cs := tr.ResolveToValidChains()
					synctest.Wait()
					var out []string
					for _, ch := range cs {
						s := chainKey(ch)
						for _, st := range ch {
							s += payloadJSON(st)
						}
						md, err := ch.Metadata()
						s += jsonOf(md) + fmt.Sprint(err != nil)
						out = append(out, s)
					}
					tr2 := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
					for _, ch := range tr2.ResolveToValidChainsWithoutVerifyingMetadata() {
						s := "unverified " + chainKey(ch)
						md, err := ch.Metadata()
						out = append(out, s+jsonOf(md)+fmt.Sprint(err != nil))
					}
					synctest.Wait()
					sortBy(out, func(a, b string) bool { return a < b })
					return strings.Join(out, "\n")
				}
				drop := func(prefixes ...string) {
					mc.mu.Lock()
					defer mc.mu.Unlock()
					for k := range mc.m {
						for _, p := range prefixes {
							if strings.HasPrefix(k, p+":") {
								delete(mc.m, k)
							}
						}
					}
				}
				want := answer()
				for _, from := range [][]string{
					nil,
					{cache.KeyTrustChainResolvedMetadata},
					{cache.KeyTrustTreeChains, cache.KeyTrustChainResolvedMetadata},
					{cache.KeyTrustTree, cache.KeyTrustTreeChains, cache.KeyTrustChainResolvedMetadata},
					{cache.KeyTrustTree},
					{cache.KeyEntityStatement, cache.KeyTrustTree},
				} {
					drop(from...)
					if got := answer(); got != want {
						c.Fail("with %v removed from the cache the answer is\n%s\nfirst it was\n%s", from, got, want)
						return
					}
					c.Step("resolve again", c.labels, from)
				}
				if want == "" {
					c.Outcome("no chains")
				} else {
					c.Outcome("chains")
				}
			},
		)
		x.ExploreB(
			"provider metadata", 0, func(c *C) {
				var op entityTyp
				for _, et := range entityTypes() {
					if et.tag == "openid_provider" {
						op = et
					}
				}
				p := op.params[c.Choose(len(op.params), "parameter")]
				c.labels[len(c.labels)-1] = p.tag
				v := Of(c, "value", valuesOf(p.typ)...)
				c.Commit()
				defer noRefresh()()
				f := mkFed(map[string][]string{"L": {"T"}, "T": nil})
				md := M{"issuer": f.ID("L"), "x_custom": M{"a": l("b")}}
				if v != any(absent) {
					md[p.tag] = v
				}
				f.EC["L"].Md = M{"openid_provider": md}
				f.install(newNet())
				newMemCache()
				leaf := oidfed.FederationLeaf{}
				leaf.TrustAnchors = f.libAnchors([]Anchor{{Name: "T"}})
				m1, e1 := leaf.ResolveOPMetadata(f.ID("L"))
				synctest.Wait()
				m2, e2 := leaf.ResolveOPMetadata(f.ID("L"))
				synctest.Wait()
				c.Step("resolve", c.labels, jsonOf(m1))
				if (e1 != nil) != (e2 != nil) || (e1 == nil && jsonOf(m1) != jsonOf(m2)) {
					c.Fail("%s: the metadata is %s (%v), the second time %s (%v)", strings.Join(c.labels, " "), jsonOf(m1), e1, jsonOf(m2), e2)
					return
				}
				c.Outcome(fmt.Sprint("provider resolved ", e1 == nil))
			},
		)
	}
}
