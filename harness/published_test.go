package zzverif

import (
	"encoding/json"
	"fmt"
	nethttp "net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// C23: what a FederationEntity publishes.

// pubConf is what an entity was configured with, in plain form.
type pubConf struct {
	id      string
	key     joseKey
	alg     string
	hints   []string
	md      M // nil: none
	life    int64
	marks   []pubMark
	issuers any
	owners  any
	extra   M
}

type pubMark struct {
	typ  string
	jwt  string // "" for a self-issued one
	exp  time.Time
	life time.Duration
}

func (p *pubConf) jwks() M {
	return M{"keys": []any{with(p.key.jwk(), "kid", p.key.thumbprint(), "alg", p.alg, "use", "sig")}}
}

// into decodes a plain value the way a configuration would be.
func into[T any](c *C, v any) T {
	var t T
	if err := json.Unmarshal([]byte(jsonOf(v)), &t); err != nil {
		c.Fail("reading %s: %v", jsonOf(v), err)
	}
	return t
}

func (p *pubConf) metadata(c *C) *oidfed.Metadata {
	if p.md == nil {
		return nil
	}
	md := into[oidfed.Metadata](c, p.md)
	return &md
}

// entity builds the library's entity from the configuration.
func (p *pubConf) entity(c *C, leaf bool) *oidfed.FederationEntity {
	signer := oidfed.NewEntityStatementSigner(p.key.priv, algOf(p.alg))
	var fe *oidfed.FederationEntity
	var extra map[string]any
	if p.extra != nil {
		extra = into[map[string]any](c, p.extra)
	}
	if leaf {
		ok := joseKeyOf("P-256", 3)
		fl, err := oidfed.NewFederationLeaf(
			p.id, append([]string(nil), p.hints...), oidfed.TrustAnchors{{EntityID: "https://t.example.org"}}, p.metadata(c), signer, p.life,
			ok.priv, algOf("ES256"), extra,
		)
		if err != nil {
			c.Fail("NewFederationLeaf: %v", err)
		}
		fe = &fl.FederationEntity
	} else {
		var err error
		fe, err = oidfed.NewFederationEntity(p.id, append([]string(nil), p.hints...), p.metadata(c), signer, p.life, extra)
		if err != nil {
			c.Fail("NewFederationEntity: %v", err)
		}
	}
	if p.issuers != absent {
		fe.TrustMarkIssuers = into[oidfed.AllowedTrustMarkIssuers](c, p.issuers)
	}
	if p.owners != absent {
		fe.TrustMarkOwners = into[oidfed.TrustMarkOwners](c, p.owners)
	}
	for _, m := range p.marks {
		fe.TrustMarks = append(fe.TrustMarks, p.markConfig(c, m))
	}
	return fe
}

func (p *pubConf) markConfig(c *C, m pubMark) *oidfed.EntityConfigurationTrustMarkConfig {
	cfg := &oidfed.EntityConfigurationTrustMarkConfig{JWT: m.jwt}
	if m.jwt == "" {
		cfg = &oidfed.EntityConfigurationTrustMarkConfig{
			TrustMarkType: m.typ, SelfIssued: true,
			SelfIssuanceSpec: into[oidfed.TrustMarkSpec](c, M{"lifetime": m.life.Seconds(), "logo_uri": "https://logo"}),
		}
	}
	if err := cfg.Verify(p.id, p.id+"/tm", oidfed.NewTrustMarkSigner(p.key.priv, algOf(p.alg))); err != nil {
		c.Fail("configuring the trust mark %+v: %v", m, err)
	}
	return cfg
}

// judgePublished compares a published entity configuration with what was
// configured.
func (p *pubConf) judgePublished(c *C, jwt []byte, now time.Time) {
	got, bad := joseVerifyJWT(string(jwt), p.key, "entity-statement+jwt", p.alg)
	if bad != "" {
		c.Fail("the published configuration is wrong: %s", bad)
		return
	}
	var h M
	_ = json.Unmarshal(unb64(strings.Split(string(jwt), ".")[0]), &h)
	if h["kid"] != p.key.thumbprint() {
		c.Fail("kid is %v", h["kid"])
	}
	life := p.life
	if life <= 0 {
		life = 86400
	}
	if !stampOK(got["iat"], now) {
		c.Fail("iat is %v at %v", got["iat"], now)
	}
	if !stampOK(got["exp"], now.Add(time.Duration(life)*time.Second)) {
		c.Fail("exp is %v, published at %v for %d s", got["exp"], now, life)
	}
	// keys
	set, _ := got["jwks"].(map[string]any)
	ks, _ := set["keys"].([]any)
	if len(ks) != 1 {
		c.Fail("jwks is %s", jsonOf(got["jwks"]))
		return
	}
	k, _ := ks[0].(map[string]any)
	for n, v := range with(p.key.jwk(), "kid", p.key.thumbprint()) {
		if k[n] != v {
			c.Fail("the published key has %s=%v instead of %v", n, k[n], v)
		}
	}
	if v, ok := k["alg"]; ok && v != p.alg {
		c.Fail("the published key says alg=%v, not %v", v, p.alg)
	}
	if v, ok := k["use"]; ok && v != "sig" {
		c.Fail("the published key says use=%v", v)
	}
	if _, ok := k["d"]; ok {
		c.Fail("the private key is published")
	}
	// trust marks
	var want []string
	for _, m := range p.marks {
		if m.jwt == "" {
			want = append(want, m.typ+" self")
		} else if m.exp.IsZero() || now.Before(m.exp) {
			want = append(want, m.typ+" "+m.jwt)
		}
	}
	var have []string
	ms, _ := got["trust_marks"].([]any)
	for _, mm := range ms {
		m, _ := mm.(map[string]any)
		typ, _ := m["trust_mark_type"].(string)
		j, _ := m["trust_mark"].(string)
		for n := range m {
			if n != "trust_mark" && n != "trust_mark_type" {
				c.Fail("a published trust mark has the member %s", n)
			}
		}
		if payloadOf([]byte(j))["iss"] == p.id {
			mp, bad := joseVerifyJWT(j, p.key, "trust-mark+jwt", p.alg)
			exp, _ := mp["exp"].(float64)
			if bad != "" || mp["sub"] != p.id || mp["trust_mark_type"] != typ || int64(exp) <= now.Unix() {
				c.Fail("the self-issued trust mark is wrong: %s %s", bad, jsonOf(mp))
			}
			j = "self"
		}
		have = append(have, typ+" "+j)
	}
	sort.Strings(want)
	sort.Strings(have)
	if jsonOf(want) != jsonOf(have) {
		c.Fail("published trust marks are %s instead of %s", short(jsonOf(have)), short(jsonOf(want)))
	}
	// the rest
	exp := M{"iss": p.id, "sub": p.id}
	if len(p.hints) > 0 {
		hs := []any{}
		for _, h := range p.hints {
			hs = append(hs, h)
		}
		exp["authority_hints"] = hs
	}
	if p.md != nil {
		exp["metadata"] = p.md
	}
	if p.issuers != absent {
		exp["trust_mark_issuers"] = p.issuers
	}
	if p.owners != absent {
		exp["trust_mark_owners"] = p.owners
	}
	for n, v := range p.extra {
		exp[n] = v
	}
	rest := M{}
	for n, v := range got {
		switch n {
		case "iat", "exp", "jwks", "trust_marks":
		default:
			rest[n] = v
		}
	}
	// an empty list of issuers means something: nobody may issue the type
	for _, side := range []M{exp, rest} {
		g, _ := generic(side["trust_mark_issuers"]).(map[string]any)
		out := M{}
		for t, l := range g {
			if ll, ok := l.([]any); ok && len(ll) == 0 || l == nil {
				out[t] = "nobody"
			} else {
				out[t] = l
			}
		}
		side["trust_mark_issuers"] = out
	}
	if !sameJSON(rest, exp) {
		c.Fail("published %s, configured was %s", jsonOf(rest), jsonOf(exp))
	}
}

// pubMetadata are the metadata alternatives: none, some and all there are.
func pubMetadata() []M {
	all := M{}
	for _, t := range entityTypes() {
		m := M{"x_" + t.tag: M{"a": l("b")}}
		for _, p := range t.params {
			if s := someJSON(p.typ); len(s) > 0 {
				m[p.tag] = s[0]
			}
		}
		all[t.tag] = m
	}
	all["x_type"] = M{"a": 1.5, "b": l("c")}
	return []M{
		{"openid_relying_party": M{"client_name": "x", "redirect_uris": l("https://l.example.org/cb"), "x_custom": M{"y": 1.0}}},
		nil,
		{"openid_provider": M{"issuer": "https://l.example.org", "scopes_supported": l("openid", "a<b>&c")}},
		all,
		{"x_type": M{"a": "b"}},
		{"openid_relying_party": M{}},
	}
}

func pubMarks(c *C, id string) []pubMark {
	mk := func(typ string, exp time.Duration) pubMark {
		m := pubMark{typ: typ}
		if exp != 0 {
			m.exp = t0.Add(exp)
		}
		m.jwt = rfMark("trust-mark+jwt", typ, id, rfIssuer, m.exp, 1)
		return m
	}
	switch v := DevOf(c, "trust marks", "none", "one", "two", "expired", "expired and good", "expiring", "self", "two self", "without exp", "same type twice"); v {
	case "one":
		return []pubMark{mk(tmType, 9*time.Hour)}
	case "two":
		return []pubMark{mk(tmType, 9*time.Hour), mk(tmOther, 8*time.Hour)}
	case "expired":
		return []pubMark{mk(tmType, -time.Hour)}
	case "expired and good":
		return []pubMark{mk(tmOther, -time.Second), mk(tmType, 9*time.Hour)}
	case "expiring":
		return []pubMark{mk(tmType, 9*time.Hour), mk(tmOther, 30*time.Minute)}
	case "self":
		return []pubMark{{typ: tmType, life: time.Hour}}
	case "two self":
		return []pubMark{{typ: tmType, life: time.Hour}, mk(tmOther, 9*time.Hour), {typ: "https://tm.example.org/third", life: 2 * time.Minute}}
	case "without exp":
		return []pubMark{mk(tmType, 0)}
	case "same type twice":
		return []pubMark{mk(tmType, 9*time.Hour), mk(tmType, 8*time.Hour)}
	}
	return nil
}

// pubServe makes an entity configuration available.
func pubServe(n *Net, id string, ec func() []byte, fetch func(sub string) []byte) {
	n.set(
		strings.TrimSuffix(id, "/")+"/.well-known/openid-federation", func(*nethttp.Request) *Resp { return &Resp{Body: ec()} },
	)
	if fetch != nil {
		n.set(
			id+"/fetch", func(r *nethttp.Request) *Resp {
				q, err := url.ParseQuery(r.URL.RawQuery)
				if err != nil || len(q["sub"]) != 1 {
					return jsonResp(400, M{"error": "invalid_request"})
				}
				if b := fetch(q.Get("sub")); b != nil {
					return &Resp{Body: b}
				}
				return notFound()
			},
		)
	}
}

func (p *pubConf) dev(c *C, n int) {
	if k := DevOf(c, "key", "Ed25519", "P-256", "P-384", "P-521", "RSA"); k == "RSA" {
		p.key = joseKeyOf(k, 0)
		p.alg = DevOf(c, "alg", "PS256", "RS256", "PS384", "PS512", "RS384", "RS512")
	} else {
		p.key = joseKeyOf(k, n)
		p.alg = p.key.algs[0]
	}
	p.life = DevOf[int64](c, "lifetime", 86400, 0, -5, 1, 600, 3153600000)
	p.issuers = DevOf[any](
		c, "trust mark issuers", absent, M{}, M{tmType: l()}, M{tmType: l("https://x.example.org"), tmOther: l("https://a", "https://b")},
	)
	p.owners = DevOf[any](
		c, "trust mark owners", absent, M{}, M{tmType: ownerSpec()}, M{tmType: ownerSpec(), tmOther: M{"sub": "https://p", "jwks": jwksOf("O", "P")}},
	)
	p.extra = DevOf[M](c, "extra", nil, M{}, M{"x_a": "b"}, M{"x_a": M{"b": l("c", "d")}, "x_n": 1.5, "x_z": false, "ISS": "y"})
	p.marks = pubMarks(c, p.id)
}

func explorePublish(x *X, k int) {
	x.ExploreB(
		"publish", k, func(c *C) {
			off := DevOf(c, "time of day", 0, 499*time.Millisecond, 999999999*time.Nanosecond, 123456789*time.Nanosecond)
			role := Of(c, "role", "leaf", "leaf type", "intermediate", "anchor")
			p := &pubConf{id: DevOf(c, "id", "https://l.example.org", "https://l.example.org/", "https://l.example.org/a/b", "https://l.example.org:8443")}
			if role == "anchor" || role == "intermediate" {
				p.id = strings.Replace(p.id, "/l.", "/"+role[:1]+".", 1)
			}
			p.hints = DevOf(
				c, "hints", []string{"https://t.example.org"}, nil, []string{},
				[]string{"https://none.example.org", "https://t.example.org"}, []string{"https://t.example.org", "https://none.example.org"},
			)
			p.md = DevOf(c, "metadata", pubMetadata()...)
			p.dev(c, 1)
			wait := DevOf(c, "wait", 0, 599*time.Second, time.Hour)
			c.Commit()
			if role == "anchor" || role == "intermediate" {
				md := M{"federation_entity": M{"federation_fetch_endpoint": p.id + "/fetch", "federation_list_endpoint": p.id + "/list"}}
				for n, v := range p.md {
					if n != "federation_entity" {
						md[n] = v
					}
				}
				p.md = md
			}
			newMemCache()
			time.Sleep(off)
			fe := p.entity(c, role == "leaf type")
			if role == "anchor" {
				fe.AuthorityHints, p.hints = nil, nil
			}
			time.Sleep(wait)
			if g := fe.JWKS(); !sameJSON(keyCore(generic(g)), keyCore(generic(p.jwks()))) {
				c.Fail("JWKS() is %s", jsonOf(g))
			}
			before := jsonOf(fe.Metadata)
			jwt, err := fe.EntityConfigurationJWT()
			if err != nil {
				c.Fail("EntityConfigurationJWT: %v", err)
			}
			now := time.Now()
			p.judgePublished(c, jwt, now)
			if jsonOf(fe.Metadata) != before {
				c.Fail("publishing changed the configuration")
			}
			c.Step("published")
			life := p.life
			if life <= 0 {
				life = 86400
			}
			// resolution
			listed := payloadOf(jwt)["jwks"]
			n := newNet()
			mk := func(name string, k joseKey, alg string, m any, hints []any, jwks any) func() []byte {
				return func() []byte {
					pl := M{
						"iss": name, "sub": name, "iat": t0.Add(-time.Hour).Unix(), "exp": t0.Add(1000000 * time.Hour).Unix(), "jwks": jwks,
						"metadata": m,
					}
					if len(hints) > 0 {
						pl["authority_hints"] = hints
					}
					return joseJWT(k, alg, pl)
				}
			}
			ownKeys := func(k joseKey) M { return M{"keys": []any{with(k.jwk(), "kid", k.thumbprint())}} }
			ss := func(k joseKey, alg, iss, sub string, jwks any) []byte {
				pl := M{"iss": iss, "sub": sub, "iat": t0.Add(-time.Hour).Unix(), "exp": t0.Add(1000000 * time.Hour).Unix(), "jwks": jwks}
				return joseJWT(k, alg, pl)
			}
			tk, dk := joseKeyOf("Ed25519", 8), joseKeyOf("Ed25519", 9)
			const t, d = "https://t.example.org", "https://down.example.org"
			start, wantMd := p.id, p.md
			anchors := oidfed.TrustAnchors{{EntityID: t}}
			ids := []string{t}
			has := false
			for _, h := range p.hints {
				has = has || h == t
			}
			length := 3
			switch role {
			case "anchor":
				anchors = oidfed.TrustAnchors{{EntityID: p.id}}
				if Of(c, "pinned", false, true) {
					anchors[0].JWKS = fe.JWKS()
				}
				ids = []string{p.id}
				start, wantMd = d, leafMd()
				has = true
				pubServe(n, d, mk(d, dk, "EdDSA", leafMd(), []any{p.id}, ownKeys(dk)), nil)
				pubServe(
					n, p.id, func() []byte { return jwt }, func(sub string) []byte {
						if sub != d {
							return nil
						}
						return ss(p.key, p.alg, p.id, d, ownKeys(dk))
					},
				)
			default:
				pubServe(
					n, t, mk(t, tk, "EdDSA", M{"federation_entity": M{"federation_fetch_endpoint": t + "/fetch"}}, nil, ownKeys(tk)), func(sub string) []byte {
						if sub != p.id {
							return nil
						}
						return ss(tk, "EdDSA", t, p.id, listed)
					},
				)
				if role == "intermediate" {
					start, wantMd = d, leafMd()
					length = 4
					pubServe(n, d, mk(d, dk, "EdDSA", leafMd(), []any{p.id}, ownKeys(dk)), nil)
				}
				pubServe(
					n, p.id, func() []byte { return jwt }, func(sub string) []byte {
						if sub != d {
							return nil
						}
						return ss(p.key, p.alg, p.id, d, ownKeys(dk))
					},
				)
			}
			for _, at := range []time.Duration{time.Microsecond, time.Duration(life)*time.Second - 100*time.Millisecond, time.Duration(life)*time.Second + time.Second} {
				if at > 10*365*24*time.Hour {
					continue
				}
				newMemCache() // what was seen earlier must not play a role
				time.Sleep(time.Until(now.Add(at)))
				valid := has && at <= time.Duration(life)*time.Second
				r := oidfed.TrustResolver{TrustAnchors: anchors, StartingEntity: start}
				chains := r.ResolveToValidChains()
				if !valid {
					if len(chains) != 0 {
						c.Fail("%v after publication there is a chain %s", at, descChain(chains[0]))
					}
					c.Step("no chain", at)
					continue
				}
				if len(chains) != 1 || len(chains[0]) != length {
					c.Fail("%v after publication there are %d chains for the %s with the published configuration", at, len(chains), role)
					return
				}
				md, err := oidfed.LocalMetadataResolver{}.Resolve(apimodel.ResolveRequest{Subject: start, TrustAnchor: ids})
				if err != nil {
					c.Fail("resolving %s: %v", start, err)
					return
				}
				if wantMd == nil {
					wantMd = M{}
				}
				if md != nil && !sameJSON(md, wantMd) || md == nil && len(wantMd) > 0 {
					c.Fail("resolved %s, configured was %s", jsonOf(md), jsonOf(wantMd))
				}
				c.Step("resolved", at)
			}
		},
	)
}

// joseJWT signs an entity statement.
func joseJWT(k joseKey, alg string, pl M) []byte {
	in := b64([]byte(jsonOf(M{"alg": alg, "kid": k.thumbprint(), "typ": "entity-statement+jwt"}))) + "." + b64([]byte(jsonOf(pl)))
	return []byte(in + "." + b64(k.sign(alg, in, nil)))
}

// keyCore leaves the optional members of keys out.
func keyCore(set any) any {
	m, _ := set.(map[string]any)
	ks, _ := m["keys"].([]any)
	out := []any{}
	for _, k := range ks {
		km, _ := k.(map[string]any)
		o := M{}
		for n, v := range km {
			if n != "alg" && n != "use" {
				o[n] = v
			}
		}
		out = append(out, o)
	}
	return out
}

// exploreOwnFed: a federation all members of which publish with the library,
// subordinate statements included.
func exploreOwnFed(x *X, k int) {
	x.ExploreB(
		"federation", k, func(c *C) {
			confs := map[string]*pubConf{}
			fes := map[string]*oidfed.FederationEntity{}
			names := []string{"L", "I", "J", "T"}
			id := func(n string) string { return "https://" + strings.ToLower(n) + ".example.org" }
			edges := map[string][]string{}
			edges["L"] = DevOf(c, "hints(L)", []string{"I"}, []string{"I", "J"}, []string{"J", "T"}, []string{"T"}, nil)
			edges["I"] = DevOf(c, "hints(I)", []string{"T"}, []string{"J"}, []string{"J", "T"}, nil)
			edges["J"] = DevOf(c, "hints(J)", []string{"T"}, []string{"I"}, nil)
			for i, n := range names {
				p := &pubConf{id: id(n), issuers: absent, owners: absent, life: 86400}
				p.key = joseKeyOf(DevOf(c, "key "+n, "Ed25519", "P-256", "P-521"), i+1)
				p.alg = p.key.algs[0]
				for _, h := range edges[n] {
					p.hints = append(p.hints, id(h))
				}
				p.md = M{"federation_entity": M{"federation_fetch_endpoint": id(n) + "/fetch", "organization_name": n}}
				if n == "L" {
					p.md["openid_provider"] = M{"issuer": id(n), "scopes_supported": l("a", "b"), "x_l": "l"}
					p.md["x_type"] = M{"v": l("a")}
				}
				confs[n] = p
			}
			// a subordinate statement's content, one for each superior
			type st struct {
				claims M
				life   time.Duration
				keys   string
			}
			sts := map[[2]string]*st{}
			for _, sub := range names {
				for _, sup := range edges[sub] {
					s := &st{claims: M{}, life: 12 * time.Hour}
					w := sup + ">" + sub
					if v := DevOf[any](c, "policy "+w, absent, M{"openid_provider": M{"scopes_supported": M{"subset_of": l("a")}, "x_n": M{"value": 1.5}}}, M{"x_type": M{"v": M{"add": l(sup)}}}, M{"openid_provider": M{"issuer": M{"one_of": l("x")}}}); v != absent {
						s.claims["metadata_policy"] = v
					}
					if v := DevOf[any](c, "constraints "+w, absent, M{"max_path_length": 0}, M{"naming_constraints": M{"excluded": l("l.example.org")}}, M{"allowed_entity_types": l("openid_provider", "x_type")}); v != absent {
						s.claims["constraints"] = v
					}
					for n, v := range DevOf(c, "more "+w, M{}, M{"x_a": M{"b": 1.5}}, M{"source_endpoint": id(sup) + "/fetch"}, M{"trust_mark_issuers": M{"a": l("b")}}) {
						s.claims[n] = v
					}
					s.life = DevOf(c, "lifetime "+w, 12*time.Hour, time.Minute, -time.Second)
					s.keys = DevOf(c, "keys "+w, "right", "other")
					sts[[2]string{sup, sub}] = s
				}
			}
			c.Commit()
			newMemCache()
			n := newNet()
			start := time.Now()
			f := newFed()
			for _, nm := range names {
				p := confs[nm]
				fe := p.entity(c, false)
				fes[nm] = fe
				jwt, err := fe.EntityConfigurationJWT()
				if err != nil {
					c.Fail("EntityConfigurationJWT: %v", err)
				}
				p.judgePublished(c, jwt, start)
				f.EC[nm] = &Stmt{Raw: jwt}
			}
			for kk, s := range sts {
				sup, sub := kk[0], kk[1]
				keys := confs[sub].jwks()
				if s.keys == "other" {
					keys = (&pubConf{key: joseKeyOf("Ed25519", 0), alg: "EdDSA"}).jwks()
				}
				pl := M{"iss": id(sup), "sub": id(sub), "iat": start.Unix(), "exp": start.Add(s.life).Unix(), "jwks": keys}
				for n, v := range s.claims {
					pl[n] = v
				}
				jwt, err := fes[sup].SignEntityStatement(into[oidfed.EntityStatementPayload](c, pl))
				if err != nil {
					c.Fail("SignEntityStatement: %v", err)
				}
				got, bad := joseVerifyJWT(string(jwt), confs[sup].key, "entity-statement+jwt", confs[sup].alg)
				if bad != "" || !sameJSON(got, pl) {
					c.Fail("the statement of %s about %s is wrong: %s; %s instead of %s", sup, sub, bad, jsonOf(got), jsonOf(pl))
				}
				f.SS[kk] = &Stmt{Raw: jwt}
			}
			f.install(n)
			for _, at := range []time.Duration{0, 2 * time.Minute} {
				newMemCache()
				time.Sleep(time.Until(start.Add(at)))
				// what a reader has to make of it
				type chain struct {
					path  []string
					ok    bool
					clash bool
				}
				var chains []chain
				var rec func(path []string)
				rec = func(path []string) {
					cur := path[len(path)-1]
					if cur == "T" {
						chains = append(chains, chain{path: path})
						return
					}
					for _, h := range edges[cur] {
						loop := false
						for _, p := range path {
							loop = loop || p == h
						}
						s := sts[[2]string{h, cur}]
						if loop || s.keys != "right" || at >= s.life {
							continue
						}
						ok := true
						if pol, _ := s.claims["metadata_policy"].(M); pol != nil && jsonOf(pol["openid_provider"]) == `{"issuer":{"one_of":["x"]}}` {
							ok = false // L's issuer is not x
						}
						if cs, _ := s.claims["constraints"].(M); cs != nil {
							if _, has := cs["max_path_length"]; has && len(path) > 1 {
								ok = false
							}
							if _, has := cs["naming_constraints"]; has {
								ok = false // every chain starts at L
							}
						}
						if ok {
							rec(append(append([]string{}, path...), h))
						}
					}
				}
				rec([]string{"L"})
				want := map[string]bool{}
				for _, ch := range chains {
					raw := [][]byte{f.EC["L"].Raw}
					for i := 1; i < len(ch.path); i++ {
						raw = append(raw, f.SS[[2]string{ch.path[i], ch.path[i-1]}].Raw)
					}
					want[chainKeyRaw(append(raw, f.EC["T"].Raw))] = true
				}
				r := oidfed.TrustResolver{TrustAnchors: oidfed.TrustAnchors{{EntityID: id("T")}}, StartingEntity: id("L")}
				got := map[string]bool{}
				for _, g := range r.ResolveToValidChains() {
					got[chainKey(g)] = true
					if !want[chainKey(g)] {
						c.Fail("%v: resolved to %s, which is not valid", at, descChain(g))
					}
				}
				for w := range want {
					if !got[w] {
						c.Fail("%v: of the chains of what the library published %d are found, %d are valid", at, len(got), len(want))
					}
				}
				c.Step("resolve", at, len(want))
				c.Outcome(fmt.Sprintf("%d chains", len(want)))
			}
		},
	)
}

// explorePubHistories: every publication states what is configured by then.
func explorePubHistories(x *X, depth int) {
	x.ExploreB(
		"histories", 0, func(c *C) {
			p := &pubConf{id: "https://l.example.org", issuers: absent, owners: absent, life: 3600, key: joseKeyOf("Ed25519", 1), alg: "EdDSA"}
			p.md = pubMetadata()[0]
			p.hints = []string{"https://t.example.org"}
			newMemCache()
			fe := p.entity(c, false)
			type pub struct {
				jwt, copy []byte
				at        time.Time
				conf      pubConf
			}
			var pubs []pub
			mark := func(typ string, exp time.Duration) pubMark {
				m := pubMark{typ: typ, exp: time.Now().Add(exp)}
				m.jwt = rfMark("trust-mark+jwt", typ, p.id, rfIssuer, m.exp, len(p.marks))
				return m
			}
			for i := 0; i < depth; i++ {
				op := Of(
					c, "op", "publish", "wait 20m", "wait 1s", "hints", "more hints", "metadata", "change metadata", "mark", "self mark", "drop marks",
					"issuers", "owner", "extra", "lifetime",
				)
				if i == 3 {
					c.Commit()
				}
				switch op {
				case "publish":
					jwt, err := fe.EntityConfigurationJWT()
					if err != nil {
						c.Fail("EntityConfigurationJWT: %v", err)
						return
					}
					p.judgePublished(c, jwt, time.Now())
					pubs = append(pubs, pub{jwt: jwt, copy: append([]byte(nil), jwt...)})
				case "wait 20m":
					time.Sleep(20 * time.Minute)
				case "wait 1s":
					time.Sleep(time.Second)
				case "hints":
					p.hints = []string{"https://u.example.org"}
					fe.AuthorityHints = []string{"https://u.example.org"}
				case "more hints":
					p.hints = append(append([]string{}, p.hints...), "https://v.example.org")
					fe.AuthorityHints = append(fe.AuthorityHints, "https://v.example.org")
				case "metadata":
					p.md = M{"openid_provider": M{"issuer": "x"}}
					fe.Metadata = p.metadata(c)
				case "change metadata":
					p.md = with(p.md, "federation_entity", M{"organization_name": fmt.Sprint(i)})
					fe.Metadata.FederationEntity = p.metadata(c).FederationEntity
				case "mark":
					m := mark(tmType, 30*time.Minute)
					p.marks = append(p.marks, m)
					fe.TrustMarks = append(fe.TrustMarks, p.markConfig(c, m))
				case "self mark":
					m := pubMark{typ: tmOther, life: 2 * time.Minute}
					p.marks = append(p.marks, m)
					fe.TrustMarks = append(fe.TrustMarks, p.markConfig(c, m))
				case "drop marks":
					p.marks, fe.TrustMarks = nil, nil
				case "issuers":
					p.issuers = M{tmType: l(), tmOther: l(fmt.Sprint("https://", i))}
					fe.TrustMarkIssuers = into[oidfed.AllowedTrustMarkIssuers](c, p.issuers)
				case "owner":
					p.owners = M{tmType: ownerSpec()}
					fe.TrustMarkOwners = into[oidfed.TrustMarkOwners](c, p.owners)
				case "extra":
					p.extra = M{"x_e": i}
					fe.Extra = map[string]any{"x_e": i}
				case "lifetime":
					p.life = 60
					fe.ConfigurationLifetime = 60
				}
				for _, e := range pubs {
					if string(e.jwt) != string(e.copy) {
						c.Fail("an earlier publication has changed")
					}
				}
				c.Step(op)
			}
			jwt, err := fe.EntityConfigurationJWT()
			if err != nil {
				c.Fail("EntityConfigurationJWT: %v", err)
				return
			}
			p.judgePublished(c, jwt, time.Now())
			c.State(jsonOf(payloadOf(jwt)))
		},
	)
}

func init() {
	registry["C23"] = func(x *X) {
		explorePublish(x, Pick(x, 2, 3))
		exploreOwnFed(x, Pick(x, 2, 3))
		explorePubHistories(x, Pick(x, 4, 5))
	}
}
