package zzverif

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/unixtime"
)

// C13: issued trust marks and delegations.

func algOf(name string) jwa.SignatureAlgorithm {
	a, ok := jwa.LookupSignatureAlgorithm(name)
	if !ok {
		panic(name)
	}
	return a
}

// joseVerifyJWT verifies with the harness's own implementation and gives the
// payload; the key has to be the one named by the kid.
func joseVerifyJWT(jwt string, k joseKey, typ, alg string) (M, string) {
	parts := strings.Split(jwt, ".")
	if len(parts) != 3 {
		return nil, "not a compact JWS"
	}
	var h M
	if json.Unmarshal(unb64(parts[0]), &h) != nil {
		return nil, "header is not JSON"
	}
	if h["typ"] != typ {
		return nil, fmt.Sprintf("typ is %v", h["typ"])
	}
	if h["alg"] != alg {
		return nil, fmt.Sprintf("alg is %v", h["alg"])
	}
	if !joseVerify(k.jwk(), alg, parts[0]+"."+parts[1], unb64(parts[2])) {
		return nil, "signature"
	}
	var p M
	if json.Unmarshal(unb64(parts[1]), &p) != nil {
		return nil, "payload is not JSON"
	}
	return p, ""
}

// stampOK compares a time in seconds with the expected one; the doubles of JSON
// tell apart less than a microsecond.
func stampOK(v any, want time.Time) bool {
	f, ok := v.(float64)
	return ok && math.Abs(f-(float64(want.Unix())+float64(want.Nanosecond())/1e9)) < 1.0000001
}

func exploreIssue(x *X, k int) {
	x.ExploreB(
		"issue", k, func(c *C) {
			off := DevOf(c, "time of day", 0, 499*time.Millisecond, 500*time.Millisecond, 999999999*time.Nanosecond, 123456789*time.Nanosecond)
			kind := DevOf(c, "key", "Ed25519", "P-256", "P-384", "P-521", "RSA")
			key := joseKeyOf(kind, 0)
			alg := key.algs[0]
			if kind == "RSA" {
				alg = DevOf(c, "alg", "PS256", "RS256", "PS384", "PS512", "RS384", "RS512")
			}
			issuer := DevOf(c, "issuer", "X", "T")
			sub := DevOf(c, "subject", "https://l.example.org", "https://l.example.org/", "X", "")
			if sub == "X" {
				sub = "https://x.example.org"
			}
			via := DevOf(c, "specs", "struct", "json", "yaml", "AddTrustMark", "AddTrustMark again", "AddTrustMark beside")
			lf := DevOf(c, "lifetime", time.Hour, 0, time.Second, 90*time.Minute+1500*time.Millisecond)
			logo := DevOf(c, "logo", "", "https://x.example.org/logo.png?a=<&>")
			ref := DevOf(c, "ref", "", "https://x.example.org/ref")
			extra := DevOf[any](c, "extra", absent, M{"level": "high"}, M{"n": 1.5, "o": M{"a": nil}, "l": l("x")})
			inc := DevOf(c, "include extra", false, true)
			// the delegation
			delegated := Of(c, "delegated", false, true)
			var dlf time.Duration
			var dreq any = absent
			var dextra any = absent
			dref := ""
			if delegated {
				dlf = DevOf(c, "delegation lifetime", 40*time.Minute, 0, 4*time.Hour, time.Second)
				dreq = DevOf[any](c, "requested delegation lifetime", absent, 30*time.Minute, 5*time.Hour, -time.Minute)
				dref = DevOf(c, "delegation ref", "", "https://w.example.org/ref")
				dextra = DevOf[any](c, "delegation extra", absent, M{"why": "because"})
			}
			owned := DevOf(c, "owner known to the anchor", delegated, !delegated)
			listed := DevOf(c, "issuers listed", true, false)
			type req struct {
				typ string
				lf  any
			}
			var reqs []req
			for i := 0; i < Pick(x, 2, 3); i++ {
				var r req
				r.typ = DevOf(c, "type", tmType, tmOther, "", "https://tm.example.org/typ", "https://tm.example.org/type/")
				r.lf = DevOf[any](c, "requested lifetime", absent, 2*time.Hour, time.Second, 1500*time.Millisecond, -time.Minute)
				reqs = append(reqs, r)
			}
			c.Commit()
			newMemCache()
			time.Sleep(off)
			ws := joseKeyOf("Ed25519", 7)
			owner := oidfed.NewTrustMarkOwner(
				"https://w.example.org", oidfed.NewTrustMarkDelegationSigner(ws.priv, jwa.EdDSA()),
				[]oidfed.OwnedTrustMark{{ID: tmOther, DelegationLifetime: 7 * time.Minute, Ref: "other"}},
			)
			if _, err := owner.DelegationJWT(tmType, "https://x.example.org"); err == nil {
				c.Fail("a delegation is issued for a type that is not owned")
			}
			f := mkFed(map[string][]string{"L": {"T"}, "X": {"I"}, "Y": {"T"}, "I": {"T"}, "T": nil})
			issuerID := f.ID(issuer)
			deleg := ""
			var dexp *time.Time
			if delegated {
				spec := oidfed.OwnedTrustMark{ID: tmType, DelegationLifetime: dlf, Ref: dref}
				if m, ok := dextra.(M); ok {
					spec.Extra = m
				}
				if via == "AddTrustMark again" {
					owner.AddTrustMark(
						oidfed.OwnedTrustMark{
							ID: tmType, DelegationLifetime: 3 * time.Minute, Ref: "old", Extra: map[string]any{"old": true},
						},
					)
				}
				owner.AddTrustMark(spec)
				var args []time.Duration
				eff := dlf
				if d, ok := dreq.(time.Duration); ok {
					args = append(args, d)
					eff = d
				}
				d, err := owner.DelegationJWT(tmType, issuerID, args...)
				if err != nil {
					c.Fail("DelegationJWT: %v", err)
				}
				p, bad := joseVerifyJWT(string(d), ws, "trust-mark-delegation+jwt", "EdDSA")
				if bad != "" {
					c.Fail("the delegation issued is wrong: %s", bad)
				}
				want := M{"iss": "https://w.example.org", "sub": issuerID, "trust_mark_type": tmType}
				if dref != "" {
					want["ref"] = dref
				}
				if m, ok := dextra.(M); ok {
					for k, v := range m {
						want[k] = v
					}
				}
				if eff != 0 {
					e := time.Now().Add(eff)
					dexp = &e
				}
				sameIssued(c, "delegation", p, want, time.Now(), dexp)
				deleg = string(d)
			}
			// the issuer
			spec := oidfed.TrustMarkSpec{
				TrustMarkType: tmType, Lifetime: unixtime.DurationInSeconds{Duration: lf}, Ref: ref, LogoURI: logo,
				IncludeExtraClaimsInInfo: inc, DelegationJWT: deleg,
			}
			if m, ok := extra.(M); ok {
				spec.Extra = m
			}
			doc := M{
				"trust_mark_type": tmType, "lifetime": lf.Seconds(), "ref": ref, "logo_uri": logo,
				"include_extra_claims_in_info": inc, "delegation_jwt": deleg,
			}
			if m, ok := extra.(M); ok {
				for k, v := range m {
					doc[k] = v
				}
			}
			otherSpec := oidfed.TrustMarkSpec{TrustMarkType: tmOther, Lifetime: unixtime.NewDurationInSeconds(600), LogoURI: "https://x.example.org/other"}
			signer := oidfed.NewTrustMarkSigner(key.priv, algOf(alg))
			var iss *oidfed.TrustMarkIssuer
			wantTypes := []string{tmOther, tmType}
			switch via {
			case "struct":
				iss = oidfed.NewTrustMarkIssuer(issuerID, signer, []oidfed.TrustMarkSpec{otherSpec, spec})
			case "json", "yaml":
				var s oidfed.TrustMarkSpec
				var err error
				if via == "json" {
					err = json.Unmarshal([]byte(jsonOf(doc)), &s)
				} else {
					var b []byte
					if b, err = yaml.Marshal(doc); err == nil {
						err = yaml.Unmarshal(b, &s)
					}
				}
				if err != nil {
					c.Fail("reading the spec: %v", err)
				}
				iss = oidfed.NewTrustMarkIssuer(issuerID, signer, []oidfed.TrustMarkSpec{s, otherSpec})
			case "AddTrustMark":
				iss = oidfed.NewTrustMarkIssuer(issuerID, signer, nil)
				iss.AddTrustMark(spec)
				iss.AddTrustMark(otherSpec)
			case "AddTrustMark again":
				o := oidfed.TrustMarkSpec{
					TrustMarkType: tmType, Lifetime: unixtime.NewDurationInSeconds(700), LogoURI: "old", Ref: "old",
					IncludeExtraClaimsInInfo: true, DelegationJWT: "old", Extra: map[string]any{"old": true},
				}
				iss = oidfed.NewTrustMarkIssuer(issuerID, signer, []oidfed.TrustMarkSpec{o, otherSpec})
				iss.AddTrustMark(spec)
			case "AddTrustMark beside":
				o := otherSpec
				o.TrustMarkType = tmType + "/"
				iss = oidfed.NewTrustMarkIssuer(issuerID, signer, []oidfed.TrustMarkSpec{spec, o})
				iss.AddTrustMark(otherSpec)
				wantTypes = []string{tmOther, tmType, tmType + "/"}
			}
			types := iss.TrustMarkTypes()
			sort.Strings(types)
			if !slices.Equal(types, wantTypes) {
				c.Fail("the issuer's types are %v, configured are %v", types, wantTypes)
			}
			// the federation
			issKeys := M{"keys": append(jwksOf(issuer)["keys"].([]any), with(key.jwk(), "kid", key.thumbprint(), "alg", alg))}
			f.EC[issuer].Claims = M{"jwks": issKeys}
			for k, s := range f.SS {
				if k[1] == issuer {
					s.Claims = M{"jwks": issKeys}
				}
			}
			tc := f.EC["T"].Claims
			if tc == nil {
				tc = M{}
				f.EC["T"].Claims = tc
			}
			if listed {
				tc["trust_mark_issuers"] = M{tmType: l(f.ID("Y"), issuerID), tmOther: l(issuerID)}
			}
			if owned {
				tc["trust_mark_owners"] = M{
					tmType: M{"sub": "https://w.example.org", "jwks": M{"keys": []any{with(ws.jwk(), "kid", ws.thumbprint())}}},
				}
			}
			f.install(newNet())
			taStmt, err := oidfed.ParseEntityStatement(f.EC["T"].JWT())
			if err != nil {
				c.Fail("the anchor's configuration does not parse: %v", err)
			}
			ta := &taStmt.EntityStatementPayload
			start := time.Now()
			type issued struct {
				info  *oidfed.TrustMarkInfo
				exps  []time.Time
				never bool
				typ   string
				jwt   string
			}
			var all []issued
			times := []time.Time{start.Add(time.Microsecond)}
			for i, r := range reqs {
				conf := map[string]oidfed.TrustMarkSpec{tmType: spec, tmOther: otherSpec}
				if via == "AddTrustMark beside" {
					o := otherSpec
					o.TrustMarkType = tmType + "/"
					conf[o.TrustMarkType] = o
				}
				var args []time.Duration
				if d, ok := r.lf.(time.Duration); ok {
					args = append(args, d)
				}
				info, err := iss.IssueTrustMark(r.typ, sub, args...)
				s, ok := conf[r.typ]
				if !ok {
					if err == nil {
						c.Fail("a trust mark of the type %q, which is not configured, is issued: %s", r.typ, info.TrustMarkJWT)
					}
					c.Step("refused")
					continue
				}
				if err != nil {
					c.Fail("issuing %q: %v", r.typ, err)
				}
				if info.TrustMarkType != r.typ {
					c.Fail("asked for %q, got an info about %q", r.typ, info.TrustMarkType)
				}
				p, bad := joseVerifyJWT(info.TrustMarkJWT, key, "trust-mark+jwt", alg)
				if bad != "" {
					c.Fail("the trust mark issued is wrong: %s", bad)
				}
				want := M{"iss": issuerID, "sub": sub, "trust_mark_type": r.typ}
				put := func(k, v string) {
					if v != "" {
						want[k] = v
					}
				}
				put("logo_uri", s.LogoURI)
				put("ref", s.Ref)
				put("delegation", s.DelegationJWT)
				for k, v := range s.Extra {
					want[k] = v
				}
				is := issued{info: info, typ: r.typ, jwt: info.TrustMarkJWT}
				eff := s.Lifetime.Duration
				if len(args) > 0 {
					eff = args[0]
				}
				var exp *time.Time
				if eff != 0 {
					e := start.Add(eff)
					exp = &e
					is.exps = append(is.exps, e)
				}
				sameIssued(c, fmt.Sprintf("trust mark %d", i), p, want, start, exp)
				// the info
				wi := M{"trust_mark_type": r.typ, "trust_mark": info.TrustMarkJWT}
				if s.IncludeExtraClaimsInInfo {
					for k, v := range s.Extra {
						wi[k] = v
					}
				}
				if jsonOf(info) != jsonOf(wi) {
					c.Fail("the info is %s instead of %s", jsonOf(info), jsonOf(wi))
				}
				// does the anchor authorise it?
				if owned && r.typ == tmType {
					if !delegated {
						is.never = true
					} else if dexp != nil {
						is.exps = append(is.exps, *dexp)
					}
				}
				for _, e := range is.exps {
					times = append(times, e.Add(-time.Millisecond), e.Add(time.Millisecond))
				}
				all = append(all, is)
				c.Step("issued", jsonOf(want))
			}
			times = append(times, start.Add(10*time.Hour))
			sort.Slice(times, func(i, j int) bool { return times[i].Before(times[j]) })
			for _, t := range times {
				if !t.After(time.Now()) {
					continue
				}
				time.Sleep(time.Until(t))
				for _, is := range all {
					valid := !is.never
					for _, e := range is.exps {
						if !t.Before(e) {
							valid = false
						}
					}
					what := fmt.Sprintf("verifying %v after the issuance", t.Sub(start))
					want := ""
					if !valid {
						want = "its lifetime is over or it is not authorised"
					}
					judge(c, what, "for the mark returned", is.info.VerifyFederation(ta), want)
					var again oidfed.TrustMarkInfo
					if err := json.Unmarshal([]byte(jsonOf(is.info)), &again); err != nil {
						c.Fail("the info does not unmarshal: %v", err)
					}
					judge(c, what, "for the mark published", again.VerifyFederation(ta), want)
					if is.info.TrustMarkJWT != is.jwt {
						c.Fail("the trust mark issued earlier has changed")
					}
				}
				c.Step("verified", t.Sub(start).Round(time.Second), len(all))
			}
		},
	)
}

func sameIssued(c *C, what string, got, want M, now time.Time, exp *time.Time) {
	if !stampOK(got["iat"], now) {
		c.Fail("%s: iat is %v at %v", what, got["iat"], now)
	}
	if _, has := got["exp"]; has != (exp != nil) || has && !stampOK(got["exp"], *exp) {
		c.Fail("%s: exp is %v, want %v", what, got["exp"], exp)
	}
	g := M{}
	for k, v := range got {
		if k != "iat" && k != "exp" {
			g[k] = v
		}
	}
	if jsonOf(g) != jsonOf(want) {
		c.Fail("the %s states %s, asked was %s", what, jsonOf(g), jsonOf(want))
	}
}

func init() {
	registry["C13"] = func(x *X) { exploreIssue(x, Pick(x, 2, 3)) }
}
