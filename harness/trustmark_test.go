package zzverif

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// C12: trust marks. The federation has the anchor T, the intermediate I with
// the issuer X below it, the issuer Y and the leaf L directly below T, and Z,
// which belongs to no federation.

const (
	tmType  = "https://tm.example.org/type"
	tmOther = "https://tm.example.org/other"
)

// markSpec describes a trust mark JWT and its delegation.
type markSpec struct {
	typ, mtype, iss, sub, key string
	iat, exp                  time.Duration
	noExp                     bool
	deleg                     any // string JWT, or absent
}

func (s markSpec) jwt(f *Fed) []byte {
	p := M{"iat": t0.Add(s.iat).Unix()}
	put := func(k, v string) {
		if v != "-" {
			p[k] = v
		}
	}
	put("trust_mark_type", s.mtype)
	// N/ is almost N, ^N is N in upper case
	name := func(n string) string {
		switch bare := strings.Trim(n, "/^"); {
		case n == "-":
			return n
		case n[0] == '^':
			return strings.ToUpper(f.ID(bare))
		case bare != n:
			return f.ID(bare) + "/"
		default:
			return f.ID(n)
		}
	}
	put("iss", name(s.iss))
	put("sub", name(s.sub))
	if !s.noExp {
		p["exp"] = t0.Add(s.exp).Unix()
	}
	if s.deleg != any(absent) && s.deleg != nil {
		p["delegation"] = s.deleg
	}
	return signJWT(s.key, s.typ, p)
}

// refDelegation says whether a delegation JWT is one of owner for the type and
// issuer.
func refDelegation(d, owner string, keys any, mtype, issuer string, now time.Time) string {
	if typOf([]byte(d)) != "trust-mark-delegation+jwt" {
		return "delegation typ"
	}
	p, ok := verifyJWT([]byte(d), keys)
	if !ok {
		return "delegation signature"
	}
	switch {
	case p["iss"] != owner:
		return "delegation issuer"
	case str(p["sub"]) != issuer: // a missing member reads as empty
		return "delegation subject"
	case p["trust_mark_type"] != mtype:
		return "delegation type"
	case !timeOK(p, now):
		return "delegation time"
	}
	return ""
}

func typOf(jwt []byte) string {
	h, _, ok := strings.Cut(string(jwt), ".")
	if !ok {
		return ""
	}
	b, err := base64.RawURLEncoding.DecodeString(h)
	if err != nil {
		return ""
	}
	var m M
	if json.Unmarshal(b, &m) != nil {
		return ""
	}
	s, _ := m["typ"].(string)
	return s
}

// refMark says why a mark is to be refused, for given keys of its issuer.
func refMark(jwt []byte, claimed string, keys any, owner M, now time.Time) string {
	if typOf(jwt) != "trust-mark+jwt" {
		return "typ"
	}
	p, ok := verifyJWT(jwt, keys)
	if !ok {
		return "signature"
	}
	if p["trust_mark_type"] != claimed {
		return "type"
	}
	if !timeOK(p, now) {
		return "time"
	}
	if owner != nil {
		d, ok := p["delegation"].(string)
		if !ok {
			return "no delegation"
		}
		id, _ := owner["sub"].(string)
		iss, _ := p["iss"].(string)
		return refDelegation(d, id, owner["jwks"], claimed, iss, now)
	}
	return ""
}

// refMarkFed is refMark with the issuer's keys found through the anchor.
func (f *Fed) refMarkFed(jwt []byte, claimed, anchor string, now time.Time) string {
	p := payloadOf(jwt)
	if p == nil {
		return "garbage"
	}
	ta := payloadOf(f.EC[anchor].JWT())
	iss, _ := p["iss"].(string)
	if all, ok := ta["trust_mark_issuers"].(map[string]any); ok {
		// an empty list means that anyone may issue
		if l, ok := all[claimed].([]any); ok && len(l) > 0 && !contains(l, iss) {
			return "issuer not listed"
		}
	}
	var keys any
	name := ""
	for n := range f.EC {
		if f.ID(n) == iss {
			name = n
		}
	}
	switch {
	case name == "":
		return "unknown issuer"
	case name == anchor:
		keys = ta["jwks"]
	default:
		chains := f.refChains(name, []Anchor{{anchor, nil}}, now, refOpts{})
		if len(chains) == 0 {
			return "issuer without chain"
		}
		keys = payloadOf(chains[0][0])["jwks"]
	}
	var owner M
	if all, ok := ta["trust_mark_owners"].(map[string]any); ok {
		owner, _ = all[claimed].(map[string]any)
	}
	return refMark(jwt, claimed, keys, owner, now)
}

func ownerOf(id string, keys ...string) M { return M{"sub": id, "jwks": jwksOf(keys...)} }

func exploreMarks(x *X, k int) {
	x.ExploreB(
		"marks", k, func(c *C) {
			f := mkFed(
				map[string][]string{
					"L": {"T"}, "X": {"I"}, "Y": {"T"}, "I": {"T"}, "T": nil, "Z": nil,
				},
			)
			base := Of(c, "base", "plain", "listed", "owned", "listed and owned")
			listed, owned := strings.Contains(base, "listed"), strings.Contains(base, "owned")
			m := markSpec{}
			claimed := DevOf(c, "claimed type", tmType, tmOther, tmType+"/", strings.ToUpper(tmType))
			m.mtype = DevOf(c, "mark type", tmType, tmOther, "-", tmType+"/", strings.ToUpper(tmType))
			m.iss = DevOf(c, "mark iss", "X", "Y", "T", "Z", "L", "-", "X/", "T/", "^X", "^T")
			keyDef := m.iss
			if keyDef == "-" {
				keyDef = "X"
			}
			keyDef = strings.Trim(keyDef, "/^")
			m.key = DevOf(c, "mark key", "of iss", "of iss!evil", "X", "T", "I")
			m.key = strings.Replace(m.key, "of iss", keyDef, 1)
			m.sub = DevOf(c, "mark sub", "L", "X", "T", "-", "L/", "^L")
			m.iat = DevOf(c, "mark iat", -time.Hour, 10*time.Minute, 2*time.Hour)
			m.exp = DevOf(c, "mark exp", 3*time.Hour, 30*time.Minute, -time.Minute)
			m.noExp = DevOf(c, "mark no exp", false, true)
			m.typ = DevOf(c, "mark typ", "trust-mark+jwt", "", "JWT", "entity-statement+jwt", "trust-mark-delegation+jwt")
			// the delegation
			d := markSpec{}
			d.mtype = DevOf(c, "delegation type", tmType, tmOther, "-", tmType+"/", strings.ToUpper(tmType))
			d.iss = DevOf(c, "delegation iss", "W", "X", "T", "-", "W/", "^W")
			d.sub = DevOf(c, "delegation sub", "X", "Y", "L", "-", "X/", "^X")
			d.key = DevOf(c, "delegation key", "W", "W!evil", "X", "T", "W2")
			d.iat = DevOf(c, "delegation iat", -time.Hour, 10*time.Minute, 2*time.Hour)
			d.exp = DevOf(c, "delegation exp", 3*time.Hour, 30*time.Minute, -time.Minute)
			d.noExp = DevOf(c, "delegation no exp", false, true)
			d.typ = DevOf(c, "delegation typ", "trust-mark-delegation+jwt", "", "trust-mark+jwt", "JWT")
			d.deleg = absent
			deleg := any(string(d.jwt(f)))
			defPresent := 0
			if !owned {
				defPresent = 1
			}
			switch (c.Dev(3, "delegation present/absent/garbage") + defPresent) % 3 {
			case 0:
				m.deleg = deleg
			case 1:
				m.deleg = absent
			default:
				m.deleg = "garbage"
			}
			// the trust anchor
			tc := M{}
			f.EC["T"].Claims = tc
			issDef := 0
			if listed {
				issDef = 1
			}
			issAlts := []any{
				absent, M{tmType: l(f.ID("X"))}, M{}, M{tmType: l()}, M{tmType: l(f.ID("Y"))}, M{tmOther: l(f.ID("Y"))},
				M{tmType: l(f.ID("Y"), f.ID("X"))}, M{tmType: l(), tmOther: l(f.ID("X"))},
			}
			if v := issAlts[(c.Dev(len(issAlts), "trust_mark_issuers")+issDef)%len(issAlts)]; v != any(absent) {
				tc["trust_mark_issuers"] = v
			}
			ownDef := 0
			if owned {
				ownDef = 1
			}
			ownAlts := []any{
				absent, M{tmType: ownerOf(f.ID("W"), "W")}, M{}, M{tmOther: ownerOf(f.ID("W"), "W")},
				M{tmType: ownerOf(f.ID("W"), "V")}, M{tmType: ownerOf(f.ID("V"), "W")},
				M{tmType: ownerOf(f.ID("W"), "W2", "W")},
				M{tmType: ownerOf(f.ID("V"), "V"), tmOther: ownerOf(f.ID("W"), "W")},
				M{tmType: ownerOf(f.ID("X"), "X")}, M{tmType: ownerOf(f.ID("T"), "T")},
			}
			if v := ownAlts[(c.Dev(len(ownAlts), "trust_mark_owners")+ownDef)%len(ownAlts)]; v != any(absent) {
				tc["trust_mark_owners"] = v
			}
			// the way to the issuer
			switch standing := DevOf(
				c, "issuer's standing", "ok", "X evilself", "X wrongkey", "X nojwks", "X empty jwks", "X expired", "X nohints", "X miss",
				"X->I miss", "X->I wrongkey", "X->I expired", "X->I evilkeys", "X->I late", "I->T miss", "I->T expires", "X expires", "X two keys",
			); standing {
			case "ok":
			case "X empty jwks":
				f.EC["X"].Claims = M{"jwks": M{"keys": []any{}}}
			case "X nojwks":
				f.EC["X"].Claims = M{"jwks": nil}
			case "X two keys":
				f.EC["X"].Keys = []string{"I", "X"}
			case "X->I late":
				f.SS[[2]string{"I", "X"}].Iat = 10 * time.Minute
			case "I->T expires":
				f.SS[[2]string{"T", "I"}].Exp = 30 * time.Minute
			case "X expires":
				f.EC["X"].Exp = 30 * time.Minute
			default:
				w, fault, _ := strings.Cut(standing, " ")
				if a, b, two := strings.Cut(w, "->"); two {
					applySSFault(f, [2]string{b, a}, fault)
				} else {
					applyECFault(f, w, fault)
				}
			}
			jwt := m.jwt(f)
			second := markSpec{
				typ: "trust-mark+jwt", mtype: tmOther, iss: "T", sub: "L", key: "T", iat: -time.Hour, exp: 3 * time.Hour, deleg: absent,
			}
			type entry struct {
				jwt   []byte
				mtype string
			}
			marks := []entry{{jwt, claimed}}
			switch DevOf(c, "other marks", "none", "good after", "good before", "same type before", "same type after", "garbage before") {
			case "good after":
				marks = append(marks, entry{second.jwt(f), tmOther})
			case "good before":
				marks = append([]entry{{second.jwt(f), tmOther}}, marks...)
			case "same type before":
				second.mtype = tmType
				marks = append([]entry{{second.jwt(f), tmType}}, marks...)
			case "same type after":
				second.mtype = tmType
				marks = append(marks, entry{second.jwt(f), tmType})
			case "garbage before":
				marks = append([]entry{{[]byte("garbage"), tmOther}}, marks...)
			}
			var infos []any
			for _, e := range marks {
				infos = append(infos, M{"trust_mark_type": e.mtype, "trust_mark": string(e.jwt)})
			}
			f.EC["L"].Claims = M{"trust_marks": infos}
			c.Commit()
			newMemCache()
			f.install(newNet())

			ta, err := oidfed.ParseEntityStatement(f.EC["T"].JWT())
			if err != nil {
				c.Fail("the anchor's configuration does not parse: %v", err)
			}
			// verified again and again, with whatever it remembers
			var keepL oidfed.TrustMarkInfos
			if err = json.Unmarshal([]byte(jsonOf(infos)), &keepL); err != nil {
				c.Fail("unmarshal: %v", err)
			}
			for _, adv := range []time.Duration{0, 40 * time.Minute, 3 * time.Hour} {
				time.Sleep(adv)
				now := time.Now()
				at := now.Sub(t0).String()
				var wants []string
				for _, e := range marks {
					wants = append(wants, f.refMarkFed(e.jwt, e.mtype, "T", now))
				}
				outcome := at
				for i, e := range marks {
					fresh := oidfed.TrustMarkInfo{TrustMarkType: e.mtype, TrustMarkJWT: string(e.jwt)}
					judge(c, "VerifyFederation", at, fresh.VerifyFederation(&ta.EntityStatementPayload), wants[i])
					judge(c, "VerifyFederation of the same list again", at, keepL[i].VerifyFederation(&ta.EntityStatementPayload), wants[i])
					outcome += ";" + wants[i]
				}
				// slices
				var want []string
				var wantL []string
				for i, e := range marks {
					if wants[i] == "" {
						want = append(want, string(e.jwt))
						if payloadOf(e.jwt)["sub"] == f.ID("L") {
							wantL = append(wantL, string(e.jwt))
						}
					}
				}
				sameMarks(c, "VerifiedFederation", at, keepL.VerifiedFederation(&ta.EntityStatementPayload), want)
				// as part of the answer about L
				if len(f.refChains("L", []Anchor{{"T", nil}}, now, refOpts{})) == 0 {
					c.Fail("harness: L has no chain")
				}
				res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
					apimodel.ResolveRequest{Subject: f.ID("L"), TrustAnchor: []string{f.ID("T")}},
				)
				if err != nil {
					c.Fail("%s: L does not resolve: %v", at, err)
				}
				sameMarks(c, "resolving the entity presenting them", at, res.TrustMarks, wantL)
				// with keys given
				for _, own := range []any{nil, ownerOf(f.ID("W"), "W")} {
					w := ""
					var specs []oidfed.TrustMarkOwnerSpec
					if o, ok := own.(M); ok {
						w = refMark(jwt, claimed, jwksOf("X", "I"), o, now)
						var s oidfed.TrustMarkOwnerSpec
						if err := json.Unmarshal([]byte(jsonOf(o)), &s); err != nil {
							c.Fail("unmarshal: %v", err)
						}
						specs = append(specs, s)
					} else {
						w = refMark(jwt, claimed, jwksOf("X", "I"), nil, now)
					}
					fresh := oidfed.TrustMarkInfo{TrustMarkType: claimed, TrustMarkJWT: string(jwt)}
					judge(c, fmt.Sprintf("VerifyExternal(owner %v)", own != nil), at, fresh.VerifyExternal(libJWKS("X", "I"), specs...), w)
					var wl []string
					if w == "" {
						wl = []string{string(jwt)}
					}
					sameMarks(
						c, "VerifiedExternal", at,
						oidfed.TrustMarkInfos{{TrustMarkType: claimed, TrustMarkJWT: string(jwt)}}.VerifiedExternal(libJWKS("X", "I"), specs...), wl,
					)
					outcome += ";" + w
				}
				c.Step(at, outcome)
			}
		},
	)
}

func judge(c *C, what, at string, err error, want string) {
	if (err == nil) != (want == "") {
		if err == nil {
			c.Fail("%s accepts at %s a trust mark that is wrong: %s", what, at, want)
			return
		}
		c.Fail("%s refuses at %s a valid trust mark: %v", what, at, err)
	}
}

func sameMarks(c *C, what, at string, got oidfed.TrustMarkInfos, want []string) {
	var g []string
	for _, i := range got {
		g = append(g, i.TrustMarkJWT)
	}
	if strings.Join(g, "\n") != strings.Join(want, "\n") {
		d := func(l []string) (s string) {
			for _, j := range l {
				s += jsonOf(payloadOf([]byte(j))) + " "
			}
			return
		}
		c.Fail("%s at %s gives the marks %s where exactly these are valid: %s", what, at, d(g), d(want))
	}
}

// exploreMarkObjects verifies what a TrustMarkInfo states at the moment,
// whatever it stated before.
func exploreMarkObjects(x *X) {
	x.ExploreB(
		"mark objects", 0, func(c *C) {
			f := mkFed(map[string][]string{"L": {"T"}, "X": {"I"}, "Y": {"T"}, "I": {"T"}, "T": nil, "Z": nil})
			good := markSpec{
				typ: "trust-mark+jwt", mtype: tmType, iss: "X", sub: "L", key: "X", iat: -time.Hour, exp: 3 * time.Hour, deleg: absent,
			}
			other, forged, expired := good, good, good
			other.mtype = tmOther
			forged.key = "X!evil"
			expired.exp = -time.Minute
			alts := []markSpec{good, other, forged, expired}
			type st struct {
				jwt  string
				typ  string
				from string
			}
			var steps []st
			for i := 0; i < Pick(x, 3, 4); i++ {
				s := alts[c.Choose(len(alts), "mark")]
				steps = append(
					steps, st{string(s.jwt(f)), Of(c, "claimed", tmType, tmOther), Of(c, "set by", "unmarshal", "field", "copy")},
				)
			}
			c.Commit()
			newMemCache()
			f.install(newNet())
			ta, _ := oidfed.ParseEntityStatement(f.EC["T"].JWT())
			var info oidfed.TrustMarkInfo
			for i, s := range steps {
				switch s.from {
				case "unmarshal":
					if err := json.Unmarshal([]byte(jsonOf(M{"trust_mark_type": s.typ, "trust_mark": s.jwt})), &info); err != nil {
						c.Fail("unmarshal: %v", err)
					}
				case "field":
					info.TrustMarkJWT, info.TrustMarkType = s.jwt, s.typ
				case "copy":
					cp := info
					cp.TrustMarkJWT, cp.TrustMarkType = s.jwt, s.typ
					info = cp
				}
				want := f.refMarkFed([]byte(s.jwt), s.typ, "T", time.Now())
				judge(c, fmt.Sprintf("VerifyFederation of the %d. content of one TrustMarkInfo", i+1), s.from, info.VerifyFederation(&ta.EntityStatementPayload), want)
				tm, err := info.TrustMark()
				if err == nil && jsonOf(tm) != jsonOf(payloadOf([]byte(s.jwt))) {
					c.Fail("the TrustMarkInfo's mark is %s, not the %s in its JWT", jsonOf(tm), jsonOf(payloadOf([]byte(s.jwt))))
				}
				c.Step(s.from, s.typ, want)
			}
		},
	)
}

// exploreMarkAnchors verifies a mark with trust anchors that state other keys than
// the one that is served under their entity id, in turn over one cache.
func exploreMarkAnchors(x *X) {
	x.ExploreB(
		"mark anchors", 0, func(c *C) {
			f := mkFed(map[string][]string{"L": {"T"}, "X": {"I"}, "Y": {"T"}, "I": {"T"}, "T": nil})
			if k := Of(c, "served configuration", "T", "T!evil", "Tb"); k != "T" {
				f.EC["T"].Key, f.EC["T"].Keys = k, []string{k}
			}
			signer := Of(c, "signer of the anchor's statements", "T", "T!evil", "Tb")
			for _, sk := range f.sortedSS() {
				if sk[0] == "T" {
					f.SS[sk].Key = signer
				}
			}
			m := markSpec{
				typ: "trust-mark+jwt", mtype: tmType, iss: Of(c, "issuer", "X", "Y", "T"), sub: "L", iat: -time.Hour, exp: 3 * time.Hour, deleg: absent,
			}
			m.key = m.iss
			if m.iss == "T" {
				m.key = Of(c, "mark key", "T", "T!evil", "Tb")
			}
			stated := [][]string{{"T"}, {"T!evil"}, {"Tb", "T"}, nil}
			var turns []int
			for range Pick(x, 2, 3) {
				turns = append(turns, c.Choose(len(stated), "keys of the given anchor"))
			}
			c.Commit()
			jwt := m.jwt(f)
			newMemCache()
			f.install(newNet())
			for i, t := range turns {
				ta := oidfed.EntityStatementPayload{Issuer: f.ID("T"), Subject: f.ID("T")}
				if stated[t] != nil {
					ta.JWKS = libJWKS(stated[t]...)
				}
				now := time.Now()
				var want string
				var keys any
				if m.iss == "T" {
					keys = generic(jwksOf(stated[t]...))
				} else if chains := f.refChains(m.iss, []Anchor{{"T", stated[t]}}, now, refOpts{}); len(chains) == 0 {
					want = "issuer without chain"
				} else {
					keys = payloadOf(chains[0][0])["jwks"]
				}
				if want == "" {
					want = refMark(jwt, tmType, keys, nil, now)
				}
				info := oidfed.TrustMarkInfo{TrustMarkType: tmType, TrustMarkJWT: string(jwt)}
				at := fmt.Sprintf("%s, turn %d", strings.Join(c.labels, " "), i)
				judge(c, "VerifyFederation", at, info.VerifyFederation(&ta), want)
				var l []string
				if want == "" {
					l = []string{string(jwt)}
				}
				sameMarks(c, "VerifiedFederation", at, oidfed.TrustMarkInfos{info}.VerifiedFederation(&ta), l)
				c.Step(at, want)
				c.Outcome("anchors: " + want)
			}
		},
	)
}

func init() {
	registry["C12"] = func(x *X) {
		exploreMarkAnchors(x)
		exploreMarkObjects(x)
		exploreMarks(x, Pick(x, 2, 3))
	}
}

func str(v any) string { s, _ := v.(string); return s }
