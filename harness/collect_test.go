package zzverif

import (
	"errors"
	"fmt"
	nethttp "net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unicode"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// C16: entity collection.

var knownTypes = []string{
	"openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource", "federation_entity",
}

// nameClaim is the member that stands in for a missing display_name.
var nameClaim = map[string]string{
	"openid_provider": "organization_name", "openid_relying_party": "client_name", "oauth_authorization_server": "organization_name",
	"oauth_client": "client_name", "oauth_resource": "resource_name", "federation_entity": "organization_name",
}

// refEC is the payload of an entity's configuration if it can be used now.
func (f *Fed) refEC(name string, now time.Time) M {
	s := f.EC[name]
	if s == nil {
		return nil
	}
	r := f.read(s, name, name, now)
	if r == nil {
		return nil
	}
	return r.p
}

func (f *Fed) nameOf(id string) string {
	for n := range f.EC {
		if f.ID(n) == id {
			return n
		}
	}
	return ""
}

// refName is the (guessed) display name.
func refName(md map[string]any, typ string) string {
	m, _ := md[typ].(map[string]any)
	if s := str(m["display_name"]); s != "" {
		return s
	}
	return str(m[nameClaim[typ]])
}

// fold drops case and the accents used here.
func fold(s string) []rune {
	acc := map[rune]rune{'é': 'e', 'è': 'e', 'ü': 'u', 'ö': 'o'}
	var out []rune
	for _, r := range s {
		r = unicode.ToLower(r)
		if b, ok := acc[r]; ok {
			r = b
		}
		out = append(out, r)
	}
	return out
}

// fuzzyIn says whether the letters of q occur in s in this order.
func fuzzyIn(q, s string) bool {
	a, b := fold(q), fold(s)
	i := 0
	for _, r := range b {
		if i < len(a) && a[i] == r {
			i++
		}
	}
	return i == len(a)
}

// refReach walks the listings; list gives what an authority's listing
// endpoint answers (nil: nothing usable).
func (f *Fed) refReach(anchor string, now time.Time, list func(name string) []string) []string {
	visited, in := map[string]bool{}, map[string]bool{}
	queue := []string{anchor}
	for len(queue) > 0 {
		a := queue[0]
		queue = queue[1:]
		if visited[a] {
			continue
		}
		visited[a] = true
		p := f.refEC(a, now)
		if p == nil {
			continue
		}
		md, _ := p["metadata"].(map[string]any)
		fe, _ := md["federation_entity"].(map[string]any)
		if str(fe["federation_list_endpoint"]) == "" {
			continue
		}
		for _, s := range list(a) {
			sp := f.refEC(s, now)
			if sp == nil {
				continue
			}
			if _, ok := sp["metadata"].(map[string]any); !ok {
				continue
			}
			in[s] = true
			queue = append(queue, s)
		}
	}
	out := keysOf(in)
	sort.Strings(out)
	return out
}

// refMarks are the entity's marks that verify.
func (f *Fed) refMarks(name, anchor string, now time.Time) (marks []any, types map[string]bool) {
	types = map[string]bool{}
	p := f.refEC(name, now)
	l, _ := p["trust_marks"].([]any)
	for _, e := range l {
		m, _ := e.(map[string]any)
		j := []byte(str(m["trust_mark"]))
		t := str(m["trust_mark_type"])
		if pl := payloadOf(j); pl == nil || pl["sub"] != f.ID(name) {
			continue
		}
		if f.refMarkFed(j, t, anchor, now) == "" {
			marks = append(marks, M{"trust_mark_type": t, "trust_mark": str(m["trust_mark"])})
			types[t] = true
		}
	}
	return
}

var uiStrings = []string{"description", "logo_uri", "policy_uri", "information_uri"}

// refCollected is what a collection gives for an entity, nil if it does not
// match. The trust chain is checked separately.
func (f *Fed) refCollected(name, anchor string, req apimodel.EntityCollectionRequest, now time.Time) M {
	p := f.refEC(name, now)
	md, _ := p["metadata"].(map[string]any)
	types := keysOf(md)
	sort.Strings(types)
	if req.EntityTypes != nil {
		hit := false
		for _, t := range req.EntityTypes {
			_, ok := md[t]
			hit = hit || ok
		}
		if !hit {
			return nil
		}
	}
	if req.NameQuery != "" {
		hit := false
		for _, t := range knownTypes {
			if _, ok := md[t]; ok && fuzzyIn(req.NameQuery, refName(md, t)) {
				hit = true
			}
		}
		if !hit {
			return nil
		}
	}
	var marks []any
	var has map[string]bool
	if len(req.TrustMarkTypes) > 0 || contains(anyOf(req.Claims), "trust_marks") {
		marks, has = f.refMarks(name, anchor, now)
	}
	for _, t := range req.TrustMarkTypes {
		if !has[t] {
			return nil
		}
	}
	want := func(c string) bool { return req.Claims == nil || contains(anyOf(req.Claims), c) }
	out := M{"entity_id": f.ID(name)}
	if want("entity_types") && len(types) > 0 {
		out["entity_types"] = anyOf(types)
	}
	ui := M{}
	put := func(t, k string, v any) {
		if ui[t] == nil {
			ui[t] = M{}
		}
		ui[t].(M)[k] = v
	}
	for _, t := range knownTypes {
		m, _ := md[t].(map[string]any)
		for _, k := range uiStrings {
			if v := str(m[k]); v != "" && want(k) {
				put(t, k, v)
			}
		}
		if v, ok := m["keywords"].([]any); ok && want("keywords") {
			put(t, "keywords", v)
		}
		if v := refName(md, t); v != "" && want("display_name") {
			put(t, "display_name", v)
		}
	}
	if len(ui) > 0 {
		out["ui_infos"] = ui
	}
	if contains(anyOf(req.Claims), "trust_marks") && len(marks) > 0 {
		out["trust_marks"] = marks
	}
	return out
}

func anyOf(ss []string) []any {
	out := make([]any, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

// checkCollected compares the result of a collection with the reference.
func checkCollected(c *C, what string, f *Fed, anchor string, req apimodel.EntityCollectionRequest, got []*oidfed.CollectedEntity, reach []string, now time.Time) {
	want := map[string]M{}
	for _, n := range reach {
		if w := f.refCollected(n, anchor, req, now); w != nil {
			want[f.ID(n)] = w
		}
	}
	seen := map[string]bool{}
	for _, e := range got {
		if e == nil {
			c.Fail("%s: a nil entity is returned", what)
			continue
		}
		if seen[e.EntityID] {
			c.Fail("%s: %s is returned twice", what, e.EntityID)
		}
		seen[e.EntityID] = true
		w := want[e.EntityID]
		if w == nil {
			c.Fail("%s: %s is returned, but should not be (reachable %v)", what, e.EntityID, reach)
			continue
		}
		g, _ := generic(e).(map[string]any)
		if l, ok := g["entity_types"].([]any); ok {
			sort.Slice(l, func(i, j int) bool { return str(l[i]) < str(l[j]) })
		}
		chain, hasChain := g["trust_chain"].([]any)
		delete(g, "trust_chain")
		if a, b := jsonOf(g), jsonOf(w); a != b {
			c.Fail("%s: returned %s instead of %s", what, a, b)
		}
		// the fields of the type itself
		for t, u := range e.UIInfos {
			wu, _ := generic(w["ui_infos"]).(map[string]any)
			wt, _ := wu[t].(map[string]any)
			kw := []any(nil)
			if u.Keywords != nil {
				kw = anyOf(u.Keywords)
			}
			wkw, _ := wt["keywords"].([]any)
			if u.DisplayName != str(wt["display_name"]) || u.Description != str(wt["description"]) || u.LogoURI != str(wt["logo_uri"]) ||
				u.PolicyURI != str(wt["policy_uri"]) || u.InformationURI != str(wt["information_uri"]) || fmt.Sprint(kw) != fmt.Sprint(wkw) || len(u.Extra) > 0 {
				c.Fail("%s: the ui infos of %s are %+v instead of %s", what, e.EntityID, u, jsonOf(wt))
			}
		}
		n := f.nameOf(e.EntityID)
		if contains(anyOf(req.Claims), "trust_chain") {
			chains := f.refChains(n, []Anchor{{anchor, nil}}, now, refOpts{})
			var ok bool
			for _, rc := range chains {
				if len(rc) == len(chain) {
					same := true
					for i := range rc {
						same = same && string(rc[i]) == str(chain[i])
					}
					ok = ok || same
				}
				if len(rc) < len(chain) {
					c.Fail("%s: the chain of %s is not a shortest one", what, e.EntityID)
				}
			}
			if !ok && (len(chains) > 0 || hasChain) {
				c.Fail("%s: the chain returned for %s (%d statements) is not one of its %d chains", what, e.EntityID, len(chain), len(chains))
			}
		} else if hasChain {
			c.Fail("%s: a trust chain is returned that was not requested", what)
		}
	}
	for _, id := range keysOf(want) {
		if !seen[id] {
			c.Fail("%s: %s is missing (reachable %v)", what, id, reach)
		}
	}
	c.Step(what, what, len(got), len(reach), jsonOf(req))
}

func (f *Fed) listed(name string) []string {
	if l, ok := f.List[name]; ok {
		return l
	}
	var l []string
	for k := range f.SS {
		if k[0] == name {
			l = append(l, k[1])
		}
	}
	sort.Strings(l)
	return l
}

func collectorOf(kind string) oidfed.EntityCollector {
	switch kind {
	case "simple":
		return &oidfed.SimpleEntityCollector{}
	case "verified":
		return oidfed.VerifiedChainsEntityCollector{}
	case "ops":
		return &oidfed.SimpleOPCollector{}
	case "verified ops":
		return oidfed.FilterableVerifiedChainsEntityCollector{Collector: &oidfed.SimpleOPCollector{}}
	case "smart":
		return oidfed.SmartRemoteEntityCollector{}
	}
	panic(kind)
}

// verifiedOnly keeps those of reach that have a valid chain.
func (f *Fed) verifiedOnly(reach []string, anchor string, now time.Time) (out []string) {
	for _, n := range reach {
		if len(f.refChains(n, []Anchor{{anchor, nil}}, now, refOpts{})) > 0 {
			out = append(out, n)
		}
	}
	return
}

// exploreListings: all listing graphs.
func exploreListings(x *X) {
	x.ExploreB(
		"listings", 0, func(c *C) {
			subs := []string{"T", "I", "J", "L", "M"}
			lists := map[string][]string{
				"T": bits(c.Choose(Pick(x, 16, 32), "T lists")<<Pick(x, 1, 0), subs),
				"I": bits(c.Choose(Pick(x, 16, 32), "I lists"), subs),
				"J": bits(c.Choose(Pick(x, 16, 32), "J lists"), subs),
			}
			c.Commit()
			newMemCache()
			f := newFed()
			for _, n := range []string{"T", "I", "J"} {
				f.entity(n, f.authorityMd(n))
				f.List[n] = lists[n]
			}
			f.entity("L", leafMd())
			f.entity("M", M{"openid_provider": M{"issuer": f.ID("M")}})
			f.install(newNet())
			var req apimodel.EntityCollectionRequest
			req.TrustAnchor = f.ID("T")
			reach := f.refReach("T", time.Now(), f.listed)
			checkCollected(c, "collection", f, "T", req, collectorOf("simple").CollectEntities(req), reach, time.Now())
			req.EntityTypes = []string{"openid_provider"}
			checkCollected(c, "collection of OPs", f, "T", req, collectorOf("simple").CollectEntities(req), reach, time.Now())
		},
	)
}

// exploreSelections enumerates which entities of small trees match the filters of a request.
func exploreSelections(x *X) {
	graphs := []map[string][]string{
		{"T": {"I", "J"}, "I": {"A", "B"}, "J": {"B", "C"}}, {"T": {"I"}, "I": {"J", "A"}, "J": {"B", "C"}},
		{"T": {"A", "I"}, "I": {"B", "C", "J"}, "J": {}}, {"T": {"I"}, "I": {"A", "B", "C", "J"}, "J": {"A", "T"}},
		{"T": {"A", "B", "C", "I", "J"}, "I": {}, "J": {"I"}},
	}
	x.ExploreB(
		"selections", 0, func(c *C) {
			g := graphs[c.Choose(Pick(x, 4, 5), "listings")]
			f := newFed()
			f.entity("T", f.authorityMd("T"))
			for _, e := range []string{"I", "J", "A", "B", "C"} {
				name := "Other " + e
				bits := c.Choose(4, e)
				if bits&1 != 0 {
					name = "Example " + e
				}
				md := M{}
				if e == "I" || e == "J" {
					md = f.authorityMd(e)
					md["federation_entity"].(M)["organization_name"] = name
				}
				if bits&2 != 0 {
					md["openid_provider"] = M{"issuer": f.ID(e), "organization_name": name}
				} else if e != "I" && e != "J" {
					md["openid_relying_party"] = M{"client_name": name, "organization_name": name}
				}
				f.entity(e, md, "T")
				if e == "A" || e == "C" || e == "J" {
					j := markSpec{typ: "trust-mark+jwt", mtype: tmType, iss: "T", sub: e, key: "T", iat: -time.Hour, exp: dEC}.jwt(f)
					f.EC[e].Claims = M{"trust_marks": []any{M{"trust_mark_type": tmType, "trust_mark": string(j)}}}
				}
			}
			for n, l := range g {
				f.List[n] = l
			}
			req := apimodel.EntityCollectionRequest{TrustAnchor: f.ID("T")}
			which := 1 + c.Choose(Pick(x, 5, 7), "request")
			if which&1 != 0 {
				req.NameQuery = "example"
			}
			if which&2 != 0 {
				req.EntityTypes = []string{"openid_provider"}
			}
			if which&4 != 0 {
				req.TrustMarkTypes = []string{tmType}
			}
			c.Commit()
			newMemCache()
			f.install(newNet())
			now := time.Now()
			got := collectorOf("simple").CollectEntities(req)
			checkCollected(c, "collection", f, "T", req, got, f.refReach("T", now, f.listed), now)
			c.Outcome(fmt.Sprint(len(got), " entities"))
			c.State(c.labels)
		},
	)
}

// collectFed has entities of many kinds: T over I, J, L, M, N, X; I over J, P
// and Q; J over P, R.
func collectFed() *Fed {
	f := newFed()
	auth := func(n string, more M, hints ...string) {
		md := f.authorityMd(n)
		for k, v := range more {
			md["federation_entity"].(M)[k] = v
		}
		f.entity(n, md, hints...)
	}
	auth("T", nil)
	auth("I", M{"organization_name": "Intermediate One", "keywords": []any{"a", "b"}}, "T")
	auth("J", M{"display_name": "Jupiter", "organization_name": "Alpha shadow", "information_uri": "https://j.example.org/info"}, "T", "I")
	f.entity(
		"L", M{
			"openid_provider": M{
				"issuer": f.ID("L"), "display_name": "Alpha OP", "organization_name": "Omega", "logo_uri": "https://l.example.org/logo",
				"grant_types_supported": []any{"authorization_code", "refresh_token"}, "scopes_supported": []any{"openid", "email"},
				"client_registration_types_supported": []any{"automatic"}, "keywords": []any{"k1"},
			},
			"federation_entity": M{"organization_name": "Org of L", "description": "the L"},
		}, "T",
	)
	f.entity("M", M{"openid_relying_party": M{"client_name": "Beta RP", "policy_uri": "https://m.example.org/policy"}}, "T")
	f.entity("N", M{"custom_thing": M{"a": "b", "keywords": []any{"no"}}}, "T")
	f.entity(
		"P", M{
			"openid_provider": M{
				"issuer": f.ID("P"), "organization_name": "Élan University", "description": "P's OP", "information_uri": "https://p.example.org/i",
				"grant_types_supported": []any{"authorization_code"}, "scopes_supported": []any{"openid"},
				"client_registration_types_supported": []any{"explicit", "automatic"},
			},
			"openid_relying_party": M{"display_name": "Gamma", "client_name": "Beta of P", "logo_uri": "https://p.example.org/logo"},
		}, "I", "J",
	)
	f.entity("Q", M{}, "I")
	f.entity("R", M{"openid_provider": M{"issuer": f.ID("R"), "client_registration_types_supported": []any{"explicit"}}}, "J")
	f.entity("X", M{"federation_entity": M{"organization_name": "Issuer"}}, "T")
	for n, s := range f.EC {
		for _, h := range s.Hints {
			f.sub(f.nameOf(h), n)
		}
	}
	mark := func(typ, sub string, exp time.Duration, key string) any {
		j := markSpec{typ: "trust-mark+jwt", mtype: typ, iss: "X", sub: sub, key: key, iat: -time.Hour, exp: exp}.jwt(f)
		return M{"trust_mark_type": typ, "trust_mark": string(j)}
	}
	marks := func(n string, ms ...any) { f.EC[n].Claims = M{"trust_marks": ms} }
	marks("L", mark(tmOther, "L", dEC, "X"))
	marks("M", mark(tmType, "M", -time.Minute, "X"), mark(tmType, "M", dEC, "X"), mark(tmOther, "M", dEC, "Z"))
	marks("N", mark(tmType, "M", dEC, "X"), mark(tmOther, "N", dEC, "X"))
	marks("P", mark(tmType, "P", dEC, "X"), mark(tmOther, "P", dEC, "X"))
	marks("I", mark(tmType, "I", dEC, "Z"))
	f.EC["T"].Claims = M{"trust_mark_issuers": M{tmType: []any{f.ID("X")}}}
	return f
}

var collectClaims = [][]string{
	nil, {"entity_types"}, {"display_name"}, {"description"}, {"logo_uri"}, {"policy_uri"}, {"information_uri"}, {"keywords"},
	{"trust_marks"}, {"trust_chain"}, {"metadata"}, {"trust_marks", "trust_chain"}, {"metadata", "trust_marks", "entity_types"},
	{"entity_types", "display_name", "keywords", "logo_uri"}, {"unknown_claim"},
}

func someRequest(c *C, x *X) (req apimodel.EntityCollectionRequest) {
	req.EntityTypes = Of(
		c, "entity_type", nil, []string{"openid_provider"}, []string{"openid_relying_party"}, []string{"federation_entity"},
		[]string{"openid_provider", "custom_thing"}, []string{"openid_relying_party", "openid_provider"}, []string{"oauth_client"},
	)
	req.NameQuery = Of(c, "name", "", "alpha", "BET", "ga", "elan", "ÉLAN", "zzz", "lhOP", "e r")
	req.TrustMarkTypes = Of(c, "marks", nil, []string{tmType}, []string{tmOther}, []string{tmType, tmOther}, []string{"https://tm.example.org/unknown"})
	req.Claims = Of(c, "claims", collectClaims...)
	return
}

func exploreCollectRequests(x *X) {
	x.ExploreB(
		"requests", 0, func(c *C) {
			kind := Of(c, "collector", "simple", "verified", "smart", "ops", "verified ops")
			req := someRequest(c, x)
			if kind != "simple" && !x.Thorough() && len(req.EntityTypes)+len(req.NameQuery)+len(req.TrustMarkTypes) > 3 {
				c.Discard()
			}
			c.Commit()
			newMemCache()
			f := collectFed()
			if strings.HasPrefix(kind, "verified") {
				// not acknowledged by the anchor it is listed by
				f.SS[[2]string{"T", "M"}].Exp = -time.Minute
			}
			f.install(newNet())
			req.TrustAnchor = f.ID("T")
			asked := jsonOf(req)
			got := collectorOf(kind).CollectEntities(req)
			if jsonOf(req) != asked {
				c.Fail("%s: collecting changed the request: %s, was %s", kind, jsonOf(req), asked)
				return
			}
			if strings.HasSuffix(kind, "ops") {
				// whatever types were asked for
				req.EntityTypes = []string{"openid_provider"}
			}
			now := time.Now()
			reach := f.refReach("T", now, f.listed)
			if strings.HasPrefix(kind, "verified") {
				reach = f.verifiedOnly(reach, "T", now)
			}
			checkCollected(c, kind, f, "T", req, got, reach, now)
		},
	)
}

// exploreCollectFilters: the library's own filters.
func exploreCollectFilters(x *X) {
	ta := []string{"https://t.example.org"}
	type flt struct {
		name string
		f    oidfed.EntityCollectionFilter
		want func(md M) bool
	}
	has := func(key string, vals ...string) func(md M) bool {
		return func(md M) bool {
			op, ok := md["openid_provider"].(map[string]any)
			if !ok {
				return false
			}
			l, _ := op[key].([]any)
			for _, v := range vals {
				if !contains(l, v) {
					return false
				}
			}
			return true
		}
	}
	fl := []flt{
		{"code", oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(ta, "authorization_code"), has("grant_types_supported", "authorization_code")},
		{"code+refresh", oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(ta, "refresh_token", "authorization_code"), has("grant_types_supported", "authorization_code", "refresh_token")},
		{"scope", oidfed.EntityCollectionFilterOPSupportedScopesIncludes(ta, "openid"), has("scopes_supported", "openid")},
		{"scopes", oidfed.EntityCollectionFilterOPSupportedScopesIncludes(ta, "openid", "email"), has("scopes_supported", "openid", "email")},
		{"explicit", oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(ta), has("client_registration_types_supported", "explicit")},
		{"automatic", oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(ta), has("client_registration_types_supported", "automatic")},
		{"ops", oidfed.EntityCollectionFilterOPs(), has("")},
	}
	x.ExploreB(
		"filters", 0, func(c *C) {
			mask := c.Choose(1<<len(fl), "filters")
			claims := Of(c, "claims", nil, []string{"metadata", "entity_types"}, []string{"entity_types"})
			broken := Of(c, "not acknowledged", "", "L", "P", "J")
			over := Of(c, "collector", "", "simple", "ops")
			if over == "simple" && broken != "" && broken != "P" || over == "ops" && broken == "J" {
				c.Discard()
			}
			c.Commit()
			newMemCache()
			f := collectFed()
			if broken != "" {
				for k, s := range f.SS {
					if k[1] == broken {
						s.Exp = -time.Minute
					}
				}
			}
			f.install(newNet())
			req := apimodel.EntityCollectionRequest{TrustAnchor: ta[0], Claims: claims}
			col := oidfed.FilterableVerifiedChainsEntityCollector{}
			if over == "ops" {
				col.Collector = &oidfed.SimpleOPCollector{}
			} else if over == "simple" {
				col.Collector = &oidfed.SimpleEntityCollector{}
			}
			for i, g := range fl {
				if mask&(1<<i) != 0 {
					col.Filters = append(col.Filters, g.f)
				}
			}
			got := col.CollectEntities(req)
			now := time.Now()
			var reach []string
			for _, n := range f.verifiedOnly(f.refReach("T", now, f.listed), "T", now) {
				md, _ := f.refEC(n, now)["metadata"].(map[string]any)
				ok := true
				for i, g := range fl {
					ok = ok && (mask&(1<<i) == 0 || g.want(md))
				}
				if over == "ops" {
					ok = ok && md["openid_provider"] != nil
				}
				if ok {
					reach = append(reach, n)
				}
			}
			checkCollected(c, fmt.Sprintf("filters %b", mask), f, "T", req, got, reach, now)
		},
	)
}

var listFaults = []string{
	"ok", "missing", "network", "html", "500", "error document", "object", "numbers", "null", "empty", "duplicates", "unknown entity",
	"bad ids", "no endpoint",
}

// exploreCollectFaults: placements of faults, and collections repeated later.
func exploreCollectFaults(x *X, k int) {
	x.ExploreB(
		"faults", k, func(c *C) {
			claims := DevOf(c, "claims", nil, []string{"trust_chain"})
			marks := DevOf(c, "marks", nil, []string{tmOther})
			f := collectFed()
			n := newNet()
			lf := map[string]string{}
			for _, a := range []string{"T", "I", "J"} {
				lf[a] = DevOf(c, "listing of "+a, listFaults...)
			}
			net := map[string]bool{}
			for _, e := range []string{"T", "I", "J", "L", "P", "X"} {
				switch ft := DevOf(c, "configuration of "+e, "ok", "miss", "badsub", "badiss", "expired", "future", "nomd", "wrongtyp", "garbage", "network"); ft {
				case "network":
					net[e] = true
				default:
					applyECFault(f, e, ft)
				}
			}
			heal := DevOf(c, "repeated", "not", "at once", "after 50 minutes", "after 61 minutes")
			c.Commit()
			newMemCache()
			f.install(n)
			base := n.H
			for a, ft := range lf {
				a, ft := a, ft
				if ft == "no endpoint" {
					if md, ok := f.EC[a].Md.(M); ok {
						delete(md["federation_entity"].(M), "federation_list_endpoint")
					}
				}
				old := base[f.ID(a)+"/list"]
				n.set(
					f.ID(a)+"/list", func(r *nethttp.Request) *Resp {
						switch lf[a] {
						case "missing":
							return notFound()
						case "network":
							return &Resp{Err: errors.New("no route")}
						case "html":
							return &Resp{CT: "text/html", Body: []byte("<html>welcome</html>")}
						case "500":
							return &Resp{Status: 500, CT: "text/html", Body: []byte("<html>oops</html>")}
						case "error document":
							return jsonResp(503, M{"error": "temporarily_unavailable"})
						case "object":
							return jsonResp(200, M{"a": "b"})
						case "numbers":
							return jsonResp(200, []any{1, 2})
						case "null":
							return jsonResp(200, nil)
						case "empty":
							return jsonResp(200, []any{})
						case "duplicates":
							ids := []any{}
							for _, s := range f.listed(a) {
								ids = append(ids, f.ID(s), f.ID(s))
							}
							return jsonResp(200, ids)
						case "unknown entity":
							ids := []any{"https://unknown.example.org"}
							for _, s := range f.listed(a) {
								ids = append(ids, f.ID(s))
							}
							return jsonResp(200, ids)
						case "bad ids":
							ids := []any{"", "::", "https://", "%zz"}
							for _, s := range f.listed(a) {
								ids = append(ids, f.ID(s))
							}
							return jsonResp(200, ids)
						}
						return old(r)
					},
				)
			}
			for e := range net {
				n.set(f.ID(e)+"/.well-known/openid-federation", func(*nethttp.Request) *Resp { return &Resp{Err: errors.New("no route")} })
			}
			miss := func(e string) {
				if net[e] {
					f.EC[e].Miss = true
				}
			}
			for e := range net {
				miss(e)
			}
			list := func(a string) []string {
				switch lf[a] {
				case "ok", "duplicates", "unknown entity", "bad ids":
					return f.listed(a)
				}
				return nil
			}
			req := apimodel.EntityCollectionRequest{TrustAnchor: f.ID("T"), Claims: claims, TrustMarkTypes: marks}
			col := collectorOf("simple")
			got := col.CollectEntities(req)
			now := time.Now()
			reach := f.refReach("T", now, list)
			checkCollected(c, "collection", f, "T", req, got, reach, now)
			if heal == "not" {
				return
			}
			// everything that failed works again; what was answered may be remembered for an hour
			for e := range net {
				f.EC[e].Miss = false
				f.install(n)
			}
			healed := collectFed()
			for _, e := range []string{"T", "I", "J", "L", "P", "X"} {
				if s := f.EC[e]; s.Raw != nil || s.Miss || s.Typ != "" || s.Iss != f.ID(e) || s.Sub != f.ID(e) || s.Exp < 0 {
					f.EC[e] = healed.EC[e]
				}
			}
			for a, ft := range lf {
				switch ft {
				case "empty", "null", "no endpoint":
					if heal == "after 61 minutes" && ft != "no endpoint" {
						lf[a] = "ok"
					}
				default:
					lf[a] = "ok"
				}
			}
			f.install(n)
			for a := range lf {
				old := n.H[f.ID(a)+"/list"]
				n.set(
					f.ID(a)+"/list", func(r *nethttp.Request) *Resp {
						if lf[a] == "empty" {
							return jsonResp(200, []any{})
						}
						if lf[a] == "null" {
							return jsonResp(200, nil)
						}
						return old(r)
					},
				)
			}
			switch heal {
			case "after 50 minutes":
				time.Sleep(50 * time.Minute)
			case "after 61 minutes":
				time.Sleep(61 * time.Minute)
			}
			got = col.CollectEntities(req)
			now = time.Now()
			reach = f.refReach("T", now, list)
			checkCollected(c, "collection "+heal+" after everything works again", f, "T", req, got, reach, now)
			time.Sleep(time.Minute)
			synctest.Wait()
		},
	)
}

// exploreCollectSizes: many subordinates, many levels.
func exploreCollectSizes(x *X) {
	x.ExploreB(
		"sizes", 0, func(c *C) {
			n := Of(c, "subordinates", 1, 2, 126, 127, 128, 129, 130, 257, 400)
			depth := Of(c, "levels", 1, 2, 40)
			nested := Of(c, "authorities", false, true)
			c.Commit()
			newMemCache()
			f := newFed()
			f.entity("T", f.authorityMd("T"))
			at := "T"
			for l := 1; l < depth; l++ {
				b := fmt.Sprint("I", l)
				f.entity(b, f.authorityMd(b))
				f.List[at] = []string{b}
				at = b
			}
			for i := 0; i < n; i++ {
				b := fmt.Sprint("L", i)
				if nested {
					f.entity(b, f.authorityMd(b))
					f.List[b] = []string{}
				} else {
					f.entity(b, leafMd())
				}
				f.List[at] = append(f.List[at], b)
			}
			f.install(newNet())
			req := apimodel.EntityCollectionRequest{TrustAnchor: f.ID("T")}
			got := collectorOf("simple").CollectEntities(req)
			reach := f.refReach("T", time.Now(), f.listed)
			checkCollected(c, fmt.Sprint(n, " subordinates at level ", depth), f, "T", req, got, reach, time.Now())
		},
	)
}

// exploreCollectSchedules: all interleavings within a collection.
func exploreCollectSchedules(x *X, k int) {
	graphs := []map[string][]string{
		{"T": {"I", "J"}, "I": {"J", "L"}, "J": {"I", "L"}},
		{"T": {"I", "J"}, "I": {"T", "L"}, "J": {"L", "M"}},
		{"T": {"I", "J", "L"}, "I": {"L", "J"}, "J": {}},
	}
	x.ExploreB(
		"schedules", k, func(c *C) {
			g := graphs[c.Choose(len(graphs), "listings")]
			tm := Of(c, "marks", nil, []string{tmType})
			nc := Of(c, "collections", 1, 2)
			if nc == 2 && !x.Thorough() && (tm != nil || len(g["I"]) == 0 || g["T"][len(g["T"])-1] == "L") {
				c.Discard()
			}
			c.Shared()
			newMemCache()
			f := newFed()
			for _, n := range []string{"T", "I", "J"} {
				f.entity(n, f.authorityMd(n), "T")
				f.List[n] = g[n]
			}
			f.EC["T"].Hints = nil
			f.entity("L", leafMd(), "I")
			f.entity("M", M{"openid_provider": M{"issuer": f.ID("M")}}, "J")
			for _, n := range []string{"I", "J", "L"} {
				j := markSpec{typ: "trust-mark+jwt", mtype: tmType, iss: "T", sub: n, key: "T", iat: -time.Hour, exp: dEC}.jwt(f)
				f.EC[n].Claims = M{"trust_marks": []any{M{"trust_mark_type": tmType, "trust_mark": string(j)}}}
			}
			n := newNet()
			f.install(n)
			req := apimodel.EntityCollectionRequest{TrustAnchor: f.ID("T"), TrustMarkTypes: tm, Claims: []string{"entity_types"}}
			s := newSched(
				c, func(l string) bool {
					return strings.HasPrefix(l, "!discovery.go") || strings.HasPrefix(l, "!net") || l == "!lock" || strings.HasPrefix(l, "!start")
				},
			)
			n.Gate = func(what string) { s.yield("!net " + what) }
			res := make([][]*oidfed.CollectedEntity, nc)
			col := collectorOf("simple")
			var tasks []func()
			for i := 0; i < nc; i++ {
				tasks = append(tasks, func() { res[i] = col.CollectEntities(req) })
			}
			blocked := s.run(tasks...)
			s.release()
			n.Gate = nil
			if blocked != "" {
				c.Fail("the collection never ends: %s", blocked)
				return
			}
			now := time.Now()
			reach := f.refReach("T", now, f.listed)
			for i := range res {
				checkCollected(c, fmt.Sprintf("collection %d of %d", i+1, nc), f, "T", req, res[i], reach, now)
			}
			c.State(g, tm, nc, s.Switch, s.Points)
			c.Outcome(fmt.Sprint(nc, " ", s.Points/50*50))
		},
	)
}

// exploreCollectRaces runs collections freely for the race detector.
func exploreCollectRaces(x *X) {
	x.ExploreB(
		"races", 0, func(c *C) {
			req := apimodel.EntityCollectionRequest{TrustAnchor: "https://t.example.org"}
			req.TrustMarkTypes = Of(c, "marks", nil, []string{tmType})
			req.Claims = Of(c, "claims", nil, []string{"trust_chain", "trust_marks"})
			shared := Of(c, "one collector", false, true)
			c.Commit()
			newMemCache()
			f := collectFed()
			f.install(newNet())
			now := time.Now()
			reach := f.refReach("T", now, f.listed)
			for r := 0; r < 6; r++ {
				newMemCache()
				res := make([][]*oidfed.CollectedEntity, 4)
				col := collectorOf("simple")
				var wg sync.WaitGroup
				for i := range res {
					wg.Add(1)
					go func() {
						defer wg.Done()
						cc := col
						if !shared {
							cc = collectorOf([]string{"simple", "verified", "smart"}[i%3])
						}
						res[i] = cc.CollectEntities(req)
					}()
				}
				wg.Wait()
				for i := range res {
					checkCollected(c, fmt.Sprint("collection ", i), f, "T", req, res[i], reach, now)
				}
			}
			time.Sleep(time.Minute)
			synctest.Wait()
		},
	)
}

func init() {
	registry["C16"] = func(x *X) {
		if os.Getenv("ZZ_MODE") == "race" {
			exploreCollectRaces(x)
			return
		}
		exploreListings(x)
		exploreSelections(x)
		exploreCollectRequests(x)
		exploreCollectFilters(x)
		exploreCollectFaults(x, Pick(x, 2, 3))
		exploreCollectSizes(x)
		exploreCollectSchedules(x, Pick(x, 1, 2))
	}
}
