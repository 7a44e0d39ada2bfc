package zzverif

import (
	"fmt"
	"net/url"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
)

// refConstraint is the reference reading of constraints: path is the list of
// entities from the leaf up to the subject of the statement.
func refConstraint(f *Fed, leafTypes []string) func(path []string, depth int, ss M) bool {
	return func(path []string, depth int, ss M) bool {
		cs, _ := ss["constraints"].(map[string]any)
		if cs == nil {
			return true
		}
		if m, ok := cs["max_path_length"].(float64); ok && float64(len(path)-1) > m {
			return false
		}
		if nc, ok := cs["naming_constraints"].(map[string]any); ok {
			match := func(pats []any, host string) bool {
				host = strings.ToLower(host) // host names are case-insensitive
				for _, p := range pats {
					s := strings.ToLower(p.(string))
					if strings.HasPrefix(s, ".") {
						if len(host) > len(s) && host[len(host)-len(s):] == s {
							return true
						}
					} else if s == host {
						return true
					}
				}
				return false
			}
			for _, n := range path {
				u, _ := url.Parse(f.ID(n))
				ex, _ := nc["excluded"].([]any)
				if match(ex, u.Hostname()) {
					return false
				}
				if pm, ok := nc["permitted"].([]any); ok && !match(pm, u.Hostname()) {
					return false
				}
			}
		}
		if at, ok := cs["allowed_entity_types"].([]any); ok {
			allowed := map[string]bool{"federation_entity": true}
			for _, a := range at {
				allowed[a.(string)] = true
			}
			for i, n := range path {
				md, _ := generic(f.EC[n].Payload()).(map[string]any)["metadata"].(map[string]any)
				for t := range md {
					if i == 0 && leafTypes != nil && !setOf(leafTypes)[t] {
						continue
					}
					if !allowed[t] {
						return false
					}
				}
			}
		}
		return true
	}
}

func init() {
	topos := []map[string][]string{
		{"L": {"I1"}, "I1": {"I2"}, "I2": {"T1"}, "T1": nil},
		{"L": {"I1", "I2"}, "I1": {"T1"}, "I2": {"T1"}, "T1": nil},
		{"L": {"I1"}, "I1": {"I2", "T1"}, "I2": {"T1"}, "T1": nil},
		{"L": {"I1"}, "I1": {"I2", "T2"}, "I2": {"I3"}, "I3": {"T1", "T2"}, "T1": nil, "T2": nil},
		{"L": {"I2", "I1", "T1"}, "I1": {"I2"}, "I2": {"T1"}, "T1": nil},
	}
	types := map[string]M{
		"rp":     {"openid_relying_party": M{"client_name": "x"}},
		"op":     {"openid_provider": M{"organization_name": "x"}},
		"rp+op":  {"openid_relying_party": M{"client_name": "x"}, "openid_provider": M{"organization_name": "x"}},
		"custom": {"custom_service": M{"a": "b"}},
		"rp+custom": {
			"custom_service": M{"a": "b"}, "openid_relying_party": M{"client_name": "x"},
		},
		"others": {
			"oauth_client": M{"client_name": "x"}, "oauth_authorization_server": M{"organization_name": "x"},
			"oauth_resource": M{"resource": "https://r.example.org"},
		},
	}
	idStyles := map[string]func(string) string{
		"plain": func(n string) string { return "https://" + strings.ToLower(n) + ".example.org" },
		"deep": func(n string) string {
			return map[string]string{
				"L": "https://l.sub.example.org:8443/a/b", "I1": "https://sub.example.org/x/", "I2": "https://example.org",
				"I3": "https://xexample.org", "T1": "https://ta.test", "T2": "https://ta2.test",
			}[n]
		},
	}
	mpl := []any{nil, 0, 1, 2, 3}
	naming := []any{
		nil, M{"permitted": []any{".example.org"}}, M{"permitted": []any{"example.org", ".example.org"}},
		M{"excluded": []any{".sub.example.org"}}, M{"excluded": []any{"sub.example.org"}},
		M{"permitted": []any{"l.example.org", "i1.example.org"}}, M{"excluded": []any{"l.example.org"}},
		M{"permitted": []any{".example.org"}, "excluded": []any{"i1.example.org"}},
		M{"permitted": []any{"l.example.org"}}, M{"excluded": []any{"i2.example.org", "example.org"}},
		M{"permitted": []any{".sub.example.org", "sub.example.org"}}, M{"excluded": []any{".org"}}, M{"permitted": []any{"xample.org"}},
		M{"permitted": []any{}}, M{"excluded": []any{}}, M{"permitted": []any{".l.example.org"}}, M{},
	}
	deepNaming := []any{
		nil, M{"permitted": []any{"l.sub.example.org"}}, M{"excluded": []any{"l.sub.example.org"}},
		M{"permitted": []any{"l.sub.example.org", "sub.example.org", "example.org"}},
		M{"permitted": []any{".sub.example.org", "sub.example.org"}}, M{"excluded": []any{".sub.example.org"}},
		M{"excluded": []any{"sub.example.org"}}, M{"permitted": []any{".example.org"}}, M{"excluded": []any{".l.sub.example.org"}},
		M{"permitted": []any{}}, M{"excluded": []any{"xexample.org", "example.org"}}, M{"permitted": []any{"xample.org", ".org"}},
		M{"excluded": []any{"l.sub.example.org:8443"}}, M{"permitted": []any{".sub.example.org", ".example.org"}},
	}
	quickNaming := append(append([]any{}, naming[:9]...), naming[13])
	allowed := []any{
		nil, []any{"openid_relying_party"}, []any{"openid_provider"}, []any{"openid_relying_party", "openid_provider"},
		[]any{"custom_service"}, []any{}, []any{"federation_entity", "openid_relying_party", "custom_service"},
		[]any{"oauth_client", "oauth_authorization_server", "oauth_resource"}, []any{"oauth_client", "oauth_resource", "custom"},
	}
	registry["C03"] = func(x *X) {
		exploreLengths(x)
		exploreNames(x)
		exploreTypes(x)
		exploreAlongChain(x)
		x.ExploreB(
			"constraints", Pick(x, 2, 3), func(c *C) {
				ti := c.Choose(len(topos), "topology")
				hints := topos[ti]
				naming, allowed, mpl := naming, allowed, mpl
				if !x.Thorough() {
					naming = quickNaming
					if ti == 3 {
						naming, allowed, mpl = naming[:5], allowed[:4], mpl[:4]
					}
				}
				f := mkFed(hints)
				style := Of(c, "ids", "plain", "deep")
				if style == "deep" {
					naming = deepNaming
					if !x.Thorough() {
						naming = naming[:10]
						if ti == 3 {
							naming = naming[:5]
						}
					}
				}
				f2 := newFed()
				f2.ID = idStyles[style]
				// rebuild with these identifiers
				for n := range f.EC {
					md := f2.authorityMd(n)
					f2.entity(n, md, hints[n]...)
				}
				for k := range f.SS {
					f2.sub(k[0], k[1])
				}
				f = f2
				leaf := DevOf(c, "leaf types", "rp", "op", "rp+op", "custom", "rp+custom", "others")
				md := M{}
				if c.Dev(2, "leaf is no federation_entity") == 0 {
					md["federation_entity"] = f.authorityMd("L")["federation_entity"]
				}
				for t, v := range types[leaf] {
					md[t] = v
				}
				f.EC["L"].Md = md
				it := DevOf(c, "I1 types", "", "op", "custom")
				md = f.authorityMd("I1")
				for t, v := range types[it] {
					md[t] = v
				}
				f.EC["I1"].Md = md
				typesMatter := false
				for _, k := range sortedSS(f) {
					cs := M{}
					if v := DevOf(c, "mpl("+k[0]+"->"+k[1]+")", mpl...); v != nil {
						cs["max_path_length"] = v
					}
					if v := DevOf(c, "names("+k[0]+"->"+k[1]+")", naming...); v != nil {
						cs["naming_constraints"] = v
					}
					if v := DevOf(c, "types("+k[0]+"->"+k[1]+")", allowed...); v != nil {
						cs["allowed_entity_types"] = v
						typesMatter = true
					}
					if len(cs) > 0 {
						f.SS[k].Claims = M{"constraints": cs}
					}
				}
				c.Commit()
				judgeConstraints(c, f, typesMatter)
				c.State(c.labels)
			},
		)
	}
}

// judgeConstraints resolves L, without and with requested entity types, and compares
// with the reference reading of the constraints.
func judgeConstraints(c *C, f *Fed, typesMatter bool) {
	defer noRefresh()()
	newMemCache()
	n := newNet()
	f.install(n)
	as := []Anchor{{Name: "T1"}}
	if f.EC["T2"] != nil {
		as = append(as, Anchor{Name: "T2"})
	}
	now := time.Now()
	for round, typs := range [][]string{nil, {"openid_relying_party"}, {"custom_service", "openid_provider"}} {
		if round > 0 && !typesMatter {
			break
		}
		want := f.refChains("L", as, now, refOpts{constraint: refConstraint(f, typs)})
		tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L"), Types: typs}
		got := tr.ResolveToValidChains()
		c.Step(fmt.Sprintf("resolve with types %v: %s", typs, leafChains(got)))
		w, g := map[string]string{}, map[string]string{}
		for _, ch := range want {
			w[chainKeyRaw(ch)] = descRaw(ch)
		}
		for _, ch := range got {
			g[chainKey(ch)] = descChain(ch)
		}
		for k, d := range g {
			if _, ok := w[k]; !ok {
				c.Fail("round %d types %v: chain %s breaks a constraint, but was accepted", round, typs, d)
				return
			}
		}
		for k, d := range w {
			if _, ok := g[k]; !ok {
				c.Fail("round %d types %v: chain %s satisfies all constraints, but was rejected", round, typs, d)
				return
			}
		}
		c.Outcome(fmt.Sprintf("%d chains", len(g)))
	}
}

// exploreLengths enumerates path lengths: lines of any length with a maximum on any
// of the statements.
func exploreLengths(x *X) {
	x.ExploreB(
		"path lengths", Pick(x, 2, 3), func(c *C) {
			n := 1 + c.Choose(Pick(x, 7, 9), "length")
			hints := map[string][]string{"T1": nil}
			cur := "L"
			for i := 1; i < n; i++ {
				hints[cur] = []string{fmt.Sprint("I", i)}
				cur = fmt.Sprint("I", i)
			}
			hints[cur] = []string{"T1"}
			f := mkFed(hints)
			for _, k := range sortedSS(f) {
				vals := []any{nil}
				for i := 0; i <= n; i++ {
					vals = append(vals, i)
				}
				if v := DevOf(c, "mpl("+k[0]+"->"+k[1]+")", vals...); v != nil {
					f.SS[k].Claims = M{"constraints": M{"max_path_length": v}}
				}
			}
			c.Commit()
			judgeConstraints(c, f, false)
			c.State(c.labels)
		},
	)
}

// exploreNames enumerates pairs of hosts and patterns.
func exploreNames(x *X) {
	hosts := []string{
		"l.example.org", "example.org", "l.example.org:8443", "xexample.org", "a.l.example.org", "org", "l.example.org.evil.test",
		"10.0.0.1", "[2001:db8::1]:443", "l.example.com", "a.b.c.example.org",
		"L.Example.ORG",
	}
	var pats []string
	seen := map[string]bool{}
	for _, h := range append(hosts, ".", "", "xample.org", "l.example", "e.org") {
		h, _, _ = strings.Cut(strings.TrimPrefix(h, "["), "]")
		if !strings.Contains(h, "::") {
			h, _, _ = strings.Cut(h, ":")
		}
		for _, p := range []string{h, "." + h} {
			if !seen[p] && p != ".." {
				seen[p] = true
				pats = append(pats, p)
			}
		}
	}
	x.ExploreB(
		"names", Pick(x, 2, 3), func(c *C) {
			host := Of(c, "host", hosts...)
			path := Of(c, "path", "", "/", "/a/b.example.org")
			f := newFed()
			f.ID = func(n string) string {
				if n == "L" {
					return "https://" + host + path
				}
				return "https://" + strings.ToLower(n) + ".ta.test"
			}
			f.entity("L", M{"openid_relying_party": M{"client_name": "x"}}, "T1")
			f.entity("T1", f.authorityMd("T1"))
			f.sub("T1", "L")
			nc := M{}
			alts := []any{nil, []any{}}
			for _, p := range pats {
				alts = append(alts, []any{p})
			}
			for _, which := range []string{"permitted", "excluded"} {
				v := DevOf(c, which, alts...)
				if v == nil {
					continue
				}
				if l := v.([]any); len(l) > 0 {
					if w := DevOf(c, which+" too", append([]string{"-"}, pats...)...); w != "-" {
						v = append(append([]any{}, l...), w)
					}
				}
				nc[which] = v
			}
			c.Commit()
			f.SS[[2]string{"T1", "L"}].Claims = M{"constraints": M{"naming_constraints": nc}}
			judgeConstraints(c, f, false)
			c.State(c.labels)
		},
	)
}

// exploreTypes enumerates the entity types of an entity and the lists of allowed ones.
func exploreTypes(x *X) {
	all := []string{
		"openid_relying_party", "openid_provider", "oauth_client", "oauth_authorization_server", "oauth_resource", "custom_service",
	}
	x.ExploreB(
		"entity types", Pick(x, 2, 4), func(c *C) {
			who := Of(c, "who", "L", "I1")
			f := mkFed(map[string][]string{"L": {"I1"}, "I1": {"T1"}, "T1": nil})
			md := M{}
			if c.Choose(2, "also a federation_entity") == 1 || who == "I1" {
				md["federation_entity"] = f.authorityMd(who)["federation_entity"]
			}
			for _, t := range all {
				if c.Dev(2, t) == 1 {
					md[t] = M{"organization_name": "x"}
				}
			}
			at := []any{}
			for _, t := range bits(c.Choose(128, "allowed"), append([]string{"federation_entity"}, all...)) {
				at = append(at, t)
			}
			by := Of(c, "by", [2]string{"I1", "L"}, [2]string{"T1", "I1"})
			c.Commit()
			if who == "I1" {
				f.EC["L"].Md = M{"federation_entity": M{"organization_name": "x"}}
			}
			f.EC[who].Md = md
			f.SS[by].Claims = M{"constraints": M{"allowed_entity_types": at}}
			judgeConstraints(c, f, false)
			c.State(c.labels)
		},
	)
}

// exploreAlongChain: constraints of all kinds on any statement of a line, about entity types and names anywhere below.
func exploreAlongChain(x *X) {
	x.ExploreB(
		"constraints along a chain", Pick(x, 2, 3), func(c *C) {
			n := 3 + c.Choose(Pick(x, 2, 3), "length")
			names := []string{"L"}
			for i := 1; i < n; i++ {
				names = append(names, fmt.Sprint("I", i))
			}
			hints := map[string][]string{"T1": nil}
			for i, e := range append(names[1:], "T1") {
				hints[names[i]] = []string{e}
			}
			f := mkFed(hints)
			for _, e := range append(names, "T1") {
				md := M{"federation_entity": f.authorityMd(e)["federation_entity"]}
				if t := DevOf(c, "types of "+e, "", "openid_provider", "custom_service", "openid_relying_party"); t != "" {
					md[t] = M{"organization_name": "x"}
				}
				f.EC[e].Md = md
			}
			for _, k := range sortedSS(f) {
				cs := M{}
				if v := DevOf(
					c, "types("+k[0]+"->"+k[1]+")", nil, []any{"openid_relying_party"}, []any{"openid_provider", "custom_service"}, []any{},
				); v != nil {
					cs["allowed_entity_types"] = v
				}
				hs := append(names, "T1")
				if i := c.Dev(1+2*len(hs), "names("+k[0]+"->"+k[1]+")"); i > 0 {
					// one host excluded, or all but one permitted
					var hosts []any
					for j, e := range hs {
						if h := strings.TrimPrefix(f.ID(e), "https://"); (j == (i-1)/2) == (i%2 == 1) {
							hosts = append(hosts, h)
						}
					}
					cs["naming_constraints"] = M{map[int]string{1: "excluded", 0: "permitted"}[i%2]: hosts}
				}
				if len(cs) > 0 {
					f.SS[k].Claims = M{"constraints": cs}
				}
			}
			c.Commit()
			judgeConstraints(c, f, true)
			c.State(c.labels)
		},
	)
}

func sortedSS(f *Fed) [][2]string {
	var sks [][2]string
	for sk := range f.SS {
		sks = append(sks, sk)
	}
	sortBy(sks, func(a, b [2]string) bool { return a[0]+a[1] < b[0]+b[1] })
	return sks
}
