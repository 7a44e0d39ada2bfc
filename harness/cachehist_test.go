package zzverif

import (
	"fmt"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// refView is the reference statement cache: a successfully fetched statement is
// reused until it expires.
type refView struct {
	f     *Fed
	now   func() time.Time
	ecs   map[string]*viewEntry
	sss   map[[2]string]*viewEntry
	fresh bool
}

type viewEntry struct {
	s   *Stmt
	exp time.Time
}

func cloneStmt(s *Stmt) *Stmt {
	if s == nil {
		return nil
	}
	d := *s
	return &d
}

func (v *refView) usable(s *Stmt) bool { return s != nil && !s.Miss && s.Typ == "" && s.Raw == nil }

// snapshot builds the federation as the reference cache sees it, for a
// resolution of start: a dry run over the reference decides what is fetched.
func (v *refView) snapshot(start string, as []Anchor) *Fed {
	g := newFed()
	g.ID = v.f.ID
	now := v.now()
	getEC := func(n string) *Stmt {
		if e := v.ecs[n]; e != nil && now.Before(e.exp) {
			return e.s
		}
		s := v.f.EC[n]
		if v.usable(s) {
			exp := t0.Add(s.Exp)
			if exp.After(now) {
				v.ecs[n] = &viewEntry{cloneStmt(s), exp}
			}
		}
		return s
	}
	getSS := func(k [2]string) *Stmt {
		if e := v.sss[k]; e != nil && now.Before(e.exp) {
			return e.s
		}
		s := v.f.SS[k]
		if v.usable(s) {
			exp := t0.Add(s.Exp)
			if exp.After(now) {
				v.sss[k] = &viewEntry{cloneStmt(s), exp}
			}
		}
		return s
	}
	for n := range v.f.EC {
		g.EC[n] = nil
	}
	byID := map[string]string{}
	for n := range v.f.EC {
		byID[v.f.ID(n)] = n
	}
	isA := map[string]bool{}
	for _, a := range as {
		isA[a.Name] = true
	}
	var rec func(path []string)
	rec = func(path []string) {
		cur := path[len(path)-1]
		if isA[cur] {
			return
		}
		rs := g.read(g.EC[cur], cur, cur, now)
		if rs == nil {
			return
		}
		hints, _ := rs.p["authority_hints"].([]any)
	next:
		for _, h := range hints {
			n, ok := byID[fmt.Sprint(h)]
			if !ok {
				continue
			}
			for _, p := range path {
				if p == n {
					continue next
				}
			}
			if g.EC[n] == nil {
				g.EC[n] = getEC(n)
			}
			ec := g.read(g.EC[n], n, n, now)
			if ec == nil || fetchEndpoint(ec.p) == "" {
				continue
			}
			k := [2]string{n, cur}
			if g.SS[k] == nil {
				if s := getSS(k); s != nil {
					g.SS[k] = s
				}
			}
			if g.read(g.SS[k], n, cur, now) == nil {
				continue
			}
			rec(append(append([]string{}, path...), n))
		}
	}
	g.EC[start] = getEC(start)
	rec([]string{start})
	return g
}

func cloneFed(f *Fed) *Fed {
	g := newFed()
	g.ID = f.ID
	for n, s := range f.EC {
		g.EC[n] = cloneStmt(s)
	}
	for k, s := range f.SS {
		g.SS[k] = cloneStmt(s)
	}
	return g
}

func noRefresh() func() {
	g := oidfed.ResolverCacheGracePeriod
	oidfed.ResolverCacheGracePeriod = 0
	return func() { oidfed.ResolverCacheGracePeriod = g }
}

// judgeCached compares an answer with the reference cache and the live world:
// every chain is sound now, and what both of them offer is found.
func judgeCached(
	c *C, f *Fed, start string, as []Anchor, got oidfed.TrustChains, view, live [][][]byte, what string,
) bool {
	now := time.Now()
	for _, g := range got {
		if why := auditChain(rawOf(g), f.ID(start), f.libAnchors(as), pinsOf(f, as), now); why != "" {
			c.Fail("%s: accepted chain %s: %s", what, descChain(g), why)
			return false
		}
	}
	gs := map[string]bool{}
	for _, g := range got {
		gs[chainKey(g)] = true
	}
	lv := map[string]bool{}
	for _, l := range live {
		lv[chainKeyRaw(l)] = true
	}
	for _, w := range view {
		k := chainKeyRaw(w)
		if lv[k] && !gs[k] {
			var gd []string
			for _, g := range got {
				gd = append(gd, descChain(g))
			}
			c.Fail("%s: valid chain missing: %s; returned: %s", what, descRaw(w), strings.Join(gd, " ; "))
			return false
		}
	}
	return true
}

func leafChains(cs oidfed.TrustChains) string {
	var gd []string
	for _, g := range cs {
		gd = append(gd, descChain(g))
	}
	sort.Strings(gd)
	return strings.Join(gd, ";")
}

func histFed() *Fed {
	f := newFed()
	md := f.authorityMd("L")
	md["openid_relying_party"] = leafMd()["openid_relying_party"]
	f.entity("L", md, "I1", "I2").Exp = 6 * time.Hour
	f.entity("I1", f.authorityMd("I1"), "T1")
	f.entity("I2", f.authorityMd("I2"), "T1", "T2")
	f.entity("T1", f.authorityMd("T1")).Exp = 48 * time.Hour
	f.entity("T2", f.authorityMd("T2")).Exp = 48 * time.Hour
	f.sub("I1", "L").Exp = 2 * time.Hour
	f.sub("I2", "L").Exp = 4 * time.Hour
	f.sub("T1", "I1").Exp = 12 * time.Hour
	f.sub("T1", "I2").Exp = 12 * time.Hour
	f.sub("T2", "I2").Exp = 12 * time.Hour
	histIssue(f, "")
	return f
}

// histIssue makes the final metadata of a chain tell which statements it consists of, and which issue of them.
func histIssue(f *Fed, issue string) {
	rp := leafMd()["openid_relying_party"].(M)
	rp["client_name"] = "L" + issue
	md := f.authorityMd("L")
	md["openid_relying_party"] = rp
	f.EC["L"].Md = md
	for k, s := range f.SS {
		s.Claims = M{
			"metadata_policy": M{"openid_relying_party": M{"contacts": M{"add": l(k[0] + " about " + k[1] + issue)}}},
		}
	}
}

func rpMd(md *oidfed.Metadata) string {
	if md == nil || md.RelyingParty == nil {
		return ""
	}
	contacts := append([]string{}, md.RelyingParty.Contacts...)
	sort.Strings(contacts)
	return fmt.Sprint(md.RelyingParty.ClientName, contacts)
}

// histMd is what the metadata of a chain in histFed must state.
func histMd(chain [][]byte) string {
	leaf := payloadOf(chain[0])
	out := []string{}
	for _, j := range chain {
		p := payloadOf(j)
		mp, ok := p["metadata_policy"].(M)
		if !ok {
			continue
		}
		for _, a := range mp["openid_relying_party"].(M)["contacts"].(M)["add"].([]any) {
			out = append(out, fmt.Sprint(a))
		}
	}
	sort.Strings(out)
	return fmt.Sprint(leaf["metadata"].(M)["openid_relying_party"].(M)["client_name"], out)
}

// exploreResolverPairs: resolvers that differ in anchors, pinned keys, entity types or starting entity follow each other; each gets
// what it would get with an empty cache.
func exploreResolverPairs(x *X, n int) {
	type variant struct {
		start string
		as    []Anchor
		typs  []string
	}
	evil := []string{"T1!evil"}
	anchors := [][]Anchor{
		{{"T1", nil}}, {{"T1", []string{"T1"}}}, {{"T1", evil}}, {{"T1", []string{"T1", "T1!evil"}}}, {{"T2", nil}},
		{{"T1", nil}, {"T2", nil}}, {{"T2", nil}, {"T1", nil}}, {{"T1", evil}, {"T2", nil}}, {{"T2", nil}, {"T1", evil}},
		{{"T1", []string{"T1"}}, {"T2", evil}}, {{"T1", nil}, {"T2", evil}}, {{"T1", evil}, {"T2", evil}}, {{"I2", nil}}, {{"I2", nil}, {"T1", nil}},
	}
	types := [][]string{
		nil, {"openid_relying_party"}, {"federation_entity"}, {"openid_provider"}, {"openid_relying_party", "federation_entity"},
		{"federation_entity", "openid_relying_party"},
	}
	starts := []string{"L", "I2"}
	if !x.Thorough() {
		types = types[:4]
	}
	var vs []variant
	for _, s := range starts {
		for _, a := range anchors {
			for _, t := range types {
				vs = append(vs, variant{s, a, t})
			}
		}
	}
	f := histFed()
	answer := func(v variant, stepwise bool) (out []string) {
		tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(v.as), StartingEntity: f.ID(v.start), Types: v.typs}
		var cs oidfed.TrustChains
		if stepwise {
			tr.Resolve()
			tr.VerifySignatures()
			cs = tr.Chains()
		} else {
			cs = tr.ResolveToValidChains()
		}
		for _, ch := range cs {
			md, err := ch.Metadata()
			out = append(out, descChain(ch)+" "+jsonOf(md)+fmt.Sprint(err))
		}
		sort.Strings(out)
		return
	}
	cold := map[int][]string{}
	x.ExploreB(
		"resolvers that differ", 0, func(c *C) {
			var seq []int
			for i := range n {
				if seq = append(seq, c.Choose(len(vs), fmt.Sprint("resolver ", i))); i > 0 && vs[seq[i]].start != vs[seq[0]].start {
					c.Discard()
				}
			}
			unverified := c.Choose(2, "first one does not verify") == 1
			c.Commit()
			defer noRefresh()()
			net := newNet()
			f.install(net)
			for _, i := range seq {
				if _, ok := cold[i]; ok {
					continue
				}
				newMemCache()
				cold[i] = answer(vs[i], false)
				want := len(f.refChains(vs[i].start, vs[i].as, time.Now(), refOpts{}))
				if len(cold[i]) != want {
					c.Fail("%v gets %d chains, should be %d", vs[i], len(cold[i]), want)
					return
				}
			}
			newMemCache()
			for j, i := range seq {
				v := vs[i]
				if j == 0 && unverified {
					tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(v.as), StartingEntity: f.ID(v.start), Types: v.typs}
					tr.Resolve()
					tr.Chains()
					continue
				}
				for _, stepwise := range []bool{j%2 == 1, false} {
					if got := answer(v, stepwise); jsonOf(got) != jsonOf(cold[i]) {
						c.Fail("after %v, %v gets %v; with an empty cache %v", vs[seq[0]], v, got, cold[i])
						return
					}
				}
				c.Step("resolve", seq[:j+1], unverified)
			}
			c.Outcome(fmt.Sprint(len(cold[seq[len(seq)-1]]), " chains"))
		},
	)
}

type histResolver struct {
	name string
	as   []Anchor
	typs []string
}

func init() {
	registry["C05"] = func(x *X) {
		rs := []histResolver{
			{"T1", []Anchor{{"T1", nil}}, nil},
			{"T1 pinned", []Anchor{{"T1", []string{"T1"}}}, nil},
			{"T1 pinned to other keys", []Anchor{{"T1", []string{"T1!evil"}}}, nil},
			{"T1,T2", []Anchor{{"T1", nil}, {"T2", nil}}, nil},
			{"T1 typed", []Anchor{{"T1", nil}}, []string{"openid_relying_party"}},
		}
		const (
			opStep = iota + 100
			opAdv1
			opAdv3
			opAdv13
			opOff
			opOffTop
			opOn
			opEvil
			opReissue
			opRekey
			opReuse
		)
		ops := []int{0, 1, 2, 3, 4, opStep, opAdv1, opAdv3, opAdv13, opOff, opOffTop, opOn, opEvil, opReissue, opRekey, opReuse}
		opName := map[int]string{
			opStep: "Resolve+Chains without verification", opAdv1: "+1h", opAdv3: "+3h", opAdv13: "+13h",
			opOff: "I1 goes offline", opOffTop: "T1 goes offline", opOn: "all online", opEvil: "someone else answers for T1 with own keys",
			opReissue: "all statements reissued", opRekey: "L changes keys", opReuse: "same resolver object again",
		}
		exploreResolverPairs(x, 2)
		depth := Pick(x, 4, 5)
		x.ExploreB(
			"histories", 0, func(c *C) {
				seq := make([]int, 0, depth)
				resolves := 0
				for i := 0; i < depth; i++ {
					o := ops[c.Choose(len(ops), fmt.Sprintf("op%d", i))]
					seq = append(seq, o)
					if o < 100 || o == opReuse {
						resolves++
					}
				}
				if seq[depth-1] >= 100 && seq[depth-1] != opReuse {
					c.Discard() // a history ends with something to judge
				}
				c.Commit()
				defer noRefresh()()
				newMemCache()
				n := newNet()
				f := histFed()
				f.install(n)
				view := &refView{f: f, now: time.Now, ecs: map[string]*viewEntry{}, sss: map[[2]string]*viewEntry{}}
				var last *oidfed.TrustResolver
				lastR := 0
				var held oidfed.TrustChains
				for i, o := range seq {
					what := opName[o]
					off := time.Since(t0)
					switch {
					case o < 100 || o == opReuse:
						if o == opReuse {
							if last == nil {
								c.Discard()
							}
							o = lastR
						} else {
							last = &oidfed.TrustResolver{
								TrustAnchors: f.libAnchors(rs[o].as), StartingEntity: f.ID("L"), Types: rs[o].typs,
							}
							lastR = o
						}
						r := rs[o]
						what = "resolve with " + r.name
						vf := view.snapshot("L", r.as)
						want := vf.refChains("L", r.as, time.Now(), refOpts{})
						live := f.refChains("L", r.as, time.Now(), refOpts{})
						got := last.ResolveToValidChains()
						if !judgeCached(c, f, "L", r.as, got, want, live, fmt.Sprintf("op %d (%s)", i, what)) {
							return
						}
						for _, g := range got {
							md, err := g.Metadata()
							if err != nil || md == nil {
								c.Fail("op %d (%s): no metadata for a valid chain: %v", i, what, err)
								return
							}
							if md.RelyingParty == nil || (md.FederationEntity == nil) != (r.typs != nil) {
								c.Fail("op %d (%s): metadata of the wrong entity types: %s", i, what, jsonOf(md))
								return
							}
							if has, wantMd := rpMd(md), histMd(rawOf(g)); has != wantMd {
								c.Fail("op %d (%s): the metadata of %s states %s, not %s", i, what, descChain(g), has, wantMd)
								return
							}
						}
						held = append(held, got...)
						what += " -> " + leafChains(got)
						c.Outcome(fmt.Sprintf("%d chains (view %d, live %d)", len(got), len(want), len(live)))
					case o == opStep:
						tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(rs[0].as), StartingEntity: f.ID("L")}
						view.snapshot("L", rs[0].as)
						tr.Resolve()
						tr.Chains()
					case o == opAdv1:
						time.Sleep(time.Hour)
					case o == opAdv3:
						time.Sleep(3 * time.Hour)
					case o == opAdv13:
						time.Sleep(13 * time.Hour)
					case o == opOff:
						f.EC["I1"].Miss = true
						f.SS[[2]string{"I1", "L"}].Miss = true
					case o == opOffTop, o == opOn:
						f.EC["T1"].Miss = o == opOffTop
						f.SS[[2]string{"T1", "I1"}].Miss = o == opOffTop
						f.SS[[2]string{"T1", "I2"}].Miss = o == opOffTop
						if o == opOn {
							f.EC["I1"].Miss = false
							f.SS[[2]string{"I1", "L"}].Miss = false
						}
					case o == opEvil:
						f.EC["T1"].Key, f.EC["T1"].Keys = "T1!evil", []string{"T1!evil"}
						for k, s := range f.SS {
							if k[0] == "T1" {
								s.Key = "T1!evil"
							}
						}
					case o == opReissue:
						for n, s := range histFed().EC {
							f.EC[n].Iat, f.EC[n].Exp = off, off+s.Exp
						}
						for k, s := range histFed().SS {
							f.SS[k].Iat, f.SS[k].Exp = off, off+s.Exp
						}
						histIssue(f, fmt.Sprint(" issue ", i))
					case o == opRekey:
						f.EC["L"].Key, f.EC["L"].Keys = "L!new", []string{"L!new"}
						for k, s := range f.SS {
							if k[1] == "L" {
								s.Keys = []string{"L!new"}
							}
						}
					}
					c.Step(what, what, off, seq[:i+1])
				}
				for _, g := range held {
					if md, err := g.Metadata(); err != nil || rpMd(md) != histMd(rawOf(g)) {
						c.Fail("at the end the metadata of %s, held since an earlier answer, is %s (%v)", descChain(g), jsonOf(md), err)
						return
					}
				}
			},
		)
	}

	registry["C04"] = func(x *X) {
		// every statement's validity window x points in time, with warm caches
		wins := [][2]time.Duration{
			{-time.Hour, 24 * time.Hour}, {-time.Hour, time.Hour}, {-time.Hour, 2 * time.Hour},
			{30 * time.Minute, 24 * time.Hour}, {-time.Hour, 20 * time.Second}, {-time.Hour, -20 * time.Second},
			{20 * time.Second, 24 * time.Hour}, {90 * time.Minute, 3 * time.Hour},
		}
		gaps := []time.Duration{0, 30 * time.Second, 40 * time.Minute, 100 * time.Minute, 4 * time.Hour}
		x.ExploreB(
			"validity windows", Pick(x, 3, 4), func(c *C) {
				topo := Of(c, "topology", 0, 1, 2)
				hints := []map[string][]string{
					{"L": {"T1"}, "T1": nil}, {"L": {"I1"}, "I1": {"T1"}, "T1": nil},
					{"L": {"I1", "T1"}, "I1": {"T1"}, "T1": nil},
				}[topo]
				f := mkFed(hints)
				names := []string{"L", "T1"}
				if topo > 0 {
					names = []string{"L", "I1", "T1"}
				}
				for _, n := range names {
					w := DevOf(c, "EC("+n+")", wins...)
					f.EC[n].Iat, f.EC[n].Exp = w[0], w[1]
				}
				for _, k := range [][2]string{{"T1", "L"}, {"I1", "L"}, {"T1", "I1"}} {
					if s := f.SS[k]; s != nil {
						w := DevOf(c, "SS("+k[0]+"->"+k[1]+")", wins...)
						s.Iat, s.Exp = w[0], w[1]
					}
				}
				gap := Of(c, "wait", gaps...)
				c.Commit()
				defer noRefresh()()
				newMemCache()
				n := newNet()
				f.install(n)
				view := &refView{f: f, now: time.Now, ecs: map[string]*viewEntry{}, sss: map[[2]string]*viewEntry{}}
				as := []Anchor{{"T1", nil}}
				for i := 0; i < 3; i++ {
					now := time.Now()
					live := f.refChains("L", as, now, refOpts{})
					want := view.snapshot("L", as).refChains("L", as, now, refOpts{})
					tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
					got := tr.ResolveToValidChains()
					if !judgeCached(c, f, "L", as, got, want, live, fmt.Sprintf("at +%v", now.Sub(t0))) {
						return
					}
					for _, g := range got {
						// the chain's own expiry is that of its first statement to expire
						minExp := 1e18
						for _, j := range rawOf(g) {
							if e, _ := payloadOf(j)["exp"].(float64); e < minExp {
								minExp = e
							}
						}
						if e := g.ExpiresAt(); float64(e.Unix()) != minExp {
							c.Fail("ExpiresAt of %s is %v, the earliest statement expires at %v", descChain(g), e.Unix(), minExp)
							return
						}
					}
					md, err := oidfed.LocalMetadataResolver{}.Resolve(
						apimodel.ResolveRequest{Subject: f.ID("L"), TrustAnchor: []string{f.ID("T1")}},
					)
					if (err == nil && md != nil) != (len(got) > 0) {
						c.Fail("at +%v: metadata resolution err=%v but %d valid chains", now.Sub(t0), err, len(got))
						return
					}
					ok, _ := oidfed.LocalMetadataResolver{}.ResolvePossible(
						apimodel.ResolveRequest{Subject: f.ID("L"), TrustAnchor: []string{f.ID("T1")}},
					)
					if ok != (len(got) > 0) {
						c.Fail("at +%v: ResolvePossible=%v but %d valid chains", now.Sub(t0), ok, len(got))
						return
					}
					// single statements, from the cache or from the entity
					for _, n := range names {
						s, err := oidfed.GetEntityConfiguration(f.ID(n))
						if err == nil && !timeOK(M{"iat": float64(s.IssuedAt.Unix()), "exp": float64(s.ExpiresAt.Unix())}, now) {
							c.Fail("at +%v: the configuration of %s that was returned is valid from %v to %v", now.Sub(t0), n, s.IssuedAt.Sub(t0), s.ExpiresAt.Sub(t0))
							return
						}
					}
					for _, k := range sortedSS(f) {
						s, err := oidfed.FetchEntityStatement(f.ID(k[0])+"/fetch", f.ID(k[1]), f.ID(k[0]))
						if err == nil && !timeOK(M{"iat": float64(s.IssuedAt.Unix()), "exp": float64(s.ExpiresAt.Unix())}, now) {
							c.Fail("at +%v: the statement of %s about %s that was returned is valid from %v to %v", now.Sub(t0), k[0], k[1], s.IssuedAt.Sub(t0), s.ExpiresAt.Sub(t0))
							return
						}
					}
					c.Step(fmt.Sprintf("at +%v: %s", now.Sub(t0), leafChains(got)), c.labels, i)
					c.Outcome(fmt.Sprintf("%d chains in round %d", len(got), i))
					time.Sleep(gap)
				}
			},
		)
	}
}
