package zzverif

import (
	"fmt"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
)

// ---- C21: filters and orderings ------------------------------------------------

func init() {
	type chainAlt struct {
		n      int
		anchor string
	}
	alts := []chainAlt{
		{3, "https://a"}, {4, "https://a"}, {5, "https://a"}, {6, "https://b"}, {3, "https://b"}, {5, "https://b"},
		{1, "https://a"},
	}
	mkChain := func(a chainAlt, id int) oidfed.TrustChain {
		var ch oidfed.TrustChain
		for i := 0; i < a.n; i++ {
			iss := fmt.Sprintf("https://i%d", i)
			if i >= a.n-2 {
				iss = a.anchor
			}
			ch = append(
				ch, &oidfed.EntityStatement{
					EntityStatementPayload: oidfed.EntityStatementPayload{Issuer: iss, Subject: fmt.Sprintf("chain%d", id)},
				},
			)
		}
		if a.n == 1 {
			ch[0].Issuer = a.anchor
		}
		return ch
	}
	pathLen := func(ch oidfed.TrustChain) int {
		if len(ch) < 3 {
			return 0
		}
		return len(ch) - 3
	}
	idsOf := func(cs oidfed.TrustChains) string {
		var s []string
		for _, ch := range cs {
			if len(ch) == 0 {
				s = append(s, "empty")
				continue
			}
			s = append(s, ch[0].Subject)
		}
		return strings.Join(s, ",")
	}
	type filt struct {
		name string
		f    oidfed.TrustChainsFilter
		keep func(ch oidfed.TrustChain, all oidfed.TrustChains) bool
	}
	filts := []filt{
		{"anchor a", oidfed.TrustChainsFilterTrustAnchor("https://a"), func(ch oidfed.TrustChain, _ oidfed.TrustChains) bool {
			return ch[len(ch)-1].Issuer == "https://a"
		}},
		{"anchor b", oidfed.TrustChainsFilterTrustAnchor("https://b"), func(ch oidfed.TrustChain, _ oidfed.TrustChains) bool {
			return ch[len(ch)-1].Issuer == "https://b"
		}},
		{"anchor other", oidfed.TrustChainsFilterTrustAnchor("https://c"), func(ch oidfed.TrustChain, _ oidfed.TrustChains) bool {
			return false
		}},
		{"shortest", oidfed.TrustChainsFilterMinPathLength, func(ch oidfed.TrustChain, all oidfed.TrustChains) bool {
			for _, o := range all {
				if pathLen(o) < pathLen(ch) {
					return false
				}
			}
			return true
		}},
		{"odd", oidfed.NewTrustChainsFilterFromCheckerFnc(func(ch oidfed.TrustChain) bool { return len(ch)%2 == 1 }), func(ch oidfed.TrustChain, _ oidfed.TrustChains) bool {
			return len(ch)%2 == 1
		}},
	}
	for m := -1; m <= 3; m++ {
		m := m
		filts = append(
			filts, filt{
				fmt.Sprintf("max %d", m), oidfed.TrustChainsFilterMaxPathLength(m),
				func(ch oidfed.TrustChain, _ oidfed.TrustChains) bool { return pathLen(ch) <= m },
			},
		)
	}
	registry["C21"] = func(x *X) {
		x.Explore(
			"filters", 0, func(c *C) {
				n := c.Choose(Pick(x, 6, 7), "chains")
				var cs oidfed.TrustChains
				for i := 0; i < n; i++ {
					cs = append(cs, mkChain(Of(c, fmt.Sprintf("chain%d", i), alts...), i))
				}
				c.Commit()
				before := idsOf(cs)
				for i, f1 := range filts {
					for j := -1; j < len(filts); j++ {
						fs := []filt{f1}
						if j >= 0 {
							fs = append(fs, filts[j])
						}
						var lf []oidfed.TrustChainsFilter
						want := append(oidfed.TrustChains{}, cs...)
						name := ""
						for _, f := range fs {
							lf = append(lf, f.f)
							var next oidfed.TrustChains
							for _, ch := range want {
								if f.keep(ch, want) {
									next = append(next, ch)
								}
							}
							want = next
							name += f.name + ";"
						}
						got := cs.Filter(lf...)
						c.Step("filter "+name, before, i, j)
						if idsOf(got) != idsOf(want) {
							c.Fail("filter %s on %s (%s): got %q, want %q", name, before, strings.Join(c.labels, " "), idsOf(got), idsOf(want))
							return
						}
						if idsOf(cs) != before {
							c.Fail("filter %s changed the list it filters: %q, was %q", name, idsOf(cs), before)
							return
						}
						c.Outcome(fmt.Sprintf("%d kept", len(got)))
					}
				}
				if g := cs.Filter(); idsOf(g) != before {
					c.Fail("no filter: got %q, want %q", idsOf(g), before)
				}
			},
		)
		x.Explore(
			"orderings", 0, func(c *C) {
				n := c.Choose(Pick(x, 9, 10)+3, "chains")
				period := n
				if big := n - Pick(x, 9, 10); big >= 0 {
					n, period = []int{13, 30, 64}[big], 5
				}
				scores := map[string]int{}
				var vs []int
				var cs oidfed.TrustChains
				for i := 0; i < n; i++ {
					a := alts[i%len(alts)]
					ch := mkChain(a, i)
					if i < period {
						vs = append(vs, []int{-3, 0, 1, 1000000}[c.Choose(4, "score")])
					}
					scores[ch[0].Subject] = vs[i%period]
					if i >= period {
						scores[ch[0].Subject] -= i % 7
					}
					cs = append(cs, ch)
				}
				c.Commit()
				before := idsOf(cs)
				for _, desc := range []bool{false, true} {
					for _, path := range []bool{false, true} {
						sc := func(ch oidfed.TrustChain) int { return scores[ch[0].Subject] }
						fn := oidfed.TrustChainScoringFnc(sc)
						if path {
							sc, fn = pathLen, oidfed.TrustChainScoringPathLen
						}
						in := append(oidfed.TrustChains{}, cs...)
						var got oidfed.TrustChains
						if desc {
							got = in.SortDesc(fn)
						} else {
							got = in.SortAsc(fn)
						}
						c.Step("sort", before, desc, path, c.labels)
						a, b := strings.Split(idsOf(got), ","), strings.Split(before, ",")
						sort.Strings(a)
						sort.Strings(b)
						if strings.Join(a, ",") != strings.Join(b, ",") {
							c.Fail("sorting %s gives other chains: %s", before, idsOf(got))
							return
						}
						for i := 1; i < len(got); i++ {
							x, y := sc(got[i-1]), sc(got[i])
							if (desc && x < y) || (!desc && x > y) {
								c.Fail("sorting %s (descending %v, scores %v): %s is not in order", before, desc, scores, idsOf(got))
								return
							}
						}
						c.Outcome(fmt.Sprintf("%d sorted", len(got)))
					}
				}
			},
		)
	}
}

// ---- C09: evaluation changes nothing --------------------------------------------

// noCache stores nothing, so that everything is computed again.
type noCache struct{}

func (noCache) Get(string, any) (bool, error)        { return false, nil }
func (noCache) Set(string, any, time.Duration) error { return nil }

func snapStmts(cs oidfed.TrustChains) string {
	var sb strings.Builder
	seen := map[*oidfed.EntityStatement]bool{}
	for _, ch := range cs {
		for _, s := range ch {
			if seen[s] {
				continue
			}
			seen[s] = true
			sb.WriteString(jsonOf(s.EntityStatementPayload))
		}
	}
	return sb.String()
}

func init() {
	registry["C09"] = func(x *X) {
		ent := []any{
			absent, M{"add": l("a", "b", "c")}, M{"add": l("d")}, M{"superset_of": l("a", "b", "c")}, M{"subset_of": l("a", "b", "c", "d", "e")},
			M{"subset_of": l("e", "d", "a")}, M{"value": l("a", "b", "c")}, M{"default": l("x", "y", "z")}, M{"essential": true}, M{"add": l("e")},
		}
		cas := []carrier{listCarriers[0], listCarriers[1], listCarriers[2], listCarriers[3]}
		run := func(cas []carrier, ent []any) func(c *C) {
			return func(c *C) {
				ca := cas[c.Choose(len(cas), "carrier")]
				f := mkFed(
					map[string][]string{
						"L": {"I1", "I2"}, "I1": {"T1", "T2", "I2"}, "I2": {"T1"}, "T1": nil, "T2": nil,
					},
				)
				v := DevOf(c, "metadata", any(l("a", "b", "c")), any(absent), any(l()), any(l("e")))
				inner := M{"x_other": "kept"}
				if v != any(absent) {
					inner[ca.param] = v
					if ca.scope {
						inner[ca.param] = joinStrings(v)
					}
				}
				f.EC["L"].Md = M{ca.typ: inner}
				pol := map[[2]string]M{}
				for _, k := range sortedSS(f) {
					if e := DevOf(c, k[0]+"->"+k[1], ent...); e != any(absent) {
						pol[k] = e.(M)
						f.SS[k].Claims = M{"metadata_policy": M{ca.typ: M{ca.param: e}}}
					}
				}
				c.Commit()
				defer noRefresh()()
				cache.SetCache(noCache{})
				f.install(newNet())
				as := []Anchor{{Name: "T1"}, {Name: "T2"}}
				tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
				chains := tr.ResolveToValidChainsWithoutVerifyingMetadata()
				if len(chains) != 4 {
					c.Fail("%d chains, expected 4", len(chains))
					return
				}
				byID := map[string]string{}
				for n := range f.EC {
					byID[f.ID(n)] = n
				}
				snap := snapStmts(chains)
				var held []*oidfed.Metadata
				var heldAs, heldFrom []string
				check := func(i int, when string) bool {
					ch := chains[i]
					var es []M
					for _, s := range ch[1 : len(ch)-1] {
						if e := pol[[2]string{byID[s.Issuer], byID[s.Subject]}]; e != nil {
							es = append(es, e)
						}
					}
					e, err := refMergeEntry(es...)
					var wv any
					wp := false
					if err == nil {
						if v == any(absent) {
							wv, wp, err = refApply(nil, false, e)
						} else {
							wv, wp, err = refApply(v, true, e)
						}
					}
					md, gerr := ch.Metadata()
					if gerr == nil {
						held, heldAs, heldFrom = append(held, md), append(heldAs, jsonOf(md)), append(heldFrom, descChain(ch)+", "+when)
					}
					for i, m := range held {
						if j := jsonOf(m); j != heldAs[i] {
							c.Fail("the metadata of %s changed from %s to %s in evaluating %s (%s)", heldFrom[i], heldAs[i], j, descChain(ch), when)
							return false
						}
					}
					c.Step("evaluate "+descChain(ch), when, i, c.labels)
					if (err != nil) != (gerr != nil) {
						c.Fail("%s: chain %s: error %v, should be refused: %v", when, descChain(ch), gerr, err != nil)
						return false
					}
					if gerr == nil {
						gv, gp := ca.read(md)
						if !sameValue(gv, gp, wv, wp) {
							c.Fail("%s: chain %s gives %s, should be %s", when, descChain(ch), jsonOf(gv), jsonOf(wv))
							return false
						}
						c.Outcome("evaluated")
					} else {
						c.Outcome("refused")
					}
					if s := snapStmts(chains); s != snap {
						c.Fail("%s: evaluating chain %s changed the statements:\n%s\nbefore:\n%s", when, descChain(ch), s, snap)
						return false
					}
					return true
				}
				for _, order := range [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {2, 0, 0}} {
					for n, i := range order {
						if !check(i, fmt.Sprintf("order %v, evaluation %d", order, n)) {
							return
						}
					}
				}
				before := leafChains(chains)
				sub := chains.Filter(oidfed.TrustChainsFilterTrustAnchor(f.ID("T1")), oidfed.TrustChainsFilterValidMetadata)
				cp := append(oidfed.TrustChains{}, chains...)
				cp.SortAsc(oidfed.TrustChainScoringPathLen)
				cp.SortDesc(oidfed.TrustChainScoringPathLen)
				chains.Filter(oidfed.TrustChainsFilterMinPathLength)
				if leafChains(chains) != before || snapStmts(chains) != snap {
					c.Fail("filtering or sorting changed the chains or statements: %s, was %s", leafChains(chains), before)
					return
				}
				_ = sub
				for i := range chains {
					if !check(i, "after filtering and sorting") {
						return
					}
				}
			}
		}
		x.ExploreB("shared statements", 2, run(cas, ent))
		x.ExploreB("more policies", Pick(x, 3, 5), run(cas[:2], []any{ent[0], ent[1], ent[2], ent[3], ent[4], ent[9]}))
	}
}
