package zzverif

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
)

// Anchor is a configured trust anchor: Pin nil means no pinned keys.
type Anchor struct {
	Name string
	Pin  []string
}

func (f *Fed) libAnchors(as []Anchor) oidfed.TrustAnchors {
	var out oidfed.TrustAnchors
	for _, a := range as {
		ta := oidfed.TrustAnchor{EntityID: f.ID(a.Name)}
		if a.Pin != nil {
			ta.JWKS = libJWKS(a.Pin...)
		}
		out = append(out, ta)
	}
	return out
}

// ---- reference model of trust chain resolution ------------------------------

type refStmt struct {
	jwt []byte
	p   M
}

func timeOK(p M, now time.Time) bool {
	iat, _ := p["iat"].(float64)
	exp, hasExp := p["exp"].(float64)
	if float64(now.Unix()) < iat {
		return false
	}
	return !hasExp || float64(now.Unix()) <= exp
}

// read returns a statement that may be used at all: served, of the right type,
// about the right entities, and valid now.
func (f *Fed) read(s *Stmt, iss, sub string, now time.Time) *refStmt {
	if s == nil || s.Miss || s.Typ != "" || s.Raw != nil {
		return nil
	}
	j := s.JWT()
	p := payloadOf(j)
	if p == nil || p["iss"] != f.ID(iss) || p["sub"] != f.ID(sub) || !timeOK(p, now) {
		return nil
	}
	return &refStmt{j, p}
}

func fetchEndpoint(p M) string {
	md, _ := p["metadata"].(map[string]any)
	fe, _ := md["federation_entity"].(map[string]any)
	s, _ := fe["federation_fetch_endpoint"].(string)
	return s
}

// refOpts switches parts of the reference.
type refOpts struct {
	constraint func(path []string, depth int, ss M) bool
}

// refChains computes all valid chains, as lists of JWTs.
func (f *Fed) refChains(start string, anchors []Anchor, now time.Time, o refOpts) [][][]byte {
	byID := map[string]string{}
	for n := range f.EC {
		byID[f.ID(n)] = n
	}
	anchor := map[string]*Anchor{}
	for i := range anchors {
		if anchor[anchors[i].Name] == nil {
			anchor[anchors[i].Name] = &anchors[i]
		}
	}
	taKeys := func(a *Anchor, ec *refStmt) any {
		if a.Pin != nil {
			return generic(jwksOf(a.Pin...))
		}
		return ec.p["jwks"]
	}
	sEC := f.read(f.EC[start], start, start, now)
	if sEC == nil {
		return nil
	}
	if a := anchor[start]; a != nil {
		if _, ok := verifyJWT(sEC.jwt, taKeys(a, sEC)); ok {
			return [][][]byte{{sEC.jwt}}
		}
		return nil
	}
	var out [][][]byte
	// path: entities from the start upwards; ecs and sss along it
	var rec func(path []string, ecs []*refStmt, sss []*refStmt)
	rec = func(path []string, ecs []*refStmt, sss []*refStmt) {
		cur := path[len(path)-1]
		if a := anchor[cur]; a != nil {
			// verify from the top
			keys := taKeys(a, ecs[len(ecs)-1])
			for i := len(ecs) - 1; i >= 0; i-- {
				if _, ok := verifyJWT(ecs[i].jwt, keys); !ok {
					return
				}
				if i > 0 {
					if _, ok := verifyJWT(sss[i-1].jwt, keys); !ok {
						return
					}
					keys = sss[i-1].p["jwks"]
				}
			}
			ch := [][]byte{ecs[0].jwt}
			for _, s := range sss {
				ch = append(ch, s.jwt)
			}
			out = append(out, append(ch, ecs[len(ecs)-1].jwt))
			return
		}
		hints, _ := ecs[len(ecs)-1].p["authority_hints"].([]any)
		done := map[string]bool{}
		for _, h := range hints {
			hs, _ := h.(string)
			n, ok := byID[hs]
			if !ok || done[n] {
				continue
			}
			done[n] = true
			loop := false
			for _, p := range path {
				if p == n {
					loop = true
				}
			}
			if loop {
				continue
			}
			ec := f.read(f.EC[n], n, n, now)
			if ec == nil || fetchEndpoint(ec.p) == "" {
				continue
			}
			ss := f.read(f.SS[[2]string{n, cur}], n, cur, now)
			if ss == nil {
				continue
			}
			if o.constraint != nil && !o.constraint(path, len(path)-1, ss.p) {
				continue
			}
			rec(
				append(append([]string{}, path...), n), append(append([]*refStmt{}, ecs...), ec),
				append(append([]*refStmt{}, sss...), ss),
			)
		}
	}
	rec([]string{start}, []*refStmt{sEC}, nil)
	return out
}

// auditChain checks a returned chain from its raw JWTs alone: linkage, time
// and every signature. It returns "" for a sound chain.
func auditChain(msgs [][]byte, start string, anchors oidfed.TrustAnchors, pins map[string]any, now time.Time) string {
	n := len(msgs)
	if n == 0 {
		return "empty chain"
	}
	ps := make([]M, n)
	for i, m := range msgs {
		ps[i] = payloadOf(m)
		if ps[i] == nil {
			return fmt.Sprintf("statement %d is not a JWT", i)
		}
		if !timeOK(ps[i], now) {
			return fmt.Sprintf("statement %d (%v->%v) is not valid at this time", i, ps[i]["iss"], ps[i]["sub"])
		}
	}
	if ps[0]["iss"] != start || ps[0]["sub"] != start {
		return fmt.Sprintf("first statement is not the entity configuration of %s", start)
	}
	last := ps[n-1]
	id, _ := last["iss"].(string)
	if last["iss"] != last["sub"] {
		return "last statement is not an entity configuration"
	}
	known := false
	for _, a := range anchors {
		known = known || a.EntityID == id
	}
	if !known {
		return fmt.Sprintf("chain ends at %s, which is no configured trust anchor", id)
	}
	keys, ok := pins[id]
	if !ok {
		keys = last["jwks"]
	}
	if n == 2 {
		return "chain of two statements"
	}
	for i := n - 1; i >= 0; i-- {
		if _, ok := verifyJWT(msgs[i], keys); !ok {
			return fmt.Sprintf(
				"statement %d (%v->%v) does not verify with the keys its superior vouches for", i, ps[i]["iss"],
				ps[i]["sub"],
			)
		}
		if i > 0 && i < n-1 {
			keys = ps[i]["jwks"]
			// linkage: issuer of i-1 is the subject of i
			if ps[i-1]["iss"] != ps[i]["sub"] {
				return fmt.Sprintf("statement %d is about %v but the next one down is issued by %v", i, ps[i]["sub"], ps[i-1]["iss"])
			}
		}
		if i == n-1 && n > 1 && ps[n-2]["iss"] != id {
			return "the statement below the trust anchor is not issued by it"
		}
	}
	return ""
}

func rawOf(c oidfed.TrustChain) [][]byte {
	var out [][]byte
	for _, m := range c.Messages() {
		if m == nil {
			out = append(out, nil)
			continue
		}
		out = append(out, m.RawJWT)
	}
	return out
}

func pinsOf(f *Fed, as []Anchor) map[string]any {
	m := map[string]any{}
	for _, a := range as {
		if a.Pin != nil {
			if _, ok := m[f.ID(a.Name)]; !ok {
				m[f.ID(a.Name)] = generic(jwksOf(a.Pin...))
			}
		}
	}
	return m
}

// compareChains judges the library's answer. mode: "sound" or "complete".
func compareChains(c *C, mode string, f *Fed, start string, as []Anchor, got oidfed.TrustChains, want [][][]byte, now time.Time) {
	wantSet := map[string]bool{}
	for _, w := range want {
		wantSet[chainKeyRaw(w)] = true
	}
	gotSet := map[string]bool{}
	var gd []string
	for _, g := range got {
		gotSet[chainKey(g)] = true
		gd = append(gd, descChain(g))
	}
	sort.Strings(gd)
	if mode == "sound" {
		for _, g := range got {
			if why := auditChain(rawOf(g), f.ID(start), f.libAnchors(as), pinsOf(f, as), now); why != "" {
				c.Fail("accepted chain %s: %s", descChain(g), why)
				return
			}
			if !wantSet[chainKey(g)] {
				c.Fail("accepted chain %s, which passes through an entity that must be rejected", descChain(g))
				return
			}
		}
	} else {
		for _, w := range want {
			if !gotSet[chainKeyRaw(w)] {
				c.Fail("valid chain missing: %s; returned: %s", descRaw(w), strings.Join(gd, " ; "))
				return
			}
		}
		if len(gotSet) != len(got) && len(wantSet) == len(want) && !f.Dup {
			c.Fail("the same chain was returned more than once: %s", strings.Join(gd, " ; "))
		}
	}
	c.Outcome(fmt.Sprintf("%d chains", len(gotSet)))
	c.State(strings.Join(gd, ";"), c.labels)
}

func descRaw(w [][]byte) string {
	s := ""
	for _, j := range w {
		p := payloadOf(j)
		s += fmt.Sprintf("(%s->%s)", shortID(fmt.Sprint(p["iss"])), shortID(fmt.Sprint(p["sub"])))
	}
	return s
}

// subset of alts by bit mask
func bits[T any](mask int, alts []T) []T {
	var out []T
	for i, a := range alts {
		if mask&(1<<i) != 0 {
			out = append(out, a)
		}
	}
	return out
}

func leafMd() M {
	return M{"openid_relying_party": M{"client_name": "x", "redirect_uris": []any{"https://l.example.org/cb"}}}
}

// mkFed builds a fault-free federation from hint lists.
func mkFed(hints map[string][]string) *Fed {
	f := newFed()
	names := make([]string, 0)
	for n := range hints {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		md := f.authorityMd(n)
		if strings.HasPrefix(n, "L") {
			md = M{"openid_relying_party": leafMd()["openid_relying_party"], "federation_entity": f.authorityMd(n)["federation_entity"]}
		}
		f.entity(n, md, hints[n]...)
	}
	for _, n := range names {
		for i, h := range hints[n] {
			f.Dup = f.Dup || slices.Contains(hints[n][:i], h)
			if f.EC[h] != nil {
				f.sub(h, n)
			}
		}
	}
	return f
}

func (f *Fed) sortedSS() (sks [][2]string) {
	for sk := range f.SS {
		sks = append(sks, sk)
	}
	sort.Slice(sks, func(i, j int) bool { return sks[i][0]+sks[i][1] < sks[j][0]+sks[j][1] })
	return
}

// exploreTopologies enumerates all hint graphs over L, I1, I2, T1, T2.
func exploreTopologies(x *X, mode string) {
	x.ExploreB(
		"topologies", 0, func(c *C) {
			th := x.Thorough()
			hints := map[string][]string{}
			lAlts := []string{"I1", "I2", "T1"}
			i2Alts := []string{"T1", "I1", "T2"}
			if th {
				lAlts = []string{"I1", "I2", "T1", "T2"}
				i2Alts = append(i2Alts, "L", "I2")
			}
			hints["L"] = bits(c.Choose(1<<len(lAlts), "hints(L)"), lAlts)
			hints["I1"] = bits(c.Choose(32, "hints(I1)"), []string{"T1", "I2", "T2", "L", "I1"})
			hints["I2"] = bits(c.Choose(1<<len(i2Alts), "hints(I2)"), i2Alts)
			hints["T1"] = [][]string{nil, {"T2"}, {"I1"}}[c.Choose(Pick(x, 2, 3), "hints(T1)")]
			hints["T2"] = nil
			as := Of(
				c, "anchors", []Anchor{{"T1", nil}}, []Anchor{{"T2", nil}, {"T1", []string{"T1"}}},
				[]Anchor{{"T2", []string{"T2"}}},
			)
			c.Commit()
			newMemCache()
			n := newNet()
			f := mkFed(hints)
			f.install(n)
			want := f.refChains("L", as, time.Now(), refOpts{})
			tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
			got := tr.ResolveToValidChains()
			c.Step("resolve L")
			c.x.Trans += int64(len(n.Log))
			compareChains(c, mode, f, "L", as, got, want, time.Now())
			// intermediates as starting points, with statements now in the cache
			for _, s := range []string{"I1", "T1"} {
				want = f.refChains(s, as, time.Now(), refOpts{})
				tr = oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID(s)}
				got = tr.ResolveToValidChains()
				c.Step("resolve " + s)
				compareChains(c, mode, f, s, as, got, want, time.Now())
			}
		},
	)
}

var ecFaults = []string{
	"ok", "miss", "wrongkey", "badsub", "badiss", "expired", "future", "nomd", "evilself", "wrongtyp", "notyp", "garbage", "nohints", "nofed",
}
var ssFaults = []string{
	"ok", "miss", "wrongkey", "badiss", "badsub", "expired", "future", "evilkeys", "nokeys", "wrongtyp", "notyp", "selfsigned",
}

func applyECFault(f *Fed, name, fault string) {
	s := f.EC[name]
	switch fault {
	case "miss":
		s.Miss = true
	case "wrongkey":
		s.Key = name + "!evil"
	case "badsub":
		s.Sub = f.ID("X")
	case "badiss":
		s.Iss = f.ID("X")
	case "expired":
		s.Exp = -time.Minute
	case "future":
		s.Iat = 30 * time.Minute
	case "nomd":
		s.Md = nil
	case "nofed":
		s.Md = leafMd()
	case "evilself":
		s.Key = name + "!evil"
		s.Keys = []string{name + "!evil"}
	case "wrongtyp":
		s.Typ = "trust-mark+jwt"
	case "notyp":
		s.Typ = "-"
	case "garbage":
		s.Raw = []byte("eyJhbGciOiJub25lIn0.e30")
	case "nohints":
		s.Hints = nil
	}
}

func applySSFault(f *Fed, k [2]string, fault string) {
	s := f.SS[k]
	switch fault {
	case "miss":
		s.Miss = true
	case "wrongkey":
		s.Key = k[0] + "!evil"
	case "badiss":
		s.Iss = f.ID("X")
	case "badsub":
		s.Sub = f.ID("X")
	case "expired":
		s.Exp = -time.Minute
	case "future":
		s.Iat = 30 * time.Minute
	case "evilkeys":
		s.Keys = []string{k[1] + "!evil"}
	case "nokeys":
		s.Keys = nil
	case "wrongtyp":
		s.Typ = "JWT"
	case "notyp":
		s.Typ = "-"
	case "selfsigned":
		s.Key = k[1] // signed by the subject itself
	}
}

var faultTopos = []map[string][]string{
	{"L": {"T1"}, "T1": nil},
	{"L": {"I1"}, "I1": {"T1"}, "T1": nil},
	{"L": {"I1"}, "I1": {"I2"}, "I2": {"T1"}, "T1": nil},
	{"L": {"I1", "I2"}, "I1": {"T1"}, "I2": {"T1"}, "T1": nil},
	{"L": {"I1"}, "I1": {"T1", "T2"}, "T1": nil, "T2": nil},
	{"L": {"I1", "I2"}, "I1": {"T1", "I2"}, "I2": {"T1", "T2"}, "T1": nil, "T2": nil},
	{"L": {"I1", "T1"}, "I1": {"T2"}, "T1": {"I1"}, "T2": nil},
}

// exploreFaults enumerates all placements of up to k faults on the statements
// of a set of federations.
func exploreFaults(x *X, mode string, k int) {
	x.ExploreB(
		"faults", k, func(c *C) {
			ti := c.Choose(len(faultTopos), "topology")
			hints := faultTopos[ti]
			f := mkFed(hints)
			pin := Of(c, "pin", "none", "right", "wrong")
			names := make([]string, 0)
			for n := range f.EC {
				names = append(names, n)
			}
			sort.Strings(names)
			sks := f.sortedSS()
			for _, n := range names {
				applyECFault(f, n, DevOf(c, "EC("+n+")", ecFaults...))
			}
			for _, sk := range sks {
				applySSFault(f, sk, DevOf(c, "SS("+sk[0]+"->"+sk[1]+")", ssFaults...))
			}
			c.Commit()
			as := []Anchor{{Name: "T1"}}
			if f.EC["T2"] != nil {
				as = append(as, Anchor{Name: "T2"})
			}
			switch pin {
			case "right":
				as[0].Pin = []string{"T1"}
			case "wrong":
				as[0].Pin = []string{"T1!evil"}
			}
			resolveAll(c, mode, f, as)
		},
	)
}

// resolveAll resolves L and T1 in all ways and compares with the reference.
func resolveAll(c *C, mode string, f *Fed, as []Anchor) {
	newMemCache()
	n := newNet()
	f.install(n)
	now := time.Now()
	want := f.refChains("L", as, now, refOpts{})
	tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
	got := tr.ResolveToValidChains()
	c.Step("resolve L")
	c.x.Trans += int64(len(n.Log))
	compareChains(c, mode, f, "L", as, got, want, now)
	// the stepwise API and a second resolver must agree
	tr2 := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
	tr2.Resolve()
	tr2.VerifySignatures()
	c.Step("resolve stepwise")
	compareChains(c, mode, f, "L", as, tr2.Chains(), want, now)
	// the trust anchor itself as the starting entity
	want = f.refChains("T1", as, now, refOpts{})
	tr = oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("T1")}
	c.Step("resolve T1")
	compareChains(c, mode, f, "T1", as, tr.ResolveToValidChains(), want, now)
}

// exploreDeep enumerates long lines of authorities with additional hints between
// any two of them, one faulty statement, and broad fans of authorities.
func exploreDeep(x *X, mode string) {
	lines := func(name string, from, to, k int) {
		x.ExploreB(
			name, k, func(c *C) {
				n := from + c.Choose(to-from+1, "length")
				line := []string{"L"}
				for i := 1; i < n; i++ {
					line = append(line, fmt.Sprint("I", i))
				}
				line = append(line, "T1")
				hints := map[string][]string{"T1": nil, "T2": nil}
				for i, e := range line[:n] {
					hints[e] = []string{line[i+1]}
				}
				as := Of(c, "anchors", []Anchor{{"T1", nil}}, []Anchor{{"T2", nil}, {"T1", []string{"T1"}}})
				extra := []string{"none"}
				for _, e := range line {
					for _, to := range append(append([]string{}, line...), "T2") {
						extra = append(extra, e+" < "+to, e+" > "+to)
					}
				}
				for i := range k {
					e := strings.Fields(DevOf(c, fmt.Sprint("extra hint ", i), extra...))
					switch {
					case len(e) < 3:
					case e[1] == "<":
						hints[e[0]] = append([]string{e[2]}, hints[e[0]]...)
					default:
						hints[e[0]] = append(hints[e[0]], e[2])
					}
				}
				f := mkFed(hints)
				for _, e := range line {
					applyECFault(f, e, DevOf(c, "EC("+e+")", "ok", "miss", "wrongkey"))
				}
				for _, k := range f.sortedSS() {
					applySSFault(f, k, DevOf(c, "SS("+k[0]+"->"+k[1]+")", "ok", "miss", "wrongkey"))
				}
				c.Commit()
				resolveAll(c, mode, f, as)
			},
		)
	}
	lines("lines", 2, Pick(x, 9, 14), 1)
	lines("short lines", 2, Pick(x, 3, 5), 2)
	x.ExploreB(
		"fans", 0, func(c *C) {
			n := 1 + c.Choose(Pick(x, 5, 6), "authorities")
			hints := map[string][]string{"T1": nil, "T2": nil}
			var kinds []string
			for i := range n {
				e := fmt.Sprint("I", i)
				kinds = append(kinds, Of(c, e, "T1", "no configuration", "forged", "no statement", "T2", "same again"))
				switch kinds[i] {
				case "T2":
					hints[e] = []string{"T2"}
				case "same again":
					if i == 0 {
						c.Discard()
					}
					hints["L"] = append(hints["L"], hints["L"][i-1])
					continue
				default:
					hints[e] = []string{"T1"}
				}
				hints["L"] = append(hints["L"], e)
			}
			as := Of(c, "anchors", []Anchor{{"T1", nil}}, []Anchor{{"T2", nil}, {"T1", []string{"T1"}}})
			c.Commit()
			f := mkFed(hints)
			for i, k := range kinds {
				e := fmt.Sprint("I", i)
				switch k {
				case "no configuration":
					f.EC[e].Miss = true
				case "forged":
					applySSFault(f, [2]string{e, "L"}, "wrongkey")
				case "no statement":
					applySSFault(f, [2]string{e, "L"}, "miss")
				}
			}
			resolveAll(c, mode, f, as)
		},
	)
}

// exploreWide enumerates fans of any width up to a bound, in one or two levels or with many anchors, with some branches broken.
func exploreWide(x *X, mode string) {
	sizes := []int{6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 33}
	if x.Thorough() {
		sizes = append(sizes, 32, 64, 65)
	}
	x.ExploreB(
		"wide fans", Pick(x, 1, 2), func(c *C) {
			n := Of(c, "width", sizes...)
			shape := Of(c, "shape", "authorities", "superiors of the authority", "anchors", "a line below")
			hints := map[string][]string{}
			as := []Anchor{{"T1", nil}}
			low := "L"
			switch shape {
			case "superiors of the authority":
				hints["L"] = []string{"A"}
				low = "A"
			case "a line below":
				hints["L"], hints["A"], hints["B"] = []string{"A"}, []string{"B"}, []string{"C"}
				low = "C"
			}
			hints["T1"] = nil
			for i := range n {
				e := fmt.Sprint("I", i)
				hints[low] = append(hints[low], e)
				if shape != "anchors" {
					hints[e] = []string{"T1"}
					continue
				}
				hints[e] = []string{fmt.Sprint("TA", i)}
				hints[fmt.Sprint("TA", i)] = nil
				as = append(as, Anchor{fmt.Sprint("TA", i), nil})
			}
			f := mkFed(hints)
			for j := range Pick(x, 1, 2) {
				i := Of(c, fmt.Sprint("place ", j), 0, 1, n/2, n-2, n-1)
				e := fmt.Sprint("I", i)
				switch DevOf(c, fmt.Sprint("broken ", j), "nothing", "no configuration", "no statement", "forged") {
				case "no configuration":
					f.EC[e].Miss = true
				case "forged":
					applySSFault(f, [2]string{e, low}, "wrongkey")
				case "no statement":
					applySSFault(f, [2]string{e, low}, "miss")
				}
			}
			c.Commit()
			resolveAll(c, mode, f, as)
		},
	)
}

// exploreKeys gives every entity two keys and enumerates which of them each
// statement is signed with, and which of them each superior and pin vouches for.
func exploreKeys(x *X, mode string, k int) {
	x.ExploreB(
		"keys", k, func(c *C) {
			hints := faultTopos[c.Choose(len(faultTopos), "topology")]
			f := mkFed(hints)
			pin := Of(c, "pin", "none", "1", "2", "12")
			vouched := func(n, which string) (out []string) {
				if strings.Contains(which, "1") {
					out = append(out, n)
				}
				if strings.Contains(which, "2") {
					out = append(out, n+"b")
				}
				return
			}
			for _, n := range keysOf(f.EC) {
				f.EC[n].Keys = vouched(n, DevOf(c, "keys in EC("+n+")", "12", "1", "2"))
				f.EC[n].Key = vouched(n, DevOf(c, "signer of EC("+n+")", "1", "2"))[0]
			}
			sks := f.sortedSS()
			for _, sk := range sks {
				f.SS[sk].Keys = vouched(sk[1], DevOf(c, "keys in SS("+sk[0]+"->"+sk[1]+")", "1", "2", "12"))
				f.SS[sk].Key = vouched(sk[0], DevOf(c, "signer of SS("+sk[0]+"->"+sk[1]+")", "1", "2"))[0]
			}
			c.Commit()
			as := []Anchor{{Name: "T1"}}
			if f.EC["T2"] != nil {
				as = append(as, Anchor{Name: "T2"})
			}
			if pin != "none" {
				as[0].Pin = vouched("T1", pin)
			}
			resolveAll(c, mode, f, as)
		},
	)
}

// explorePinnedUses enumerates the uses that a list of trust anchors with and
// without set keys is put to besides the TrustResolver itself: the provider
// metadata of a leaf and the filter for verified chains, twice in turn over one
// cache, with a true and a forged trust anchor.
func explorePinnedUses(x *X) {
	topos := []map[string][]string{
		{"L": {"T1"}, "T1": nil},
		{"L": {"I"}, "I": {"T1"}, "T1": nil},
		{"L": {"T1", "T2"}, "T1": nil, "T2": nil},
		{"L": {"I"}, "I": {"T1", "T2"}, "T1": nil, "T2": nil},
	}
	pins := [][]string{nil, {"T1"}, {"T1!evil"}, {"T1b", "T1"}}
	x.ExploreB(
		"pinned uses", 0, func(c *C) {
			f := mkFed(topos[c.Choose(len(topos), "topology")])
			md := leafMd()
			md["openid_provider"] = M{"issuer": f.ID("L")}
			f.EC["L"].Md = md
			two := f.EC["T2"] != nil
			if k := Of(c, "T1's configuration", "T1", "T1!evil"); k != "T1" {
				f.EC["T1"].Key, f.EC["T1"].Keys = k, []string{k}
			}
			signer := Of(c, "signer of T1's statements", "T1", "T1!evil")
			for _, sk := range f.sortedSS() {
				if sk[0] == "T1" {
					f.SS[sk].Key = signer
				}
			}
			type use struct {
				as   []Anchor
				leaf bool
			}
			var uses []use
			for range 2 {
				u := use{leaf: c.Choose(2, "filter or leaf") == 1}
				a := Anchor{Name: "T1", Pin: pins[c.Choose(len(pins), "keys set for T1")]}
				u.as = []Anchor{a}
				if two {
					b := Anchor{Name: "T2"}
					switch Of(c, "anchors", "T1", "T1, T2", "T2, T1", "T2", "T2 with T2's keys", "T1, T2 with T1's keys") {
					case "T1, T2":
						u.as = []Anchor{a, b}
					case "T2, T1":
						u.as = []Anchor{b, a}
					case "T2":
						u.as = []Anchor{b}
					case "T2 with T2's keys":
						b.Pin = []string{"T2"}
						u.as = []Anchor{b}
					case "T1, T2 with T1's keys":
						b.Pin = []string{"T1"}
						u.as = []Anchor{a, b}
					}
				}
				uses = append(uses, u)
			}
			c.Commit()
			defer noRefresh()()
			newMemCache()
			n := newNet()
			f.install(n)
			now := time.Now()
			for i, u := range uses {
				want := len(f.refChains("L", u.as, now, refOpts{})) > 0
				var got bool
				var name string
				if u.leaf {
					name = "the provider's metadata is resolved"
					leaf := oidfed.FederationLeaf{}
					leaf.TrustAnchors = f.libAnchors(u.as)
					m, err := leaf.ResolveOPMetadata(f.ID("L"))
					got = err == nil
					if got && (m == nil || m.Issuer != f.ID("L")) {
						c.Fail("use %d: no error, but the metadata %s", i, jsonOf(m))
						return
					}
				} else {
					name = "the filter for verified chains keeps the entity"
					got = oidfed.EntityCollectionFilterVerifiedChains{TrustAnchors: f.libAnchors(u.as)}.Filter(
						&oidfed.CollectedEntity{EntityID: f.ID("L")},
					)
				}
				c.Step("use", i, u.leaf, u.as, got)
				if got != want {
					c.Fail(
						"%s, use %d: %s: %t; with the trust anchors %v the reference says %t",
						strings.Join(c.labels, " "), i, name, got, u.as, want,
					)
					return
				}
				c.Outcome(fmt.Sprint(name, " ", got))
			}
		},
	)
}

func init() {
	registry["C01"] = func(x *X) {
		explorePinnedUses(x)
		exploreFaults(x, "sound", Pick(x, 2, 3))
		exploreKeys(x, "sound", Pick(x, 3, 4))
		exploreTopologies(x, "sound")
		exploreDeep(x, "sound")
		exploreWide(x, "sound")
	}
	registry["C02"] = func(x *X) {
		exploreFaults(x, "complete", Pick(x, 2, 3))
		exploreKeys(x, "complete", Pick(x, 2, 4))
		exploreTopologies(x, "complete")
		exploreDeep(x, "complete")
		exploreWide(x, "complete")
	}
}
