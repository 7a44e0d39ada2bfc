package zzverif

import (
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"
)

// C17: everything at once.

// ccWorld holds what concurrent tasks share.
type ccWorld struct {
	f         *Fed
	n         *Net
	suffix    string
	anchors   oidfed.TrustAnchors // unpinned, shared
	pinned    oidfed.TrustAnchors // pinned, shared
	ta        *oidfed.EntityStatementPayload
	mark      *oidfed.TrustMarkInfo
	marks     oidfed.TrustMarkInfos
	chains    oidfed.TrustChains
	collector oidfed.EntityCollector
	fe        *oidfed.FederationEntity
	issuer    *oidfed.TrustMarkIssuer
	owner     *oidfed.TrustMarkOwner
	rp        *oidfed.FederationLeaf
	stmt      *oidfed.EntityStatement
	policies  oidfed.TrustChain
}

// newCCWorld makes a federation with several chains, policies, constraints and
// entities that must be rejected. The names end with suffix.
func newCCWorld(suffix string) *ccWorld {
	f := newFed()
	f.ID = func(n string) string { return "https://" + strings.ToLower(n) + suffix + ".example.org" }
	ds := joseDelegation(f)
	f.entity("T", f.authorityMd("T"))
	f.entity("U", f.authorityMd("U"))
	f.entity("I", f.authorityMd("I"), "T")
	f.entity("J", f.authorityMd("J"), "T", "U")
	f.entity("K", f.authorityMd("K"), "T") // signs with the wrong key
	f.entity("L", leafMd(), "I", "J", "K")
	f.entity(
		"P", M{"openid_provider": M{
			"issuer": f.ID("P"), "authorization_endpoint": f.ID("P") + "/auth", "token_endpoint": f.ID("P") + "/token", "display_name": "P",
			"scopes_supported": l("openid", "email"),
		}}, "J",
	)
	f.entity("X", M{"federation_entity": M{"organization_name": "X"}}, "I")
	for _, n := range []string{"I", "J", "K", "L", "P", "X"} {
		for _, h := range f.EC[n].Hints {
			for s := range f.EC {
				if f.ID(s) == h {
					f.sub(s, n)
				}
			}
		}
	}
	f.SS[[2]string{"K", "L"}].Key = "K!evil"
	f.SS[[2]string{"T", "I"}].Claims = M{"metadata_policy": M{"openid_relying_party": M{"contacts": M{"default": l("c")}, "x_n": M{"value": "t"}}}}
	f.SS[[2]string{"I", "L"}].Claims = M{"metadata_policy": M{"openid_relying_party": M{"contacts": M{"subset_of": l("c", "d")}}}}
	f.SS[[2]string{"T", "J"}].Claims = M{
		"constraints":     M{"max_path_length": 0},
		"metadata_policy": M{"openid_provider": M{"scopes_supported": M{"subset_of": l("openid")}}},
	}
	mark := markSpec{typ: "trust-mark+jwt", mtype: tmType, iss: "X", sub: "L", key: "X", iat: -time.Hour, exp: dEC, deleg: ds}.jwt(f)
	other := markSpec{typ: "trust-mark+jwt", mtype: tmOther, iss: "K", sub: "L", key: "K", iat: -time.Hour, exp: dEC}.jwt(f)
	infos := []any{
		M{"trust_mark_type": tmType, "trust_mark": string(mark)}, M{"trust_mark_type": tmOther, "trust_mark": string(other)},
	}
	f.EC["L"].Claims = M{"trust_marks": infos}
	f.EC["T"].Claims = M{
		"trust_mark_issuers": M{tmType: l(f.ID("X")), tmOther: l(f.ID("X"))}, "trust_mark_owners": M{tmType: ownerOf(f.ID("W"), "W")},
	}
	w := &ccWorld{f: f, n: newNet(), suffix: suffix}
	f.install(w.n)
	w.anchors = f.libAnchors([]Anchor{{"T", nil}})
	w.pinned = f.libAnchors([]Anchor{{"U", nil}, {"T", []string{"T"}}})
	st, err := oidfed.ParseEntityStatement(f.EC["T"].JWT())
	must(err)
	w.ta = &st.EntityStatementPayload
	w.stmt = st
	must(json.Unmarshal([]byte(jsonOf(infos)), &w.marks))
	w.mark = &oidfed.TrustMarkInfo{TrustMarkType: tmType, TrustMarkJWT: string(mark)}
	w.collector = collectorOf("simple")
	signer := oidfed.NewGeneralJWTSigner(edKey("L"), jwa.EdDSA())
	var md oidfed.Metadata
	must(json.Unmarshal([]byte(jsonOf(leafMd())), &md))
	w.rp, err = oidfed.NewFederationLeaf(
		f.ID("L"), []string{f.ID("I")}, w.anchors, &md, signer.EntityStatementSigner(), 3600, edKey("ro"), jwa.EdDSA(), map[string]any{"x_a": "b"},
	)
	must(err)
	w.fe = &w.rp.FederationEntity
	self := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: tmOther, SelfIssued: true}
	must(json.Unmarshal([]byte(`{"lifetime":600}`), &self.SelfIssuanceSpec))
	must(self.Verify(f.ID("L"), "", signer.TrustMarkSigner()))
	given := &oidfed.EntityConfigurationTrustMarkConfig{JWT: string(mark)}
	must(given.Verify(f.ID("L"), "", signer.TrustMarkSigner()))
	w.fe.TrustMarks = []*oidfed.EntityConfigurationTrustMarkConfig{self, given}
	w.issuer = oidfed.NewTrustMarkIssuer(
		f.ID("X"), oidfed.NewTrustMarkSigner(edKey("X"), jwa.EdDSA()), []oidfed.TrustMarkSpec{
			{TrustMarkType: tmType, LogoURI: "https://logo", Extra: map[string]any{"level": "x"}, IncludeExtraClaimsInInfo: true}, {TrustMarkType: tmOther},
		},
	)
	w.owner = oidfed.NewTrustMarkOwner(
		f.ID("W"), oidfed.NewTrustMarkDelegationSigner(edKey("W"), jwa.EdDSA()), []oidfed.OwnedTrustMark{{ID: tmType, DelegationLifetime: time.Hour, Extra: map[string]any{"e": 1}}},
	)
	return w
}

func joseDelegation(f *Fed) string {
	return string(
		signJWT(
			"W", "trust-mark-delegation+jwt", M{
				"iss": f.ID("W"), "sub": f.ID("X"), "trust_mark_type": tmType, "iat": t0.Add(-time.Hour).Unix(), "exp": t0.Add(dEC).Unix(),
			},
		),
	)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// prime gets chains that tasks share; it fills the cache.
func (w *ccWorld) prime() {
	r := oidfed.TrustResolver{TrustAnchors: w.anchors, StartingEntity: w.f.ID("L")}
	w.chains = r.ResolveToValidChains()
}

func descChains(cs oidfed.TrustChains) string {
	var d []string
	for _, c := range cs {
		d = append(d, descChain(c))
	}
	sort.Strings(d)
	return strings.Join(d, " ; ")
}

func errOr(err error, v any) string {
	if err != nil {
		return "error"
	}
	return jsonOf(v)
}

// plain is a payload without what differs each time.
func plain(jwt []byte, drop ...string) string {
	p := payloadOfSlow(jwt)
	for _, d := range append(drop, "iat", "exp") {
		delete(p, d)
	}
	return jsonOf(p)
}

type ccOp struct {
	name string
	do   func(w *ccWorld) string
	net  bool // uses network or cache
	// heavy ones do much
	heavy bool
}

var ccOps = []ccOp{
	{"chains", func(w *ccWorld) string {
		r := oidfed.TrustResolver{TrustAnchors: w.anchors, StartingEntity: w.f.ID("L")}
		return descChains(r.ResolveToValidChains())
	}, true, true},
	{"chains pinned", func(w *ccWorld) string {
		r := oidfed.TrustResolver{TrustAnchors: w.pinned, StartingEntity: w.f.ID("L")}
		return descChains(r.ResolveToValidChains())
	}, true, true},
	{"chains of an intermediate", func(w *ccWorld) string {
		r := oidfed.TrustResolver{TrustAnchors: w.pinned, StartingEntity: w.f.ID("J")}
		return descChains(r.ResolveToValidChainsWithoutVerifyingMetadata())
	}, true, true},
	{"metadata", func(w *ccWorld) string {
		md, err := oidfed.LocalMetadataResolver{}.Resolve(
			apimodel.ResolveRequest{Subject: w.f.ID("P"), TrustAnchor: w.anchors.EntityIDs(), EntityTypes: []string{"openid_provider"}},
		)
		return errOr(err, md)
	}, true, false},
	{"possible", func(w *ccWorld) string {
		ok, _ := oidfed.LocalMetadataResolver{}.ResolvePossible(
			apimodel.ResolveRequest{Subject: w.f.ID("X"), TrustAnchor: w.pinned.EntityIDs()},
		)
		return fmt.Sprint(ok)
	}, true, false},
	{"response", func(w *ccWorld) string {
		res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(
			apimodel.ResolveRequest{Subject: w.f.ID("L"), TrustAnchor: w.anchors.EntityIDs()},
		)
		if err != nil {
			return "error"
		}
		var ms []string
		for _, m := range res.TrustMarks {
			ms = append(ms, m.TrustMarkType)
		}
		return fmt.Sprint(jsonOf(res.Metadata), len(res.TrustChain), ms)
	}, true, true},
	{"trust mark", func(w *ccWorld) string {
		return fmt.Sprint(w.mark.VerifyFederation(w.ta) == nil)
	}, true, false},
	{"trust marks", func(w *ccWorld) string {
		var ts []string
		for _, m := range w.marks.VerifiedFederation(w.ta) {
			ts = append(ts, m.TrustMarkType)
		}
		return fmt.Sprint(ts)
	}, true, true},
	{"collection", func(w *ccWorld) string {
		var ids []string
		for _, e := range w.collector.CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: w.f.ID("T"), Claims: []string{"entity_types"}}) {
			t := append([]string(nil), e.EntityTypes...)
			sort.Strings(t)
			ids = append(ids, e.EntityID+fmt.Sprint(t))
		}
		sort.Strings(ids)
		return strings.Join(ids, " ")
	}, true, true},
	{"marked collection", func(w *ccWorld) string {
		var ids []string
		req := apimodel.EntityCollectionRequest{TrustAnchor: w.f.ID("T"), TrustMarkTypes: []string{tmType}, Claims: []string{"trust_marks", "trust_chain"}}
		for _, e := range (oidfed.SmartRemoteEntityCollector{}).CollectEntities(req) {
			ids = append(ids, fmt.Sprint(e.EntityID, len(e.TrustMarks)))
		}
		sort.Strings(ids)
		return strings.Join(ids, " ")
	}, true, true},
	{"op metadata", func(w *ccWorld) string {
		md, err := w.rp.ResolveOPMetadata(w.f.ID("P"))
		return errOr(err, md)
	}, true, false},
	{"statements", func(w *ccWorld) string {
		a, err := oidfed.GetEntityConfiguration(w.f.ID("I"))
		if err != nil {
			return "error"
		}
		b, err := oidfed.FetchEntityStatement(w.f.ID("I")+"/fetch", w.f.ID("L"), w.f.ID("I"))
		if err != nil {
			return "error"
		}
		return fmt.Sprint(a.Issuer, b.Subject, b.Verify(a.JWKS), a.Verify(w.stmt.JWKS), jsonOf(b.MetadataPolicy))
	}, true, false},
	{"shared chains", func(w *ccWorld) string {
		var out []string
		for _, ch := range w.chains {
			md, err := ch.Metadata()
			out = append(out, descChain(ch)+errOr(err, md))
		}
		out = append(out, descChains(w.chains.Filter(oidfed.TrustChainsFilterMinPathLength)), descChains(w.chains.Filter(oidfed.TrustChainsFilterValidMetadata)))
		for _, ch := range w.chains {
			out = append(out, fmt.Sprint(ch.PathLen(), ch.ExpiresAt().Unix(), len(ch.Messages())))
		}
		sort.Strings(out)
		return strings.Join(out, " ; ")
	}, true, true},
	{"publication", func(w *ccWorld) string {
		j, err := w.fe.EntityConfigurationJWT()
		if err != nil {
			return "error"
		}
		p := payloadOfSlow(j)
		delete(p, "iat")
		delete(p, "exp")
		var ms []string
		l, _ := p["trust_marks"].([]any)
		for _, m := range l {
			mm := m.(map[string]any)
			ms = append(ms, fmt.Sprint(mm["trust_mark_type"], plain([]byte(str(mm["trust_mark"])))))
		}
		delete(p, "trust_marks")
		return fmt.Sprint(jsonOf(p), ms)
	}, false, false},
	{"issuance", func(w *ccWorld) string {
		m, err := w.issuer.IssueTrustMark(tmType, w.f.ID("L"), time.Hour)
		if err != nil {
			return "error"
		}
		ts := w.issuer.TrustMarkTypes()
		sort.Strings(ts)
		return fmt.Sprint(plain([]byte(m.TrustMarkJWT)), jsonOf(m.Extra), ts)
	}, false, false},
	{"delegation", func(w *ccWorld) string {
		j, err := w.owner.DelegationJWT(tmType, w.f.ID("X"))
		if err != nil {
			return "error"
		}
		return plain(j)
	}, false, false},
	{"request object", func(w *ccWorld) string {
		j, err := w.rp.RequestObjectProducer().RequestObject(map[string]any{"aud": w.f.ID("P"), "state": "s"})
		if err != nil {
			return "error"
		}
		a, err := w.rp.RequestObjectProducer().ClientAssertion(w.f.ID("P"))
		if err != nil {
			return "error"
		}
		return plain(j, "jti") + plain(a, "jti")
	}, false, false},
	{"subordinate statement", func(w *ccWorld) string {
		j, err := w.fe.SignEntityStatement(w.stmt.EntityStatementPayload)
		if err != nil {
			return "error"
		}
		return plain(j) + jsonOf(generic(w.fe.JWKS()))
	}, false, false},
	{"parsing", func(w *ccWorld) string {
		st, err := oidfed.ParseEntityStatement(w.f.EC["L"].JWT())
		if err != nil {
			return "error"
		}
		return jsonOf(st.EntityStatementPayload)
	}, false, false},
	{"cache", func(w *ccWorld) string {
		k := cache.Key(cache.KeyOPMetadata, "zz"+w.suffix)
		v := map[string]any{"a": strings.Repeat("x", 50), "b": []any{"c"}}
		if err := cache.Set(k, v, time.Hour); err != nil {
			return "error"
		}
		var got map[string]any
		ok, err := cache.Get(k, &got)
		if !ok || err != nil {
			return fmt.Sprint("not there ", err)
		}
		s := jsonOf(got)
		got["a"] = "mine"
		got["b"].([]any)[0] = "mine"
		return s
	}, true, false},
}

// canon makes answers of worlds with different names comparable.
func (w *ccWorld) canon(s string) string {
	if w.suffix == "" {
		return s
	}
	return strings.ReplaceAll(s, w.suffix+".example.org", ".example.org")
}

// ccAlone gives what each operation answers when it runs alone.
func ccAlone(c *C) map[string]string {
	if ccAloneMemo != nil {
		return ccAloneMemo
	}
	out := map[string]string{}
	w := newCCWorld("")
	newMemCache()
	w.prime()
	for _, op := range ccOps {
		newMemCache()
		out[op.name] = op.do(w)
	}
	for _, op := range ccOps { // warm
		if a := op.do(w); a != out[op.name] {
			c.Fail("%s answers %s, and later %s", op.name, out[op.name], a)
		}
	}
	// background goroutines end
	time.Sleep(time.Second)
	synctest.Wait()
	ccAloneMemo = out
	return out
}

var ccAloneMemo map[string]string

func ccDiffer(c *C, what string, got, want string) bool {
	if got != want {
		c.Fail("%s answers %s; alone it answers %s", what, got, want)
		return true
	}
	return false
}

// exploreCCSchedules: pairs (and triples) of operations under a scheduler.
func exploreCCSchedules(x *X, name string, k int, points func(string) bool, tasks int, ops []ccOp) {
	x.ExploreB(
		name, k, func(c *C) {
			var sel []ccOp
			lo := 0
			for i := 0; i < tasks; i++ {
				j := lo + c.Choose(len(ops)-lo, "operation")
				c.labels[len(c.labels)-1] = ops[j].name
				sel = append(sel, ops[j])
				lo = j
			}
			net := false
			for _, op := range sel {
				net = net || op.net
			}
			if tasks == 2 && !x.Thorough() && sel[0].heavy && sel[1].heavy && sel[0].name != sel[1].name && sel[0].name != "chains" {
				c.Discard()
			}
			cs := "none"
			if net {
				cs = Of(c, "cache", "cold", "warm", "grace period")
			}
			c.Shared()
			alone := ccAlone(c)
			mc := newMemCache()
			w := newCCWorld("")
			shared := false
			for _, op := range sel {
				shared = shared || op.name == "shared chains"
			}
			if shared || ccWarm == nil {
				w.prime()
				ccWarm = maps.Clone(mc.m)
			}
			mc.m = maps.Clone(ccWarm)
			switch cs {
			case "cold", "none":
				clear(mc.m)
			case "grace period":
				// what is cached is about to expire; the same with a later expiry is to be had
				time.Sleep(11*time.Hour + 30*time.Minute)
				for _, s := range w.f.SS {
					s.Exp += 12 * time.Hour
				}
			}
			s := newSched(c, points)
			w.n.Gate = func(what string) { s.yield("!net " + shortID(what)) }
			mc.Gate = func(what string) { s.yield("!cache " + what[:3]) }
			res := make([]string, tasks)
			var fs []func()
			for i, op := range sel {
				fs = append(fs, func() { res[i] = op.do(w) })
			}
			blocked := s.run(fs...)
			s.release()
			w.n.Gate, mc.Gate = nil, nil
			if blocked != "" {
				c.Fail("never ends: %s", blocked)
				return
			}
			for i, op := range sel {
				want := alone[op.name]
				if op.name == "shared chains" {
					want = op.do(w)
				}
				ccDiffer(c, op.name, res[i], want)
			}
			// what they leave behind does no harm
			for i, op := range sel {
				if op.name != "shared chains" && op.net && (i == 0 || op.name != sel[i-1].name) {
					ccDiffer(c, op.name+" afterwards", op.do(w), alone[op.name])
				}
			}
			time.Sleep(time.Second)
			synctest.Wait()
			c.State(c.labels)
			c.Outcome(fmt.Sprint(cs, " ", s.Points/20*20))
		},
	)
}

var ccRuns int

// ccWarm is a cache after a resolution.
var ccWarm map[string]memEntry

// exploreCCRaces runs operations freely for the race detector, over the
// library's own cache and another one.
func exploreCCRaces(x *X, name string, own bool) {
	x.ExploreB(
		name, 0, func(c *C) {
			i := c.Choose(len(ccOps), "operation")
			j := i + c.Choose(len(ccOps)-i, "other operation")
			c.labels = append(c.labels[:0], ccOps[i].name, ccOps[j].name)
			c.Commit()
			var alone map[string]string
			if own {
				ccRuns++
			} else {
				alone = ccAlone(c)
			}
			for round := 0; round < 3; round++ {
				suffix := ""
				if own {
					suffix = fmt.Sprintf("-%d-%d-%d", x.Shard, ccRuns, round)
				} else {
					newMemCache()
				}
				w := newCCWorld(suffix)
				if round == 1 || ccOps[i].name == "shared chains" || ccOps[j].name == "shared chains" {
					w.prime() // warm
				}
				if round == 2 && !own {
					newMemCache()
				}
				const n = 4
				res := make([]string, n)
				start := make(chan struct{})
				var wg sync.WaitGroup
				for t := 0; t < n; t++ {
					op := ccOps[i]
					if t%2 == 1 {
						op = ccOps[j]
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						res[t] = w.canon(op.do(w))
					}()
				}
				close(start)
				wg.Wait()
				for t := 0; t < n; t++ {
					op := ccOps[i]
					if t%2 == 1 {
						op = ccOps[j]
					}
					want := w.canon(op.do(w))
					if !own && op.name != "shared chains" {
						want = alone[op.name]
					}
					ccDiffer(c, op.name, res[t], want)
				}
				c.Step("round", round, c.labels)
			}
			time.Sleep(time.Second)
			synctest.Wait()
		},
	)
}

func ccSelect(names ...string) (out []ccOp) {
	for _, n := range names {
		for _, o := range ccOps {
			if o.name == n {
				out = append(out, o)
			}
		}
	}
	return
}

func init() {
	registry["C17"] = func(x *X) {
		if os.Getenv("ZZ_MODE") == "race" {
			exploreCCRaces(x, "races over the library's cache", true)
			exploreCCRaces(x, "races", false)
			exploreCollectRaces(x)
			exploreRefreshRaces(x)
			return
		}
		outer := func(l string) bool {
			return strings.HasPrefix(l, "!net") || strings.HasPrefix(l, "!cache") || l == "!lock" || strings.HasPrefix(l, "!start")
		}
		var local []ccOp
		for _, o := range ccOps {
			if !o.net {
				local = append(local, o)
			}
		}
		exploreCCSchedules(x, "local statements", Pick(x, 1, 2), func(string) bool { return true }, 2, local)
		most := ccSelect("chains", "chains pinned", "metadata", "response", "trust mark", "collection", "op metadata", "shared chains", "publication", "cache")
		if x.Thorough() {
			most = ccOps
		}
		exploreCCSchedules(x, "requests", Pick(x, 1, 2), outer, 2, most)
		if x.Thorough() {
			exploreCCSchedules(x, "three at once", 1, outer, 3, ccSelect("chains", "metadata", "trust mark", "collection", "marked collection", "publication"))
			exploreCCSchedules(x, "statements", 1, conc, 2, ccOps)
		} else {
			exploreCCSchedules(x, "statements", 1, conc, 2, ccSelect("metadata", "statements", "publication"))
		}
		exploreCollectSchedules(x, 1)
		exploreRefreshSchedules(x, 2)
	}
}
