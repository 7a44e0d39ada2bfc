SEEDS = []
def seed(**k): SEEDS.append(k)
R="trustresolver.go"; TM="trustmark.go"; DI="discovery.go"; MD="metadata.go"; MR="metadata_resolver.go"; FE="federation.go"; AC="authcode.go"

seed(id="S07", prop="C01", needs="an entity with two authorities, the statement of the second about it signed by somebody else",
 breaks="A subordinate statement is only verified against the first of the authorities that vouch for its issuer.",
 edits=[(R, "		if t.Subordinate != nil && !t.Subordinate.Verify(jwks) {", "		if t.Subordinate != nil && iValid == 0 && !t.Subordinate.Verify(jwks) {")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I"}, nil)
	n.ec("I", []string{"T", "U"}, nil)
	n.ec("T", nil, nil)
	n.ec("U", nil, nil)
	n.sub("I", "L", nil)
	n.ec("I", []string{"T", "U"}, zzM{"!key": "Ib", "jwks": zzJWKS("I", "Ib")})
	n.sub("T", "I", zzM{"jwks": zzJWKS("I", "Ib")})
	n.sub("U", "I", zzM{"jwks": zzJWKS("Ib")}) // does not vouch for the key of I's statement about L
	c := zzChains("L", nil, zzTA("T"), zzTA("U"))
	if len(c) != 1 || c[0][len(c[0])-1].Issuer != zzID("T") {
		t.Fatal("chains:", len(c))
	}
}
''')

seed(id="S08", prop="C02", needs="two superiors, the second of them below the first",
 breaks="The identifiers visited on one branch count for its sibling branches, so that the second chain through a shared superior is taken for a loop.",
 edits=[(R, "		subordinates := t.subordinateIDs.Copy()\n		subordinates.Add(aID)\n", "		subordinates := t.subordinateIDs\n		if t.depth > 0 {\n			subordinates = subordinates.Copy()\n		}\n		subordinates.Add(aID)\n")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I", "J"}, nil)
	n.ec("I", []string{"T"}, nil)
	n.ec("J", []string{"I"}, nil)
	n.ec("T", nil, nil)
	n.sub("I", "L", nil)
	n.sub("J", "L", nil)
	n.sub("I", "J", nil)
	n.sub("T", "I", nil)
	if c := zzChains("L", nil, zzTA("T")); len(c) != 2 {
		t.Fatal(len(c), "chains, not 2")
	}
}
''')

seed(id="S09", prop="C06", needs="a cached statement within its grace period whose endpoint hangs",
 breaks="The refresh of a cached statement is done before the statement is returned, so that the user waits for the network.",
 edits=[(R, "		internal.Log(\"Obtained entity statement from cache\")\n		go func() {", "		internal.Log(\"Obtained entity statement from cache\")\n		func() {")],
 demo='''
import (
	nethttp "net/http"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", nil, zzM{"iat": time.Now().Add(-10 * time.Hour).Unix(), "exp": time.Now().Add(20 * time.Second).Unix()})
	if _, err := GetEntityConfiguration(zzID("L")); err != nil {
		t.Fatal(err)
	}
	n.mu.Lock()
	n.H[zzID("L")+"/.well-known/openid-federation"] = func(*nethttp.Request) (int, string, []byte) {
		time.Sleep(5 * time.Second)
		return 500, "text/plain", nil
	}
	n.mu.Unlock()
	start := time.Now()
	if _, err := GetEntityConfiguration(zzID("L")); err != nil {
		t.Fatal(err)
	}
	if time.Since(start) > 3*time.Second {
		t.Fatal("a cached statement was returned only after its refresh")
	}
}
''')

seed(id="S10", prop="C09", needs="a statement that belongs to two chains, with policies of both anchors, and both chains evaluated",
 breaks="Combining policies writes into the first of them, so that evaluating a chain adds its anchor's policy to a statement that other chains share.",
 edits=[("metadataPolicy.go", "	out := make(MetadataPolicy)\n	for k, pv := range parent {", "	out := parent\n	for k, pv := range parent {")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I"}, zzM{"metadata": zzM{"openid_provider": zzM{"issuer": "x", "scopes_supported": []string{"a", "b"}}}})
	n.ec("I", []string{"T", "U"}, nil)
	n.ec("T", nil, nil)
	n.ec("U", nil, nil)
	pol := func(v ...string) zzM {
		return zzM{"metadata_policy": zzM{"openid_provider": zzM{"scopes_supported": zzM{"subset_of": v}}}}
	}
	n.sub("I", "L", pol("a", "b", "c"))
	n.sub("T", "I", pol("a"))
	n.sub("U", "I", pol("a", "b"))
	chains := zzChains("L", nil, zzTA("T"), zzTA("U"))
	if len(chains) != 2 {
		t.Fatal(len(chains), "chains")
	}
	for _, c := range chains {
		m, err := c.Metadata()
		if err != nil {
			t.Fatal(err)
		}
		want := 1
		if c[len(c)-1].Issuer == zzID("U") {
			want = 2
		}
		if len(m.OpenIDProvider.ScopesSupported) != want {
			t.Fatal(c[len(c)-1].Issuer, m.OpenIDProvider.ScopesSupported)
		}
	}
}
''')

seed(id="S11", prop="C10", needs="a superior whose configuration has metadata, but none of a federation entity",
 breaks="The configuration of a superior without federation_entity metadata crashes the resolution.",
 edits=[(R, "		if aStmt.Metadata == nil || aStmt.Metadata.FederationEntity == nil || aStmt.Metadata.FederationEntity.\n			FederationFetchEndpoint == \"\" {", "		if aStmt.Metadata == nil || aStmt.Metadata.FederationEntity.FederationFetchEndpoint == \"\" {")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I", "T"}, nil)
	n.ec("I", []string{"T"}, zzM{"metadata": zzM{"openid_provider": zzM{"issuer": "x"}}})
	n.ec("T", nil, nil)
	n.sub("T", "L", nil)
	if c := zzChains("L", nil, zzTA("T")); len(c) != 1 {
		t.Fatal(len(c), "chains")
	}
}
''')

seed(id="S12", prop="C11", needs="a document of another kind, or any JWT, without a typ header",
 breaks="A JWT without a typ header passes as any kind of document.",
 edits=[("internal/jwx/jws.go", "return typSet && headerTyp == typ", "return !typSet || headerTyp == typ")],
 demo='''
import (
	"crypto/ed25519"
	"encoding/json"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	p, _ := json.Marshal(zzM{"iss": zzID("L"), "sub": zzID("L"), "iat": time.Now().Unix(), "exp": time.Now().Add(time.Hour).Unix(), "jwks": zzJWKS("L")})
	h, _ := json.Marshal(zzM{"alg": "EdDSA", "kid": "L"})
	in := zzB64(h) + "." + zzB64(p)
	j := []byte(in + "." + zzB64(ed25519.Sign(zzKey("L"), []byte(in))))
	if _, err := ParseEntityStatement(j); err == nil {
		t.Fatal("a JWT without type was accepted as an entity statement")
	}
	if _, err := ParseEntityStatement(zzSign("L", "entity-statement+jwt", zzM{"iss": "a", "sub": "b", "jwks": zzJWKS("L")})); err != nil {
		t.Fatal(err)
	}
}
''')

seed(id="S13", prop="C12", needs="a trust mark with the owner's delegation for another issuer, and an owner listed by the trust anchor",
 breaks="A delegation counts whenever the trust anchor allows the issuer, even if it was given to somebody else.",
 edits=[(TM, "	if delegation.Subject != tm.Issuer {", "	if delegation.Subject != tm.Issuer && delegation.Subject != tm.Subject {")],
 demo='''
import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	zzStart(t)
	now := time.Now().Add(-time.Minute).Unix()
	mark := func(sub string) *TrustMark {
		d := zzSign("O", "trust-mark-delegation+jwt", zzM{"iss": zzID("O"), "sub": sub, "trust_mark_type": "https://mark", "iat": now})
		m, err := ParseTrustMark(zzSign("M", "trust-mark+jwt", zzM{
			"iss": zzID("M"), "sub": zzID("L"), "trust_mark_type": "https://mark", "iat": now, "delegation": string(d),
		}))
		if err != nil {
			t.Fatal(err)
		}
		return m
	}
	spec := TrustMarkOwnerSpec{ID: zzID("O"), JWKS: zzLibJWKS("O")}
	if err := mark(zzID("M")).VerifyExternal(zzLibJWKS("M"), spec); err != nil {
		t.Fatal(err)
	}
	for _, other := range []string{zzID("X"), zzID("L"), ""} {
		if mark(other).VerifyExternal(zzLibJWKS("M"), spec) == nil {
			t.Fatalf("a delegation for %q was accepted for a mark issued by %q", other, zzID("M"))
		}
	}
}
''')

seed(id="S14", prop="C13", needs="two trust marks of one type from one issuer object, the first with a requested lifetime and the second without",
 breaks="A requested lifetime stays in the issuer's configuration for all later trust marks of that type.",
 edits=[(TM, "	lf := spec.Lifetime.Duration\n	if len(lifetime) > 0 {\n		lf = lifetime[0]\n	}\n", "	if len(lifetime) > 0 {\n		spec.Lifetime.Duration = lifetime[0]\n		tmi.trustMarks[trustMarkType] = spec\n	}\n	lf := spec.Lifetime.Duration\n")],
 demo='''
import (
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	"github.com/go-oidfed/lib/unixtime"
)

func TestZZDemo(t *testing.T) {
	i := NewTrustMarkIssuer(
		zzID("M"), NewTrustMarkSigner(zzKey("M"), jwa.EdDSA()),
		[]TrustMarkSpec{{TrustMarkType: "a", Lifetime: unixtime.NewDurationInSeconds(60)}, {TrustMarkType: "b"}},
	)
	for _, want := range []time.Duration{time.Hour, 0, 2 * time.Hour, 0} {
		var lf []time.Duration
		if want != 0 {
			lf = append(lf, want)
		} else {
			want = time.Minute
		}
		tm, err := i.IssueTrustMark("a", zzID("L"), lf...)
		if err != nil {
			t.Fatal(err)
		}
		m, err := ParseTrustMark([]byte(tm.TrustMarkJWT))
		if err != nil {
			t.Fatal(err)
		}
		if d := time.Until(m.ExpiresAt.Time); d > want || d < want-10*time.Second {
			t.Fatal("lifetime", d, "instead of", want)
		}
	}
}
''')

seed(id="S15", prop="C14", needs="a trust mark endpoint that fails once shortly before the mark expires, and publications until after that",
 breaks="After a failed attempt a new mark is not asked for again within an hour, so that the configuration goes without the mark although it is to be had.",
 edits=[("trustmark_refresher.go", "	if time.Since(c.lastTried.Time) < time.Minute {", "	if time.Since(c.lastTried.Time) < c.RefreshGracePeriod.Duration {")],
 demo='''
import (
	"testing"
	"testing/synctest"
	"time"

	nethttp "net/http"
)

func TestZZDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		n := zzStart(t)
		start := time.Now()
		n.ec("M", nil, zzM{
			"iat": start.Add(-time.Hour).Unix(), "exp": start.Add(240 * time.Hour).Unix(),
			"metadata": zzM{"federation_entity": zzM{"federation_trust_mark_endpoint": zzID("M") + "/mark"}},
		})
		mark := func(exp time.Time) []byte {
			return zzSign("M", "trust-mark+jwt", zzM{"iss": zzID("M"), "sub": zzID("L"), "trust_mark_type": "a", "iat": time.Now().Unix(), "exp": exp.Unix()})
		}
		ok := false
		n.H[zzID("M")+"/mark"] = func(*nethttp.Request) (int, string, []byte) {
			if !ok {
				return 404, "application/json", []byte(`{"error":"not_found"}`)
			}
			return 200, "application/trust-mark+jwt", mark(time.Now().Add(24 * time.Hour))
		}
		c := &EntityConfigurationTrustMarkConfig{JWT: string(mark(start.Add(2 * time.Hour))), Refresh: true}
		if err := c.Verify(zzID("L"), "", nil); err != nil {
			t.Fatal(err)
		}
		time.Sleep(118 * time.Minute)
		_, _ = c.TrustMarkJWT() // fails to get a new one, still has the old
		synctest.Wait()
		time.Sleep(10 * time.Minute)
		ok = true
		if j, err := c.TrustMarkJWT(); err != nil || j == "" {
			t.Fatal("no trust mark although the issuer gives one: ", err)
		}
		time.Sleep(time.Minute)
	})
}
''')

seed(id="S16", prop="C16", needs="an entity that fails the name query and has more than one subordinate that matches",
 breaks="Below an entity that is itself not listed, only one of the matching entities is.",
 edits=[(DI, "								for _, nestedEntity := range nested {\n									entityChan <- nestedEntity\n								}", "								for i, nestedEntity := range nested {\n									if i > 0 && req.NameQuery != \"\" && !includeEntity {\n										break\n									}\n									entityChan <- nestedEntity\n								}")],
 demo='''
import (
	"testing"

	"github.com/go-oidfed/lib/apimodel"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	fe := func(name, x string) zzM {
		return zzM{"metadata": zzM{"federation_entity": zzM{"organization_name": x, "federation_list_endpoint": zzID(name) + "/list"}}}
	}
	n.ec("T", nil, fe("T", "anchor"))
	n.ec("I", []string{"T"}, fe("I", "qqq"))
	for _, e := range []string{"A", "B", "C"} {
		n.ec(e, []string{"I"}, zzM{"metadata": zzM{"openid_provider": zzM{"organization_name": "Example " + e}}})
	}
	n.json(zzID("T")+"/list", []string{zzID("I")})
	n.json(zzID("I")+"/list", []string{zzID("A"), zzID("B"), zzID("C")})
	got := (&SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: zzID("T"), NameQuery: "Example"})
	if len(got) != 3 {
		t.Fatal(len(got), "entities, not 3")
	}
}
''')

seed(id="S17", prop="C18", needs="several trust anchors, the first with a resolve endpoint that fails and a later one with a good one for a subject that cannot be resolved locally",
 breaks="After the first resolve endpoint that fails no other is asked.",
 edits=[(MR, "			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			continue\n", "			internal.Logf(\"error while obtaining resolve response: %v\", err)\n			break\n")],
 demo='''
import (
	"testing"
	"time"

	"github.com/go-oidfed/lib/apimodel"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	for _, a := range []string{"T", "U"} {
		n.ec(a, nil, zzM{"metadata": zzM{"federation_entity": zzM{"federation_resolve_endpoint": zzID(a) + "/resolve"}}})
	}
	n.set(zzID("U")+"/resolve", 200, "application/resolve-response+jwt", zzSign("U", "resolve-response+jwt", zzM{
		"iss": zzID("U"), "sub": zzID("L"), "iat": time.Now().Unix(), "exp": time.Now().Add(time.Hour).Unix(),
		"metadata": zzM{"openid_provider": zzM{"issuer": zzID("L")}},
	}))
	m, err := SmartRemoteMetadataResolver{}.Resolve(apimodel.ResolveRequest{Subject: zzID("L"), TrustAnchor: []string{zzID("T"), zzID("U")}})
	if err != nil || m.OpenIDProvider == nil {
		t.Fatal("the second resolve endpoint was not asked: ", err)
	}
}
''')

seed(id="S18", prop="C19", needs="an additional member whose value is null",
 breaks="Additional members that are null disappear when a document is encoded.",
 edits=[("entitystatement.go", "	for k, v := range extra {\n		e, err := json.Marshal(v)\n", "	for k, v := range extra {\n		if v == nil {\n			continue\n		}\n		e, err := json.Marshal(v)\n"),
        ("entitystatement.go", "	data, err := json.Marshal(m)\n	return data, errors.WithStack(err)\n}\n\nfunc yaml", "	data, err := json.Marshal(m)\n	if err != nil {\n		return nil, errors.WithStack(err)\n	}\n	return data, nil\n}\n\nfunc yaml")],
 demo='''
import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, in := range []string{`{"iss":"a","sub":"b","x_null":null}`, `{"iss":"a","sub":"b","x":1}`} {
		var p EntityStatementPayload
		if err := json.Unmarshal([]byte(in), &p); err != nil {
			t.Fatal(err)
		}
		out, err := json.Marshal(p)
		if err != nil {
			t.Fatal(err)
		}
		var m, w map[string]any
		_ = json.Unmarshal(out, &m)
		_ = json.Unmarshal([]byte(in), &w)
		for k := range w {
			if _, there := m[k]; !there {
				t.Fatal(k, "was lost from", in)
			}
		}
	}
}
''')

seed(id="S19", prop="C20", needs="a statement with critical policy operators, taken from the cache",
 breaks="The critical policy operators of a statement are not stored in the cache, so that a chain that must be refused is accepted once its statements are cached.",
 edits=[("entitystatement.go", "	ee := entityStatementExported{\n		Payload: e.EntityStatementPayload,\n	}\n", "	ee := entityStatementExported{\n		Payload: e.EntityStatementPayload,\n	}\n	if e.MetadataPolicy == nil || len(e.MetadataPolicy.Extra) == 0 {\n		ee.Payload.MetadataPolicyCrit = nil\n	}\n"),
        ("entitystatement.go", "	data, err := msgpack.Marshal(ee)\n	return data, err\n}\n\n// UnmarshalMsgpack implements the msgpack.Unmarshaler interface for usage with caching", "	return msgpack.Marshal(ee)\n}\n\n// UnmarshalMsgpack implements the msgpack.Unmarshaler interface for usage with caching")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"T"}, zzM{"metadata": zzM{"openid_provider": zzM{"issuer": "x"}}})
	n.ec("T", nil, nil)
	n.sub("T", "L", zzM{
		"metadata_policy_crit": []string{"regexp"},
		"metadata_policy":      zzM{"openid_provider": zzM{"issuer": zzM{"regexp": "y"}}},
	})
	for i := 0; i < 3; i++ {
		if c := zzChains("L", nil, zzTA("T")); len(c) != 0 {
			t.Fatal("a chain with a critical operator that is not understood was accepted in round", i)
		}
		r := TrustResolver{TrustAnchors: []TrustAnchor{zzTA("T")}, StartingEntity: zzID("L")}
		for _, c := range r.ResolveToValidChainsWithoutVerifyingMetadata() {
			if _, err := c.Metadata(); err == nil {
				t.Fatal("a critical operator was ignored in round", i)
			}
		}
	}
}
''')

seed(id="S20", prop="C21", needs="chains with and without intermediates",
 breaks="The filter for the shortest chains does not recognise a chain without intermediates as shorter.",
 edits=[("trustchainfilter.go", "		for i := 1; i < len(chains); i++ {\n			if l := chains[i].PathLen(); l < minimum {", "		for i := 1; i < len(chains); i++ {\n			if l := chains[i].PathLen(); l > 0 && l < minimum {")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	chain := func(n int) (c TrustChain) {
		for i := 0; i < n+3; i++ {
			c = append(c, &EntityStatement{})
		}
		return
	}
	for _, cs := range []TrustChains{
		{chain(2), chain(0)}, {chain(0), chain(2)}, {chain(3), chain(2), chain(0)}, {chain(3), chain(0), chain(2)},
	} {
		got := TrustChainsFilterMinPathLength.Filter(cs)
		if len(got) != 1 || got[0].PathLen() != 0 {
			t.Fatal("not the shortest chain")
		}
	}
}
''')

seed(id="S21", prop="C22", needs="a caller that passes a client_id among the values of a request object",
 breaks="A request object keeps the client_id that its caller passed, so that it is not bound to the relying party that signs it.",
 edits=[(AC, "	requestValues[\"client_id\"] = rop.EntityID\n", "	if _, set := requestValues[\"client_id\"]; !set {\n		requestValues[\"client_id\"] = rop.EntityID\n	}\n"),
        (AC, "	delete(requestValues, \"sub\")\n	delete(requestValues, \"client_secret\")\n", "	for _, c := range []string{\"sub\", \"client_secret\"} {\n		delete(requestValues, c)\n	}\n")],
 demo='''
import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"testing"

	"github.com/lestrrat-go/jwx/v3/jwa"
)

func TestZZDemo(t *testing.T) {
	p := NewRequestObjectProducer(zzID("L"), zzKey("L"), jwa.EdDSA(), 60)
	for _, vals := range []map[string]any{{"aud": "x"}, {"aud": "x", "client_id": "other"}} {
		j, err := p.RequestObject(vals)
		if err != nil {
			t.Fatal(err)
		}
		b, _ := base64.RawURLEncoding.DecodeString(strings.Split(string(j), ".")[1])
		var m map[string]any
		_ = json.Unmarshal(b, &m)
		if m["client_id"] != zzID("L") {
			t.Fatal("client_id is", m["client_id"])
		}
	}
}
''')

seed(id="S22", prop="C23", needs="a configuration that is read within a second of its publication",
 breaks="A configuration states the next full second as the time of its issue, so that it is not valid when it is published.",
 edits=[(FE, "	now := time.Now()\n	var tms []TrustMarkInfo", "	now := time.Now().Truncate(time.Second).Add(time.Second)\n	var tms []TrustMarkInfo")],
 demo='''
import (
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
)

func TestZZDemo(t *testing.T) {
	f, err := NewFederationEntity(zzID("L"), nil, nil, NewEntityStatementSigner(zzKey("L"), jwa.EdDSA()), 60, nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		j, err := f.EntityConfigurationJWT()
		if err != nil {
			t.Fatal(err)
		}
		time.Sleep(10 * time.Millisecond)
		s, err := ParseEntityStatement(j)
		if err != nil {
			t.Fatal(err)
		}
		if !s.TimeValid() {
			t.Fatal("a configuration is not valid when it is published")
		}
		time.Sleep(300 * time.Millisecond)
	}
}
''')

seed(id="S23", prop="C24", needs="two pairs of subject and issuer whose concatenations are equal",
 breaks="Cache keys of statements are made from subject and issuer without a separator, so that those of different statements collide.",
 edits=[("cache/cache.go", "	subkey := base64.URLEncoding.EncodeToString([]byte(subID)) + \":\" + base64.URLEncoding.EncodeToString([]byte(issID))", "	subkey := base64.URLEncoding.EncodeToString([]byte(subID + issID))")],
 demo='''
import (
	"testing"

	"github.com/go-oidfed/lib/cache"
)

func TestZZDemo(t *testing.T) {
	a := cache.EntityStmtCacheKey("https://a.example.org", "https://b.example.org/https://c.example.org")
	b := cache.EntityStmtCacheKey("https://a.example.orghttps://b.example.org/", "https://c.example.org")
	if a == b {
		t.Fatal("statements about different entities have the same cache key")
	}
}
''')

seed(id="S24", prop="C25", needs="a timestamp with a fraction that is not a whole number of milliseconds",
 breaks="Fractions of a second are cut to milliseconds when reading a timestamp.",
 edits=[("unixtime/unixtime.go", "	u.Time = time.Unix(int64(sec), int64(dec*(1e9)))", "	u.Time = time.Unix(int64(sec), int64(dec*1e3)*1e6)")],
 demo='''
import (
	"encoding/json"
	"testing"

	"github.com/go-oidfed/lib/unixtime"
)

func TestZZDemo(t *testing.T) {
	var u unixtime.Unixtime
	if err := json.Unmarshal([]byte("1700000000.2504"), &u); err != nil {
		t.Fatal(err)
	}
	if d := u.Nanosecond() - 250400000; d < -1000 || d > 1000 {
		t.Fatal("read as", u.UnixNano())
	}
}
''')

seed(id="S25", prop="C26", needs="metadata of a protected resource with both a display name and a resource name",
 breaks="The display name of a protected resource is its resource name even if it states a display name.",
 edits=[(MD, "	if dn := m.DisplayName; dn != \"\" {\n		return dn\n	}\n	return m.ResourceName", "	if dn := m.ResourceName; dn != \"\" {\n		return dn\n	}\n	return m.DisplayName")],
 demo='''
import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var m Metadata
	if err := json.Unmarshal([]byte(`{"oauth_resource":{"display_name":"shown","resource_name":"internal"}}`), &m); err != nil {
		t.Fatal(err)
	}
	if n := m.GuessDisplayNames()["oauth_resource"]; n != "shown" {
		t.Fatal("the display name is said to be", n)
	}
}
''')

seed(id="S26", prop="C17", needs="a collection with a trust mark filter and several entities that reach it at the same time",
 breaks="The trust anchor's configuration for the trust mark filter is loaded without synchronisation by concurrent workers, one of which may use it before it is there.",
 edits=[(DI, "							for _, trustMarkType := range req.TrustMarkTypes {\n								taOnce.Do(\n									func() {\n										ta, taErr = GetEntityConfiguration(req.TrustAnchor)\n									},\n								)", "							for _, trustMarkType := range req.TrustMarkTypes {\n								if ta == nil && taErr == nil {\n									taErr = fmt.Errorf(\"not yet loaded\")\n									ta, taErr = GetEntityConfiguration(req.TrustAnchor)\n								}")],
 demo='''
import (
	nethttp "net/http"
	"testing"
	"time"

	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/cache"
)

type zzNoCache struct{}

func (zzNoCache) Get(string, any) (bool, error)               { return false, nil }
func (zzNoCache) Set(string, any, time.Duration) error { return nil }

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	cache.SetCache(zzNoCache{})
	ta := n.ec("T", nil, nil)
	_ = ta
	mark := func(sub string) zzM {
		return zzM{"metadata": zzM{"openid_provider": zzM{"issuer": zzID(sub)}}, "trust_marks": []zzM{{
			"trust_mark_type": "a", "trust_mark": string(zzSign("T", "trust-mark+jwt", zzM{
				"iss": zzID("T"), "sub": zzID(sub), "trust_mark_type": "a", "iat": time.Now().Add(-time.Minute).Unix(),
			})),
		}}}
	}
	var ids []string
	for _, e := range []string{"A", "B", "C", "D"} {
		n.ec(e, []string{"T"}, mark(e))
		ids = append(ids, zzID(e))
	}
	n.json(zzID("T")+"/list", ids)
	url := zzID("T") + "/.well-known/openid-federation"
	h := n.H[url]
	n.H[url] = func(r *nethttp.Request) (int, string, []byte) {
		time.Sleep(100 * time.Millisecond)
		return h(r)
	}
	for i := 0; i < 5; i++ {
		got := (&SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: zzID("T"), TrustMarkTypes: []string{"a"}})
		if len(got) != 4 {
			t.Fatal(len(got), "entities with the trust mark, not 4")
		}
	}
}
''')
