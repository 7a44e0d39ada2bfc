SEEDS = []
def seed(**k): SEEDS.append(k)
R="trustresolver.go"; TM="trustmark.go"; DI="discovery.go"; MP="metadataPolicy.go"; PO="policyoperators.go"; FE="federation.go"; AC="authcode.go"; TC="trustchain.go"

seed(id="S27", prop="C07", needs="an intermediate whose policy contradicts itself for a parameter that the non-empty policy of its superior does not mention",
 breaks="When two policies are combined only the parameters of the superior's policy are verified afterwards, so that a chain with a contradictory policy is accepted.",
 edits=[(MP, "	return out, out.Verify(pathInfo)\n", "	for k := range parent {\n		if err := out[k].Verify(fmt.Sprintf(\"%s.%s\", pathInfo, k)); err != nil {\n			return nil, err\n		}\n	}\n	return out, nil\n")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	for _, bad := range []bool{false, true} {
		n := zzStart(t)
		rp := zzM{"openid_relying_party": zzM{"client_name": "x", "redirect_uris": []string{"https://a"}}}
		n.ec("L", []string{"I"}, zzM{"metadata": rp})
		n.ec("I", []string{"T"}, nil)
		n.ec("T", nil, nil)
		other := zzM{"subset_of": []string{"code", "token"}}
		if bad {
			other["superset_of"] = []string{"id_token"}
		}
		// policies are combined from the first statement on
		n.sub("I", "L", zzM{"metadata_policy": zzM{"openid_relying_party": zzM{"client_name": zzM{"essential": true}}}})
		n.sub("T", "I", zzM{"metadata_policy": zzM{"openid_relying_party": zzM{"response_types": other}}})
		want := 1
		if bad {
			want = 0
		}
		if c := zzChains("L", nil, zzTA("T")); len(c) != want {
			t.Fatal(bad, len(c), "chains, not", want)
		}
	}
}
''')

seed(id="S28", prop="C07", needs="two statements of a chain with policies for an entity type the library does not know",
 breaks="Of the policies for an entity type unknown to the library only the last in the chain counts.",
 edits=[(MP, "			extraEntries[k] = append(extraEntries[k], v)\n", "			extraEntries[k] = []MetadataPolicy{v}\n")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I"}, zzM{"metadata": zzM{"robot": zzM{"arms": []string{"a", "b", "c"}}}})
	n.ec("I", []string{"T"}, nil)
	n.ec("T", nil, nil)
	n.sub("I", "L", zzM{"metadata_policy": zzM{"robot": zzM{"arms": zzM{"subset_of": []string{"a", "b"}}}}})
	n.sub("T", "I", zzM{"metadata_policy": zzM{"robot": zzM{"arms": zzM{"subset_of": []string{"b", "c"}}}}})
	c := zzChains("L", nil, zzTA("T"))
	if len(c) != 1 {
		t.Fatal(len(c), "chains")
	}
	m, err := c[0].Metadata()
	if err != nil {
		t.Fatal(err)
	}
	robot, _ := m.Extra["robot"].(map[string]any)
	arms, _ := robot["arms"].([]any)
	if len(arms) != 1 || arms[0] != "b" {
		t.Fatal(m.Extra)
	}
}
''')

seed(id="S29", prop="C08", needs="a parameter without a value, for which a policy adds values and demands others",
 breaks="Values added to an absent parameter do not count as a value, so that later operators of the policy do not check them.",
 edits=[(PO, "			return policyValue, policyValue != nil, nil\n", "			return policyValue, valueSet, nil\n")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	for _, superset := range []string{"a", "b"} {
		n := zzStart(t)
		n.ec("L", []string{"T"}, zzM{"metadata": zzM{"openid_relying_party": zzM{"client_name": "x"}}})
		n.ec("T", nil, nil)
		n.sub(
			"T", "L", zzM{
				"metadata_policy": zzM{
					"openid_relying_party": zzM{"zz_list": zzM{"add": []string{"a"}, "superset_of": []string{superset}}},
				},
			},
		)
		want := 1
		if superset == "b" {
			want = 0
		}
		if c := zzChains("L", nil, zzTA("T")); len(c) != want {
			t.Fatal(superset, len(c), "chains, not", want)
		}
	}
}
''')

seed(id="S30", prop="C04", needs="two chains, the second of which expires before the first; a resolution in between",
 breaks="The chains of an entity are cached until the first of them expires, so that the others are returned after they expired.",
 edits=[(R, "		cache.Key(cache.KeyTrustTreeChains, string(hash)), chains,\n		unixtime.Until(r.trustTree.expiresAt),\n", "		cache.Key(cache.KeyTrustTreeChains, string(hash)), chains,\n		unixtime.Until(chains[0].ExpiresAt()),\n")],
 demo='''
import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I", "J"}, nil)
	n.ec("I", []string{"T"}, nil)
	n.ec("J", []string{"T"}, nil)
	n.ec("T", nil, nil)
	n.sub("T", "I", nil)
	n.sub("T", "J", nil)
	n.sub("I", "L", nil)
	n.sub("J", "L", zzM{"iat": time.Now().Add(-2 * time.Hour).Unix(), "exp": time.Now().Add(3 * time.Second).Unix()})
	if c := zzChains("L", nil, zzTA("T")); len(c) != 2 {
		t.Fatal(len(c), "chains, not 2")
	}
	time.Sleep(4500 * time.Millisecond)
	if c := zzChains("L", nil, zzTA("T")); len(c) != 1 {
		t.Fatal(len(c), "chains after one of them expired, not 1")
	}
}
''')

seed(id="S31", prop="C05", needs="two chains from the same entity to the same anchor through different intermediates with different policies",
 breaks="Only the ends of a chain are part of the key of its cached metadata, so that a chain gets the metadata of another one.",
 edits=[(TC, "	data, err := msgpack.Marshal(c)\n", "	ends := c\n	if len(c) > 2 {\n		ends = TrustChain{c[0], c[len(c)-1]}\n	}\n	data, err := msgpack.Marshal(ends)\n")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I", "J"}, zzM{"metadata": zzM{"openid_relying_party": zzM{"client_name": "x"}}})
	n.ec("I", []string{"T"}, nil)
	n.ec("J", []string{"T"}, nil)
	n.ec("T", nil, nil)
	n.sub("T", "I", nil)
	n.sub("T", "J", nil)
	for _, i := range []string{"I", "J"} {
		n.sub(i, "L", zzM{"metadata_policy": zzM{"openid_relying_party": zzM{"client_name": zzM{"value": "by " + i}}}})
	}
	c := zzChains("L", nil, zzTA("T"))
	if len(c) != 2 {
		t.Fatal(len(c), "chains")
	}
	for _, cc := range c {
		m, err := cc.Metadata()
		if err != nil {
			t.Fatal(err)
		}
		want := "by I"
		if cc[1].Subject == zzID("J") || cc[1].Issuer == zzID("J") || cc[0].Issuer == zzID("J") {
			want = "by J"
		}
		if m.RelyingParty.ClientName != want {
			t.Fatal(m.RelyingParty.ClientName, "is not", want)
		}
	}
}
''')

seed(id="S32", prop="C12", needs="a trust mark with a delegation that begins to be valid later",
 breaks="The time of issue of a delegation is not checked, so that a mark passes before its issuer may issue it.",
 edits=[(TM, "func (djwt DelegationJWT) VerifyExternal(jwks jwks.JWKS) error {\n	if err := unixtime.VerifyTime(&djwt.IssuedAt, djwt.ExpiresAt)", "func (djwt DelegationJWT) VerifyExternal(jwks jwks.JWKS) error {\n	if err := unixtime.VerifyTime(nil, djwt.ExpiresAt)")],
 demo='''
import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("T", nil, zzM{"trust_mark_owners": zzM{"https://tm.example.org/x": zzM{"sub": zzID("O"), "jwks": zzJWKS("O")}}})
	n.ec("M", []string{"T"}, nil)
	n.sub("T", "M", nil)
	ta, err := GetEntityConfiguration(zzID("T"))
	if err != nil {
		t.Fatal(err)
	}
	for _, valid := range []bool{true, false} {
		from := time.Now().Add(-time.Hour)
		if !valid {
			from = time.Now().Add(time.Hour)
		}
		p := zzM{"iss": zzID("M"), "sub": zzID("L"), "trust_mark_type": "https://tm.example.org/x", "iat": time.Now().Add(-time.Hour).Unix()}
		p["delegation"] = string(
			zzSign(
				"O", "trust-mark-delegation+jwt", zzM{
					"iss": zzID("O"), "sub": zzID("M"), "trust_mark_type": "https://tm.example.org/x", "iat": from.Unix(),
				},
			),
		)
		tm, err := ParseTrustMark(zzSign("M", "trust-mark+jwt", p))
		if err != nil {
			t.Fatal(err)
		}
		if err = tm.VerifyFederation(&ta.EntityStatementPayload); (err == nil) != valid {
			t.Fatal(valid, err)
		}
	}
}
''')

seed(id="S33", prop="C16", needs="a federation with more than 128 authorities below each other or beside each other",
 breaks="Nested collections share the workers of the collection that waits for them, so that collecting a big federation never ends.",
 edits=[(DI, "const maxCollectWorkers = 128\n", "const maxCollectWorkers = 128\n\nvar collectWorkers = make(chan struct{}, maxCollectWorkers)\n"),
        (DI, "	sem := make(chan struct{}, maxCollectWorkers)\n", "	sem := collectWorkers\n")],
 demo='''
import (
	"fmt"
	"testing"
	"time"

	"github.com/go-oidfed/lib/apimodel"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("T", nil, nil)
	var ids []string
	for i := 0; i < 150; i++ {
		x := fmt.Sprintf("x%d", i)
		n.ec(x, []string{"T"}, nil)
		n.json(zzID(x)+"/list", []string{zzID("l" + x)})
		n.ec("l"+x, []string{x}, nil)
		n.json(zzID("l"+x)+"/list", []string{})
		ids = append(ids, zzID(x))
	}
	n.json(zzID("T")+"/list", ids)
	done := make(chan int, 1)
	go func() {
		done <- len((&SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: zzID("T")}))
	}()
	select {
	case got := <-done:
		if got != 300 {
			t.Fatal(got, "entities, not 300")
		}
	case <-time.After(60 * time.Second):
		t.Fatal("the collection does not end")
	}
}
''')

seed(id="S34", prop="C22", needs="additional parameters for a code exchange that have the name of one that the library sets",
 breaks="A client_id among the caller's additional parameters replaces the one the client assertion is for.",
 edits=[(AC, "	params.Set(\"client_id\", f.EntityID)\n", "	if !params.Has(\"client_id\") {\n		params.Set(\"client_id\", f.EntityID)\n	}\n")],
 demo='''
import (
	nethttp "net/http"
	"net/url"
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("OP", []string{"T"}, zzM{"metadata": zzM{"openid_provider": zzM{"issuer": zzID("OP"), "token_endpoint": zzID("OP") + "/token", "authorization_endpoint": zzID("OP") + "/auth"}}})
	n.ec("T", nil, nil)
	n.sub("T", "OP", nil)
	var got url.Values
	n.mu.Lock()
	n.H[zzID("OP")+"/token"] = func(r *nethttp.Request) (int, string, []byte) {
		_ = r.ParseForm()
		got = r.PostForm
		return 200, "application/json", []byte(`{"access_token":"x","token_type":"Bearer"}`)
	}
	n.mu.Unlock()
	_ = time.Now()
	s := NewGeneralJWTSigner(zzKey("R"), jwa.EdDSA())
	f, err := NewFederationLeaf(zzID("R"), []string{zzID("T")}, TrustAnchors{zzTA("T")}, nil, s.EntityStatementSigner(), 60, zzKey("R"), jwa.EdDSA(), nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = f.CodeExchange(zzID("OP"), "thecode", "https://r/cb", url.Values{"client_id": {"https://other"}, "extra": {"1"}}); err != nil {
		t.Fatal(err)
	}
	if got.Get("code") != "thecode" || got.Get("extra") != "1" || got.Get("client_id") != zzID("R") {
		t.Fatal(got)
	}
}
''')

seed(id="S35", prop="C23", needs="an entity with several trust marks, one of which cannot be obtained and is not the last",
 breaks="A trust mark that cannot be obtained also keeps the ones after it out of the entity configuration.",
 edits=[(FE, "			internal.Log(err.Error())\n			continue\n", "			internal.Log(err.Error())\n			break\n")],
 demo='''
import (
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("T", nil, nil)
	s := NewGeneralJWTSigner(zzKey("E"), jwa.EdDSA())
	f, err := NewFederationEntity(zzID("E"), []string{zzID("T")}, nil, s.EntityStatementSigner(), 60, nil)
	if err != nil {
		t.Fatal(err)
	}
	mark := zzSign(
		"M", "trust-mark+jwt", zzM{
			"iss": zzID("M"), "sub": zzID("E"), "trust_mark_type": "https://tm.example.org/x", "iat": time.Now().Add(-time.Hour).Unix(),
		},
	)
	f.TrustMarks = []*EntityConfigurationTrustMarkConfig{
		{TrustMarkType: "https://tm.example.org/gone", TrustMarkIssuer: zzID("G")},
		{JWT: string(mark)},
	}
	for _, c := range f.TrustMarks {
		if err = c.Verify(zzID("E"), "", nil); err != nil {
			t.Fatal(err)
		}
	}
	if tms := f.EntityConfigurationPayload().TrustMarks; len(tms) != 1 || tms[0].TrustMarkJWT != string(mark) {
		t.Fatal(len(tms), "trust marks")
	}
}
''')

seed(id="S36", prop="C24", needs="a value that is cached for less than a second",
 breaks="Cache lifetimes are cut to seconds, so that what is cached for less than one second never expires.",
 edits=[("cache/cache.go", "	c.c.SetWithTTL(key, data, expiration)\n", "	c.c.SetWithTTL(key, data, expiration.Truncate(time.Second))\n")],
 demo='''
import (
	"testing"
	"time"

	"github.com/go-oidfed/lib/cache"
)

func TestZZDemo(t *testing.T) {
	// the cache of the library, which zzStart would replace
	if err := cache.Set("zz", "v", 700*time.Millisecond); err != nil {
		t.Fatal(err)
	}
	var v string
	if set, err := cache.Get("zz", &v); !set || err != nil || v != "v" {
		t.Fatal("not cached", err)
	}
	time.Sleep(1500 * time.Millisecond)
	if set, _ := cache.Get("zz", &v); set {
		t.Fatal("still cached after its lifetime")
	}
}
''')

seed(id="S37", prop="C25", needs="a duration with a fraction of a second that is written to a YAML configuration",
 breaks="Fractions of a second are lost when a duration is written as YAML.",
 edits=[("unixtime/unixtime.go", "	return float64(d.Nanoseconds()) / float64(time.Second), nil\n", "	return int64(d.Seconds()), nil\n")],
 demo='''
import (
	"testing"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/go-oidfed/lib/unixtime"
)

func TestZZDemo(t *testing.T) {
	for _, d := range []time.Duration{90 * time.Second, 1500 * time.Millisecond} {
		b, err := yaml.Marshal(unixtime.DurationInSeconds{Duration: d})
		if err != nil {
			t.Fatal(err)
		}
		var back unixtime.DurationInSeconds
		if err = yaml.Unmarshal(b, &back); err != nil || back.Duration != d {
			t.Fatal(d, string(b), back, err)
		}
	}
}
''')
