SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="S01", prop="C01", needs="a pinned trust anchor whose own configuration is signed with, and states, other keys",
 breaks="If the configuration of a trust anchor does not verify with the pinned keys, the keys in that configuration are tried: pinning is void.",
 edits=[("trustresolver.go", """				jwks := ta.JWKS
				if jwks.Set == nil {
""", """				jwks := ta.JWKS
				if jwks.Set == nil || !t.Entity.Verify(jwks) {
""")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"T"}, nil)
	n.ec("T", nil, zzM{"!key": "T!evil", "jwks": zzJWKS("T!evil")})
	n.sub("T", "L", zzM{"!key": "T!evil"})
	if c := zzChains("L", nil, zzTA("T", "T")); len(c) != 0 {
		t.Fatal("a trust anchor with other keys than the pinned ones was accepted")
	}
	n = zzStart(t)
	n.ec("L", []string{"T"}, nil)
	n.ec("T", nil, nil)
	n.sub("T", "L", nil)
	if c := zzChains("L", nil, zzTA("T", "T")); len(c) != 1 {
		t.Fatal("no chain")
	}
}
''')

seed(id="S02", prop="C05", needs="two resolutions of one entity with different entity types over one cache",
 breaks="The requested entity types are not part of the cache key, so a resolver gets the chains of another one.",
 edits=[("trustresolver.go", "		Types:          r.Types,\n	}\n	data, err", "	}\n	data, err")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"T"}, zzM{"metadata": zzM{
		"openid_relying_party": zzM{"client_name": "x"}, "openid_provider": zzM{"organization_name": "y"},
	}})
	n.ec("T", nil, nil)
	n.sub("T", "L", nil)
	if c := zzChains("L", []string{"openid_relying_party"}, zzTA("T")); len(c) != 1 {
		t.Fatal("no chain")
	}
	c := zzChains("L", []string{"openid_provider"}, zzTA("T"))
	if len(c) != 1 {
		t.Fatal("no chain")
	}
	m, err := c[0].Metadata()
	if err != nil || m.OpenIDProvider == nil {
		t.Fatal("the requested metadata is missing")
	}
}
''')

seed(id="S04", prop="C02", needs="an authority hint of the entity's to a superior that exists but does not know the entity, before a good one",
 breaks="A superior that does not answer the fetch request ends the search instead of being skipped: the chains through later hints are lost.",
 edits=[("trustresolver.go", """t.Entity.Issuer, aID,
		)
		if err != nil {
			continue
		}""", """t.Entity.Issuer, aID,
		)
		if err != nil {
			break
		}""")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I1", "I2"}, nil)
	n.ec("I1", []string{"T"}, nil)
	n.ec("I2", []string{"T"}, nil)
	n.ec("T", nil, nil)
	n.sub("I2", "L", nil)
	n.sub("T", "I1", nil)
	n.sub("T", "I2", nil)
	if c := zzChains("L", nil, zzTA("T")); len(c) != 1 {
		t.Fatal("chains:", len(c))
	}
}
''')

seed(id="S05", prop="C03", needs="constraints on allowed entity types of a later sibling branch",
 breaks="The entity types seen in one branch count for its sibling branches too, so that constraints are checked against types of entities not in the chain.",
 edits=[("trustresolver.go", "entityTypes := t.includedEntityTypes.Copy()", "entityTypes := t.includedEntityTypes")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"I1", "I2"}, zzM{"metadata": zzM{"openid_relying_party": zzM{"client_name": "x"}}})
	n.ec("I1", []string{"T"}, zzM{"metadata": zzM{
		"federation_entity": zzM{"federation_fetch_endpoint": zzID("I1") + "/fetch"},
		"openid_provider":   zzM{"organization_name": "y"},
	}})
	n.ec("I2", []string{"T"}, nil)
	n.ec("T", nil, nil)
	n.sub("I1", "L", nil)
	n.sub("I2", "L", nil)
	n.sub("T", "I1", nil)
	n.sub("T", "I2", zzM{"constraints": zzM{"allowed_entity_types": []string{"openid_relying_party"}}})
	if c := zzChains("L", nil, zzTA("T")); len(c) != 2 {
		t.Fatal("chains:", len(c))
	}
}
''')

seed(id="S06", prop="C03", needs="an excluded name that is matched by an entity two levels below the setter",
 breaks="Naming constraints with a leading dot also exclude or permit the bare domain, and hosts that merely end in the name without the dot.",
 edits=[("trustresolver.go", "return strings.HasSuffix(host, constraint)", "return strings.HasSuffix(\".\"+host, constraint)")],
 demo='''
import "testing"

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"T"}, nil)
	n.ec("T", nil, nil)
	n.sub("T", "L", zzM{"constraints": zzM{"naming_constraints": zzM{"excluded": []string{"." + zzID("L")[8:]}}}})
	if c := zzChains("L", nil, zzTA("T")); len(c) != 1 {
		t.Fatal("a name with a leading dot stands for the subdomains only, chains:", len(c))
	}
}
''')

seed(id="S03", prop="C04", needs="a statement with a short remaining lifetime in the cache, and a use after it expired while the network has no new one",
 breaks="Statements are kept in the cache for at least a minute, so that short-lived ones are relied upon after their expiry.",
 edits=[("trustresolver.go", "		cache.EntityStmtCacheKey(subID, issID), stmt, time.Until(stmt.ExpiresAt.Time),", "		cache.EntityStmtCacheKey(subID, issID), stmt, max(time.Until(stmt.ExpiresAt.Time), time.Minute),")],
 demo='''
import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	n := zzStart(t)
	n.ec("L", []string{"T"}, zzM{"exp": time.Now().Add(2 * time.Second).Unix()})
	if _, err := GetEntityConfiguration(zzID("L")); err != nil {
		t.Fatal(err)
	}
	n.set(zzID("L")+"/.well-known/openid-federation", 500, "text/plain", []byte("down"))
	time.Sleep(3500 * time.Millisecond)
	if s, err := GetEntityConfiguration(zzID("L")); err == nil && !s.TimeValid() {
		t.Fatal("an expired statement was returned")
	}
}
''')
