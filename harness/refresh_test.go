package zzverif

import (
	"fmt"
	nethttp "net/http"
	"slices"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	oidfed "github.com/go-oidfed/lib"
)

// ---- C06: background refresh ---------------------------------------------------------

func init() {
	setGrace := func(g time.Duration, f float64) func() {
		og, of := oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor
		oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor = g, f
		return func() { oidfed.ResolverCacheGracePeriod, oidfed.ResolverCacheLifetimeElapsedGraceFactor = og, of }
	}
	const iss, sub = "https://t.example.org", "https://l.example.org"
	outcomes := []string{"good", "404", "unreachable", "garbage", "wrong type", "wrong issuer", "wrong subject", "expired", "not yet valid", "server error", "expires sooner", "lives longer"}
	isGood := func(mode string) bool { return mode == "good" || mode == "expires sooner" || mode == "lives longer" }
	// The history of one statement: uses and waits; the endpoint behaves
	// differently from some point on.
	registry["C06"] = func(x *X) {
		x.ExploreB(
			"histories", Pick(x, 2, 3), func(c *C) {
				fetch := c.Choose(2, "subordinate statement") == 1
				life := DevOf(c, "lifetime", 10*time.Hour, 90*time.Minute, 20*time.Minute)
				age := DevOf(c, "age at first fetch", 0, 0.3, 0.7)
				grace := DevOf(c, "grace period", time.Hour, 0, 5*time.Hour, 1000*time.Hour)
				factor := DevOf(c, "elapsed factor", 0.5, 0, 0.25, 0.75, 0.9)
				slow := DevOf(c, "time a fetch takes", 0, 10*time.Second)
				n := Pick(x, 3, 4)
				c.Commit()
				defer setGrace(grace, factor)()
				defer func() {
					time.Sleep(48 * time.Hour)
					synctest.Wait()
				}()
				newMemCache()
				net := newNet()
				self := iss
				if !fetch {
					self = sub
				}
				version, mode, requests, delay := 0, "good", 0, time.Duration(0)
				var cachedExp time.Time
				type ver struct{ iat, exp time.Time }
				vers := map[string]ver{}
				serve := func(*nethttp.Request) *Resp {
					requests++
					version++
					v := fmt.Sprint("v", version)
					iat := time.Now().Add(-time.Duration(age * float64(life))).Truncate(time.Second)
					exp := iat.Add(life)
					m := mode
					// versions differ in their keys, too
					p := M{"iss": self, "sub": sub, "jwks": jwksOf([]string{"L", "L2", "L3"}[:1+version%3]...), "metadata": M{"federation_entity": M{"organization_name": v}}}
					typ := ""
					if delay > 0 {
						time.Sleep(delay)
					}
					switch m {
					case "404":
						return notFound()
					case "server error":
						return &Resp{Status: 503, CT: "text/plain", Body: []byte("no")}
					case "unreachable":
						return &Resp{Err: fmt.Errorf("unreachable")}
					case "garbage":
						return &Resp{Body: []byte("garbage")}
					case "wrong type":
						typ = "JWT"
					case "wrong issuer":
						p["iss"] = "https://other.example.org"
					case "wrong subject":
						p["sub"] = "https://other.example.org"
					case "expired":
						iat, exp = iat.Add(-3*life), exp.Add(-2*life)
					case "not yet valid":
						iat, exp = iat.Add(2*life), exp.Add(3*life)
					case "expires sooner": // than the one it replaces
						iat = time.Now().Truncate(time.Second)
						exp = iat.Add(max(time.Until(cachedExp)/2, 2*time.Minute).Truncate(time.Second))
					case "lives longer":
						iat = time.Now().Truncate(time.Second)
						exp = iat.Add(3 * life)
					}
					p["iat"], p["exp"] = iat.Unix(), exp.Unix()
					vers[v] = ver{iat, exp}
					if typ == "" {
						typ = "entity-statement+jwt"
					}
					return &Resp{Body: signJWT("T", typ, p)}
				}
				net.set(iss+"/fetch", serve)
				net.set(sub+"/.well-known/openid-federation", serve)
				use := func() (string, error) {
					var st *oidfed.EntityStatement
					var err error
					if fetch {
						st, err = oidfed.FetchEntityStatement(iss+"/fetch", sub, iss)
					} else {
						st, err = oidfed.GetEntityConfiguration(sub)
					}
					if err != nil {
						return "", err
					}
					if st.Subject != sub || st.Issuer != self {
						return "", fmt.Errorf("statement about %q", st.Subject)
					}
					v := st.Metadata.FederationEntity.OrganizationName
					if n, err := strconv.Atoi(strings.TrimPrefix(v, "v")); err == nil && st.JWKS.Len() != 1+n%3 {
						return v, fmt.Errorf("%d keys in %s", st.JWKS.Len(), v)
					}
					return v, nil
				}
				cached, err := use()
				if err != nil || cached != "v1" {
					c.Fail("first fetch: %q, %v", cached, err)
					return
				}
				synctest.Wait()
				delay = slow
				for i := 0; i < n; i++ {
					// times that are not on a boundary: after a part of the remaining lifetime
					v := vers[cached]
					life := v.exp.Sub(v.iat)
					cachedExp = v.exp
					parts := []float64{0.101, factor - 0.011, factor + 0.011, 0.801, 0.951, 1.2}
					if g := 1 - float64(grace)/float64(life); g > 0.02 && g < 1 {
						parts = append(parts, g-0.011, g+0.011)
					}
					parts = slices.DeleteFunc(parts, func(p float64) bool { return p < 0.05 })
					k := c.Choose(len(parts)+1, "wait")
					if k == len(parts) {
						break
					}
					target := v.iat.Add(time.Duration(parts[k] * float64(life)))
					c.labels[len(c.labels)-1] = fmt.Sprintf("wait until %d%% of the lifetime", int(parts[k]*100))
					if !target.After(time.Now()) {
						if k > 0 {
							c.Discard()
						}
						target = time.Now().Add(time.Second)
					}
					time.Sleep(time.Until(target))
					mode = DevOf(c, "endpoint", outcomes...)
					before := requests
					start := time.Now()
					remaining := v.exp.Sub(start)
					elapsed := start.Sub(v.iat)
					if remaining < 0 {
						// not usable any more: fetched in the foreground
						delay = 0
						got, err := use()
						synctest.Wait()
						if requests == before {
							c.Fail("using a statement that has expired makes no request")
							return
						}
						nv := fmt.Sprint("v", version)
						c.Step("use after expiry", k, mode, got)
						if !isGood(mode) {
							if err == nil && (mode != "expired" && mode != "not yet valid") {
								c.Fail("%s is taken for a statement: %q", mode, got)
								return
							}
							if err == nil && got == cached {
								c.Fail("the statement is still used after it has expired")
								return
							}
							c.Outcome("expired, no statement")
							// a bad statement is not kept in the way of a good one
							mode = "good"
							before = requests
							got, err = use()
							if err != nil || got != fmt.Sprint("v", version) || requests == before {
								c.Fail("after a bad answer the good statement gives %q, %v", got, err)
								return
							}
							nv = got
						} else if err != nil || got != nv {
							c.Fail("fetching again gives %q, %v, should be %s", got, err, nv)
							return
						}
						c.Outcome("expired, fetched")
						delay = slow
						cached = nv
						continue
					}
					due := remaining <= grace && float64(elapsed)/float64(life) >= factor
					got, err := use()
					if time.Since(start) != 0 {
						c.Fail("using a cached statement takes %v", time.Since(start))
						return
					}
					if err != nil || got != cached {
						c.Fail("using the cached statement %s gives %q, %v", cached, got, err)
						return
					}
					synctest.Wait()
					c.Step("use", k, mode, due, got)
					if (requests > before) != due {
						c.Fail("with %v of %v remaining (%d%% elapsed; grace period %v, factor %v) %d requests were made; a re-fetch is due: %v", remaining, life, int(100*elapsed/life), grace, factor, requests-before, due)
						return
					}
					if !due {
						c.Outcome("used, not due")
						continue
					}
					nv := fmt.Sprint("v", version)
					c.Outcome("used, due, endpoint " + mode)
					if mode == "unreachable" || mode == "server error" {
						time.Sleep(3*slow + time.Minute) // tries again
						synctest.Wait()
					} else if slow > 0 {
						time.Sleep(slow + time.Second)
						synctest.Wait()
					}
					// unless both are expired by now, one of them is what is used next
					now := time.Now()
					exp := cached
					if isGood(mode) && vers[nv].exp.After(now) {
						exp = nv
					} else if !vers[cached].exp.After(now) {
						exp = ""
					}
					if exp != "" {
						mode = "404"
						delay = 0
						got, err = use()
						if err != nil || got != exp {
							c.Fail("after the re-fetch of %s (%s) the statement used is %q, %v, should be %s", cached, nv, got, err, exp)
							return
						}
						synctest.Wait()
						delay = slow
						cached = exp
					} else {
						break
					}
				}
			},
		)
		x.ExploreB(
			"together", 0, func(c *C) {
				// Statements that are due at the same time are each fetched again.
				delay := Of(c, "time a fetch takes", 0, 10*time.Second)
				type one struct {
					id   string
					used bool
					due  bool
				}
				var all []one
				for i := range Pick(x, 3, 4) {
					all = append(all, one{fmt.Sprintf("https://e%d.example.org", i), c.Choose(2, "used") == 1, Of(c, "due", true, false)})
				}
				twice := c.Choose(2, "used twice") == 1
				c.Commit()
				defer setGrace(2*time.Hour, 0.5)()
				defer func() {
					time.Sleep(48 * time.Hour)
					synctest.Wait()
				}()
				newMemCache()
				net := newNet()
				requests := make([]int, len(all))
				slow := time.Duration(0)
				for i, o := range all {
					net.set(
						o.id+"/.well-known/openid-federation", func(*nethttp.Request) *Resp {
							requests[i]++
							v := fmt.Sprint("v", requests[i])
							life := 3 * time.Hour
							if !o.due {
								life = 10 * time.Hour
							}
							iat := time.Now()
							time.Sleep(slow)
							return &Resp{
								Body: signJWT(
									"T", "entity-statement+jwt", M{
										"iss": o.id, "sub": o.id, "jwks": jwksOf("T"), "iat": iat.Unix(), "exp": iat.Add(life).Unix(),
										"metadata": M{"federation_entity": M{"organization_name": v}},
									},
								),
							}
						},
					)
				}
				use := func(i int, want ...string) bool {
					st, err := oidfed.GetEntityConfiguration(all[i].id)
					if err != nil || !slices.Contains(want, st.Metadata.FederationEntity.OrganizationName) {
						c.Fail("using statement %d gives %v, %v; it should be %v", i, jsonOf(st), err, want)
						return false
					}
					return true
				}
				for i := range all {
					if !use(i, "v1") {
						return
					}
				}
				synctest.Wait()
				time.Sleep(2 * time.Hour)
				slow = delay
				start := time.Now()
				want := []string{"v1"}
				for range map[bool]int{false: 1, true: 2}[twice] {
					for i, o := range all {
						if o.used && !use(i, want...) {
							return
						}
					}
					if delay == 0 {
						// what the first use started might have been done already
						want = append(want, "v2")
					}
				}
				if time.Since(start) != 0 {
					c.Fail("using cached statements takes %v", time.Since(start))
				}
				time.Sleep(time.Minute)
				synctest.Wait()
				for i, o := range all {
					want := []string{"v1"}
					if o.used && o.due {
						want = []string{"v2", "v3"}
						if requests[i] == 1 {
							c.Fail("statement %d is due and used together with others, but not fetched again: %v", i, all)
							return
						}
					} else if requests[i] != 1 {
						c.Fail("statement %d is fetched %d times: %v", i, requests[i], all)
						return
					}
					if !use(i, want...) {
						return
					}
				}
				c.Step("together", delay, all, twice)
				c.Outcome("used together")
			},
		)
		x.ExploreB(
			"key change", 0, func(c *C) {
				// A whole resolution triggers the refresh of the statements it uses, and
				// later resolutions see the new keys before the old statements expire.
				deep := c.Choose(2, "intermediate") == 1
				ecLife := Of(c, "configuration lifetime", 24*time.Hour, 3*time.Hour)
				ssLife := Of(c, "statement lifetime", 24*time.Hour, 3*time.Hour)
				first := Of(c, "first use after", 0.6, 0.9, 0.97)
				drop := c.Choose(3, "cached chains")
				more := c.Choose(2, "another key as well") == 1
				c.Commit()
				defer setGrace(1000*time.Hour, 0.5)()
				mc := newMemCache()
				g := map[string][]string{"L": {"T"}, "T": nil}
				if deep {
					g = map[string][]string{"L": {"I"}, "I": {"T"}, "T": nil}
				}
				f := mkFed(g)
				gen := 0
				setup := func() {
					now := time.Since(t0)
					for _, s := range f.EC {
						s.Iat, s.Exp = now, now+ecLife
					}
					for _, s := range f.SS {
						s.Iat, s.Exp = now, now+ssLife
					}
				}
				setup()
				f.install(newNet())
				as := []Anchor{{Name: "T"}}
				resolve := func() string {
					tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
					cs := tr.ResolveToValidChains()
					synctest.Wait()
					if len(cs) == 0 {
						return "none"
					}
					k, _ := cs[0][0].JWKS.Key(0)
					if k == nil {
						return "no key"
					}
					id, _ := k.KeyID()
					return id
				}
				dropChains := func() {
					mc.mu.Lock()
					for k := range mc.m {
						if strings.HasPrefix(k, "trust") {
							delete(mc.m, k)
						}
					}
					mc.mu.Unlock()
				}
				if r := resolve(); r != "kid-L" {
					c.Fail("resolution gives %q", r)
					return
				}
				short := min(ecLife, ssLife)
				time.Sleep(time.Duration(first * float64(short)))
				gen++
				keys := []string{"L2"}
				if more {
					keys = append(keys, "L3")
				}
				f.EC["L"].Key, f.EC["L"].Keys = "L2", keys
				for k, s := range f.SS {
					if k[1] == "L" {
						s.Keys = keys
					}
				}
				setup()
				if drop > 0 {
					dropChains()
				}
				if r := resolve(); r != "kid-L" {
					c.Fail("the resolution that triggers the refresh gives %q", r)
					return
				}
				if drop > 1 {
					dropChains()
				}
				both := first*float64(short)/float64(ecLife) >= 0.5 && first*float64(short)/float64(ssLife) >= 0.5
				now := resolve()
				c.Step("resolve", deep, ecLife, ssLife, first, drop, now)
				if drop == 2 && both && now != "kid-L2" {
					c.Fail("after the refresh the resolution gives %q", now)
					return
				}
				c.Outcome("resolved " + now)
				time.Sleep(24 * time.Hour)
				if r := resolve(); r != "kid-L2" && r != "none" {
					c.Fail("after a day the resolution gives %q", r)
				}
			},
		)
	}
}
