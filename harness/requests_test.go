package zzverif

import (
	"fmt"
	"io"
	nethttp "net/http"
	"net/url"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// route is a request that an operation is to make, and what is answered.
type route struct {
	url    string // with the query that the endpoint has of its own
	params url.Values
	answer func() *Resp
	hits   int
}

// reqWorld answers requests that are exactly one of those expected, and notes all others.
type reqWorld struct {
	routes []*route
	odd    []string
}

func (w *reqWorld) add(u string, params url.Values, answer func() *Resp) *route {
	r := &route{url: u, params: params, answer: answer}
	w.routes = append(w.routes, r)
	return r
}

// normValues drops empty values, which say as much as absent ones, and does not tell the order of values of one name.
func normValues(v url.Values) string {
	out := []string{}
	for k, vs := range v {
		for _, s := range vs {
			if s != "" && !(k == "limit" && s == "0") {
				out = append(out, fmt.Sprintf("%q=%q", k, s))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "&")
}

// ownQuery keeps members without a value, too.
func ownQuery(raw string) (url.Values, bool) {
	v, err := url.ParseQuery(raw)
	return v, err == nil
}

func (w *reqWorld) serve(r *nethttp.Request) *Resp {
	for _, h := range w.routes {
		u, err := url.Parse(h.url)
		if err != nil {
			panic(err)
		}
		if r.URL.Scheme != u.Scheme || r.URL.Host != u.Host || (r.URL.EscapedPath() != u.EscapedPath() && !(u.Path == "" && r.URL.Path == "/")) {
			continue
		}
		want, _ := ownQuery(u.RawQuery)
		if want == nil {
			want = url.Values{}
		}
		for k, vs := range h.params {
			want[k] = append(append([]string{}, want[k]...), vs...)
		}
		got, ok := ownQuery(r.URL.RawQuery)
		if !ok || normValues(got) != normValues(want) {
			continue
		}
		if r.Method != nethttp.MethodGet || r.Host != "" && r.Host != u.Host {
			continue
		}
		if r.Body != nil {
			if b, _ := io.ReadAll(r.Body); len(b) > 0 {
				continue
			}
		}
		if r.Header.Get("Authorization") != "" || r.Header.Get("Cookie") != "" {
			continue
		}
		h.hits++
		resp := *h.answer()
		if resp.Hdr == nil {
			// cookies must not come back
			resp.Hdr = map[string]string{"Set-Cookie": "session=abc; Path=/"}
		}
		return &resp
	}
	w.odd = append(w.odd, fmt.Sprintf("%s %s %s", r.Method, r.URL, normValues(url.Values(r.Header))))
	return notFound()
}

const ecSuffix = "/.well-known/openid-federation"

func ecURL(id string) string { return strings.TrimSuffix(id, "/") + ecSuffix }

func (w *reqWorld) config(id, key string, extra M) *route {
	now := time.Now()
	p := M{"iss": id, "sub": id, "iat": now.Add(-time.Minute).Unix(), "exp": now.Add(24 * time.Hour).Unix(), "jwks": jwksOf(key)}
	for k, v := range extra {
		p[k] = v
	}
	return w.add(ecURL(id), nil, func() *Resp { return &Resp{Body: signJWT(key, "entity-statement+jwt", p)} })
}

func (w *reqWorld) statement(endpoint, iss, sub, key, subKey string) *route {
	now := time.Now()
	p := M{"iss": iss, "sub": sub, "iat": now.Add(-time.Minute).Unix(), "exp": now.Add(24 * time.Hour).Unix(), "jwks": jwksOf(subKey)}
	return w.add(endpoint, url.Values{"sub": {sub}}, func() *Resp { return &Resp{Body: signJWT(key, "entity-statement+jwt", p)} })
}

// oddPaths are ends of identifiers.
var oddPaths = []string{
	"", "/", "/x", "/x/", ":8443", ":8443/x", "/a%2Fb", "/a%20b", "/ä", "/a+b", "/a;b=c", "/a@b:c", "/a&b=c", "/X", "/a,b", "/a'b", "/a%3Fb",
	"/a%26b", "/a%23b", "/.well-known/openid-federation", "/{sub}", "/x//y", "/x/y", "/%C3%A4", "/a=b", "/~u", "/a$b", "/x%2F",
	"/./x", "/a*b(c)",
}

var oddEnds = []string{
	"/fetch", "/fetch/", "/fetch?x=1", "/fetch?x=1&y=a%26b", "/fetch?", "/a%2Ffetch", "?x=1", "/fetch?x=a+b", "/fetch?x=1&x=2", "", "/",
	"/fetch?x=%C3%A4", "/{sub}/fetch", "/fetch?x={sub}", "/fetch?a=%2B", "/fetch;p=1", ":8443/fetch", "/x y?z=1", "/fetch?x=a%3Db", "/ä",
}

var oddTexts = []string{
	"openid_provider", "x y&z=1", "a+b", "ü", "a=b", "100%", "a%26b", "a#b", "a?b", "https://x.example.org/t?x=1&y=2#z", "a;b", "a,b", "'\"<>", "a/b", "{sub}",
}

// exploreRequests makes every kind of request with every kind of identifier, endpoint and parameter.
func exploreRequests(x *X, bound int) {
	const host = "https://l.example.org"
	sel := func(c *C, label, prefix string, alts []string) string {
		i := c.Dev(len(alts), label)
		c.labels[len(c.labels)-1] = label + "=" + alts[i]
		return prefix + alts[i]
	}
	x.ExploreB(
		"requests", bound, func(c *C) {
			op := Of(c, "operation", "configuration", "statement", "chain", "trust mark", "collection", "remote resolution", "remote collection")
			id := ""
			switch op {
			case "statement", "trust mark":
				// no location, only a parameter
				id = sel(c, "identifier", host, append(oddPaths[:len(oddPaths):len(oddPaths)], "?a=b&sub=c", "#f", "/?x=1#y", " ", "/a b", "/100%", "\n", "/+ +"))
			case "remote resolution", "remote collection":
			default:
				id = sel(c, "identifier", host, oddPaths)
			}
			other, end := "", ""
			if op != "configuration" {
				end = sel(c, "endpoint", "https://t.example.org", oddEnds)
			}
			if op == "chain" || op == "statement" || op == "trust mark" {
				other = sel(c, "issuer", "https://t.example.org", oddPaths)
			}
			text := ""
			if op == "trust mark" {
				text = sel(c, "type", "", oddTexts)
			}
			var rr apimodel.ResolveRequest
			var cr apimodel.EntityCollectionRequest
			texts := func(label string) (out []string) {
				switch v := c.Dev(2+len(oddTexts), label); {
				case v == 0:
				case v == 1:
					out = []string{"b", "a", "b c"}
				default:
					out = oddTexts[v-2 : v-1]
				}
				c.labels[len(c.labels)-1] = fmt.Sprintf("%s=%q", label, out)
				return
			}
			switch op {
			case "remote resolution":
				rr.Subject = sel(c, "subject", host, append(oddPaths[:len(oddPaths):len(oddPaths)], "?a=b&sub=c", "#f", "/?x=1#y", "/a b", "/100%"))
				rr.TrustAnchor = []string{sel(c, "anchor", "https://t.example.org", oddPaths)}
				if c.Dev(2, "another anchor") == 1 {
					rr.TrustAnchor = append(rr.TrustAnchor, "https://b.example.org/?x=1&y")
				}
				rr.EntityTypes = texts("entity types")
			case "remote collection":
				cr.TrustAnchor = sel(c, "anchor", "https://t.example.org", oddPaths)
				cr.EntityTypes, cr.TrustMarkTypes, cr.Claims = texts("entity types"), texts("trust mark types"), texts("claims")
				cr.NameQuery = strings.Join(texts("name query"), " ")
			}
			c.Commit()
			defer noRefresh()()
			newMemCache()
			w := &reqWorld{}
			newNet().All = w.serve
			once := func(rs ...*route) bool {
				for _, r := range rs {
					if r.hits != 1 {
						c.Fail("%s: %d requests to %s with %v; others: %v", c.labels, r.hits, r.url, r.params, w.odd)
						return false
					}
				}
				if len(w.odd) > 0 {
					c.Fail("%s: other requests: %v", c.labels, w.odd)
					return false
				}
				return true
			}
			authority := func(id, end string) M {
				return M{"metadata": M{"federation_entity": M{"federation_fetch_endpoint": end, "federation_list_endpoint": end, "federation_trust_mark_endpoint": end}}}
			}
			c.Step(op, c.labels)
			switch op {
			case "configuration":
				r := w.config(id, "L", nil)
				st, err := oidfed.GetEntityConfiguration(id)
				if !once(r) {
					return
				}
				if err != nil || st.Subject != id {
					c.Fail("%s: %v, %v", c.labels, st, err)
				}
			case "statement":
				if sameRequest(id, other) {
					c.Discard()
				}
				r := w.statement(end, other, id, "T", "L")
				st, err := oidfed.FetchEntityStatement(end, id, other)
				if !once(r) {
					return
				}
				if err != nil || st.Subject != id || st.Issuer != other {
					c.Fail("%s: %v, %v", c.labels, st, err)
				}
			case "chain":
				rs := []*route{
					w.config(id, "L", M{"authority_hints": []any{other}, "metadata": leafMd()}), w.config(other, "T", authority(other, end)),
					w.statement(end, other, id, "T", "L"),
				}
				tr := oidfed.TrustResolver{TrustAnchors: oidfed.TrustAnchors{{EntityID: other, JWKS: libJWKS("T")}}, StartingEntity: id}
				cs := tr.ResolveToValidChains()
				if !once(rs...) {
					return
				}
				if len(cs) != 1 || cs[0][0].Subject != id || cs[0][1].Issuer != other {
					c.Fail("%s: %d chains", c.labels, len(cs))
				}
			case "trust mark":
				ec := w.config(other, "T", authority(other, end))
				now := time.Now()
				p := M{"iss": other, "sub": id, "trust_mark_type": text, "iat": now.Add(-time.Minute).Unix(), "exp": now.Add(24 * time.Hour).Unix()}
				r := w.add(end, url.Values{"sub": {id}, "trust_mark_type": {text}}, func() *Resp {
					return &Resp{CT: "application/trust-mark+jwt", Body: signJWT("T", "trust-mark+jwt", p)}
				})
				cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: text, TrustMarkIssuer: other}
				if err := cfg.Verify(id, id+"/tm", oidfed.NewTrustMarkSigner(edKey("L"), jwa.EdDSA())); err != nil {
					c.Fail("%s: %v", c.labels, err)
					return
				}
				j, err := cfg.TrustMarkJWT()
				if !once(ec, r) {
					return
				}
				if err != nil || j == "" {
					c.Fail("%s: %q, %v", c.labels, j, err)
				}
			case "collection":
				anchor := "https://t.example.org/anchor"
				rs := []*route{
					w.config(anchor, "T", authority(anchor, end)), w.config(id, "L", M{"authority_hints": []any{anchor}, "metadata": leafMd()}),
					w.add(end, nil, func() *Resp { return jsonResp(200, []string{id}) }),
				}
				es := (&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: anchor})
				if rs[0].hits == 0 || rs[1].hits == 0 || rs[2].hits != 1 || len(w.odd) > 0 {
					c.Fail("%s: %d, %d, %d requests; others: %v", c.labels, rs[0].hits, rs[1].hits, rs[2].hits, w.odd)
					return
				}
				if len(es) != 1 || es[0].EntityID != id {
					c.Fail("%s: %s", c.labels, jsonOf(es))
				}
			case "remote resolution":
				now := time.Now()
				r := w.add(end, url.Values{"sub": {rr.Subject}, "trust_anchor": rr.TrustAnchor, "entity_type": rr.EntityTypes}, func() *Resp {
					return &Resp{CT: "application/resolve-response+jwt", Body: signJWT("T", "resolve-response+jwt", M{
						"iss": "https://t.example.org", "sub": rr.Subject, "iat": now.Unix(), "exp": now.Add(time.Hour).Unix(), "metadata": leafMd(),
					})}
				})
				m, err := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: end}.Resolve(rr)
				if !once(r) {
					return
				}
				if err != nil || m == nil || m.RelyingParty == nil {
					c.Fail("%s: %v, %v", c.labels, m, err)
				}
			case "remote collection":
				r := w.add(
					end, url.Values{
						"trust_anchor": {cr.TrustAnchor}, "entity_type": cr.EntityTypes, "trust_mark_type": cr.TrustMarkTypes, "claims": cr.Claims,
						"name_query": {cr.NameQuery},
					}, func() *Resp { return jsonResp(200, M{"federation_entities": []any{M{"entity_id": host}}}) },
				)
				es := oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: end}.CollectEntities(cr)
				if !once(r) {
					return
				}
				if len(es) != 1 || es[0].EntityID != host {
					c.Fail("%s: %s", c.labels, jsonOf(es))
				}
			}
			synctest.Wait()
			c.Outcome(op)
		},
	)
}

// sameRequest: two identifiers that name one location.
func sameRequest(a, b string) bool {
	return strings.TrimSuffix(a, "/") == strings.TrimSuffix(b, "/")
}

// exploreRequestPairs: requests for similar identifiers follow each other; each gets its own answer.
func exploreRequestPairs(x *X) {
	ids := []string{}
	for _, h := range []string{"https://l.example.org", "https://L.example.org", "http://l.example.org", "https://l.example.or"} {
		for i, p := range oddPaths {
			if h == "https://l.example.org" || i < Pick(x, 6, 12) {
				ids = append(ids, h+p)
			}
		}
	}
	ids = append(ids, "https://l.example.org:443", "https://l.example.org.", "https://l.example.org/x:https://t.example.org", "https://l.example.org/x|https://t.example.org")
	x.ExploreB(
		"similar identifiers", 0, func(c *C) {
			a, b := c.Choose(len(ids), "first"), c.Choose(len(ids), "second")
			op := Of(c, "operation", "configuration", "statement about", "statement by", "resolution")
			c.labels[0], c.labels[1] = "first="+ids[a], "second="+ids[b]
			c.Commit()
			if a == b {
				c.Discard()
			}
			defer noRefresh()()
			newMemCache()
			w := &reqWorld{}
			newNet().All = w.serve
			const end = "https://t.example.org/fetch"
			for round, id := range []string{ids[a], ids[b], ids[a], ids[b]} {
				w.routes = nil
				var st *oidfed.EntityStatement
				var err error
				switch op {
				case "configuration":
					w.config(id, "L", nil)
					st, err = oidfed.GetEntityConfiguration(id)
					if err == nil && (st.Subject != id || st.Issuer != id) {
						err = fmt.Errorf("configuration of %s", st.Subject)
					}
				case "statement about":
					w.statement(end, "https://t.example.org", id, "T", "L")
					st, err = oidfed.FetchEntityStatement(end, id, "https://t.example.org")
					if err == nil && (st.Subject != id || st.Issuer != "https://t.example.org") {
						err = fmt.Errorf("statement about %s", st.Subject)
					}
				case "statement by":
					w.statement(end, id, "https://m.example.org", "T", "L")
					st, err = oidfed.FetchEntityStatement(end, "https://m.example.org", id)
					if err == nil && (st.Issuer != id || st.Subject != "https://m.example.org") {
						err = fmt.Errorf("statement by %s", st.Issuer)
					}
				case "resolution":
					const ta = "https://t.example.org"
					w.config(id, "L", M{"authority_hints": []any{ta}, "metadata": leafMd()})
					w.config(ta, "T", M{"metadata": M{"federation_entity": M{"federation_fetch_endpoint": end}}})
					w.statement(end, ta, id, "T", "L")
					tr := oidfed.TrustResolver{TrustAnchors: oidfed.TrustAnchors{{EntityID: ta}}, StartingEntity: id}
					cs := tr.ResolveToValidChains()
					if len(cs) != 1 || cs[0][0].Subject != id || cs[0][1].Subject != id {
						err = fmt.Errorf("%d chains", len(cs))
					}
				}
				c.Step(op, id, round)
				if err != nil || len(w.odd) > 0 {
					c.Fail("%s of %s after %s: %v; unexpected requests: %v", op, id, ids[a], err, w.odd)
					return
				}
			}
			c.Outcome(op)
		},
	)
}

// exploreEndpointPairs: the listings at similar endpoints are not mixed up.
func exploreEndpointPairs(x *X) {
	x.ExploreB(
		"similar endpoints", 0, func(c *C) {
			ends := append(oddEnds[:len(oddEnds):len(oddEnds)], "/Fetch", "/fetch?x=2", "/fetch?X=1", "/fetch?x=1&x=3", "?x=2", "/fetch?y=1")
			a, b := c.Choose(len(ends), "first"), c.Choose(len(ends), "second")
			c.labels[0], c.labels[1] = "first="+ends[a], "second="+ends[b]
			c.Commit()
			bare := func(e string) string { return strings.TrimSuffix(strings.TrimSuffix(e, "?"), "/") }
			if a == b || bare(ends[a]) == bare(ends[b]) {
				c.Discard()
			}
			defer noRefresh()()
			newMemCache()
			w := &reqWorld{}
			newNet().All = w.serve
			for i, e := range []string{ends[a], ends[b]} {
				anchor, id, end := fmt.Sprint("https://t.example.org/anchor", i), fmt.Sprint("https://l.example.org/", i), "https://t.example.org"+e
				w.config(anchor, "T", M{"metadata": M{"federation_entity": M{"federation_list_endpoint": end}}})
				w.config(id, "L", M{"authority_hints": []any{anchor}, "metadata": leafMd()})
				w.add(end, nil, func() *Resp { return jsonResp(200, []string{id}) })
			}
			for round := range 4 {
				i := round % 2
				es := (&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: fmt.Sprint("https://t.example.org/anchor", i)})
				c.Step("collect", c.labels, round)
				if len(es) != 1 || es[0].EntityID != fmt.Sprint("https://l.example.org/", i) || len(w.odd) > 0 {
					c.Fail("round %d: collected %s; other requests: %v", round, jsonOf(es), w.odd)
					return
				}
			}
			synctest.Wait()
			c.Outcome("collected")
		},
	)
}

// exploreStatementParts: statements whose identifiers, written after each other, read the same.
func exploreStatementParts(x *X) {
	seps := []string{"", ":", "::", "|", " ", ",", "/", "#", "?", "&", "=", "-", "_", ".", "\x00", "\n", "%", "+", ";"}
	x.ExploreB(
		"identifiers in parts", 0, func(c *C) {
			p := Of(c, "parts", []string{"https://a.example.org", "https://b.example.org", "https://c.example.org"}, []string{"https://a.example.org/", "https://a.example.org", "https://a.example.org"},
				[]string{"https://a.example.org/x", "y", "https://c.example.org"}, []string{"https://a.example.org", "https://a.example.org", "https://a.example.org/z"})
			i := c.Choose(len(seps), "separator")
			swap := Of(c, "kind", "joined", "swapped")
			c.Commit()
			defer noRefresh()()
			newMemCache()
			w := &reqWorld{}
			newNet().All = w.serve
			const end = "https://t.example.org/fetch"
			s := seps[i]
			pairs := [][2]string{{p[0], p[1] + s + p[2]}, {p[0] + s + p[1], p[2]}}
			if swap == "swapped" {
				pairs = [][2]string{{p[0] + s + p[1], p[2]}, {p[2], p[0] + s + p[1]}}
			}
			for round := range 4 {
				q := pairs[round%2]
				w.routes = nil
				w.statement(end, q[1], q[0], "T", "L")
				st, err := oidfed.FetchEntityStatement(end, q[0], q[1])
				c.Step("statement", q, round)
				if err != nil || st.Subject != q[0] || st.Issuer != q[1] || len(w.odd) > 0 {
					c.Fail("statement about %q by %q: %v, %v; unexpected requests: %v", q[0], q[1], jsonOf(st), err, w.odd)
					return
				}
			}
			c.Outcome("fetched")
		},
	)
}

func init() {
	registry["C27"] = func(x *X) {
		exploreRequests(x, Pick(x, 3, 4))
		exploreEndpointPairs(x)
		exploreRequestPairs(x)
		exploreStatementParts(x)
	}
}
