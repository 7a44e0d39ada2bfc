package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	nethttp "net/http"
	"net/url"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// C18: remote resolvers and collectors. The OP L below the trust anchors T and
// U, each of which may publish resolve and collection endpoints that behave in
// different ways.

// rmBehaviour is what a remote endpoint does.
type rmBehaviour struct {
	name   string
	answer any    // the answer's payload or document, nil if there is none
	verdct string // what ResolvePossible may conclude: yes, no, "" nothing, any
	resp   func(again int) *Resp
}

func rmResolvePayload(f *Fed, ta string, more ...any) M {
	return with(
		M{
			"iss": f.ID(ta), "sub": f.ID("L"), "iat": t0.Add(-time.Minute).Unix(), "exp": t0.Add(time.Hour).Unix(),
			"metadata": M{
				"openid_provider": M{"issuer": f.ID("L"), "x_from": ta, "scopes_supported": l("openid"), "claims_parameter_supported": false},
				"x_type":          M{"p": l("q"), "n": 0.0},
			},
			"trust_marks": []any{M{"trust_mark_type": tmType, "trust_mark": "a.b.c", "x": 1.0}},
			"x_member":    M{"a": []any{1.0, nil}},
		}, more...,
	)
}

const rrTyp = "resolve-response+jwt"

func rmErrors() []string {
	return []string{
		"invalid_request", "invalid_client", "invalid_issuer", "invalid_subject", "invalid_trust_anchor", "invalid_trust_chain", "invalid_metadata", "not_found", "server_error",
		"temporarily_unavailable", "unsupported_parameter", "x_error", "",
	}
}

// rmFaults are answers that are none, whatever the endpoint.
func rmFaults(good func() *Resp) []rmBehaviour {
	out := []rmBehaviour{
		{name: "refused", resp: func(int) *Resp { return &Resp{Err: errors.New("refused")} }},
		{name: "broken off", resp: func(int) *Resp { r := *good(); r.BodyErr = errors.New("reset"); return &r }},
		{name: "500 without document", resp: func(int) *Resp { return &Resp{Status: 500, CT: "text/plain"} }},
		{name: "404 html", resp: func(int) *Resp { return &Resp{Status: 404, CT: "text/html", Body: []byte("<html>")} }},
		{name: "500 with the answer", resp: func(int) *Resp { r := *good(); r.Status = 500; return &r }},
		{name: "400 with the answer", resp: func(int) *Resp { r := *good(); r.Status = 400; return &r }},
		{name: "503 json null", resp: func(int) *Resp { return &Resp{Status: 503, CT: "application/json", Body: []byte("null")} }},
		{name: "400 bad json", resp: func(int) *Resp { return &Resp{Status: 400, CT: "application/json", Body: []byte("{")} }},
		{name: "error with 200", resp: func(int) *Resp { return jsonResp(200, M{"error": "invalid_trust_chain"}) }},
		{name: "empty", resp: func(int) *Resp { return &Resp{CT: "application/json"} }},
		{name: "204", resp: func(int) *Resp { return &Resp{Status: 204} }},
		{name: "html", resp: func(int) *Resp { return &Resp{CT: "text/html", Body: []byte("<html>")} }},
		{name: "json null", resp: func(int) *Resp { return &Resp{CT: "application/json", Body: []byte("null")} }},
		{name: "json {}", resp: func(int) *Resp { return jsonResp(200, M{}) }},
		{name: "redirected forever", resp: func(int) *Resp { return &Resp{Status: 302, Hdr: map[string]string{"Location": "self"}} }},
		{name: "unreadable redirect", resp: func(int) *Resp { return &Resp{Status: 302, Hdr: map[string]string{"Location": "::"}} }},
	}
	for _, e := range rmErrors() {
		for _, st := range []int{400, 404} {
			b := rmBehaviour{name: fmt.Sprint(st, " ", e), resp: func(int) *Resp { return jsonResp(st, M{"error": e, "error_description": "d"}) }}
			switch e {
			case "invalid_trust_chain":
				b.verdct = "no"
			case "invalid_metadata":
				b.verdct = "any"
			}
			out = append(out, b)
		}
	}
	return out
}

// rmResolve lists the behaviours of ta's resolve endpoint.
func rmResolve(f *Fed, ta string) []rmBehaviour {
	good := rmResolvePayload(f, ta)
	serve := func(p any) func(int) *Resp {
		return func(int) *Resp { return &Resp{CT: "application/" + rrTyp, Body: signJWT(ta, rrTyp, p)} }
	}
	yes := func(name string, p M) rmBehaviour {
		return rmBehaviour{name: name, answer: p, verdct: "yes", resp: serve(p)}
	}
	bad := func(name string, p any) rmBehaviour { return rmBehaviour{name: name, resp: serve(p)} }
	raw := func(name, typ, p string) rmBehaviour {
		return rmBehaviour{name: name, resp: func(int) *Resp { return &Resp{CT: "application/" + rrTyp, Body: signRaw(ta, typ, []byte(p))} }}
	}
	noExp := with(good)
	delete(noExp, "exp")
	out := []rmBehaviour{
		yes("good", good), yes("minimal", with(M{}, "iss", f.ID(ta), "sub", f.ID("L"), "iat", good["iat"], "exp", good["exp"], "metadata", M{"openid_provider": M{"x_from": ta}})),
		yes("no exp", noExp), yes("aud", with(good, "aud", "https://x", "trust_chain", l(string(signJWT("L", esTyp, M{})), string(signJWT(ta, esTyp, M{}))))),
		{name: "redirected", answer: good, verdct: "yes", resp: func(int) *Resp { return &Resp{Status: 302, Hdr: map[string]string{"Location": f.ID(ta) + "/good"}} }},
		bad("about another", with(good, "sub", f.ID("T"))), bad("about nobody", with(good, "sub", "")), bad("expired", with(good, "exp", t0.Add(-time.Second).Unix())),
		bad("long expired", with(good, "iat", 1, "exp", 2)), bad("metadata list", with(good, "metadata", []any{1})), bad("exp text", with(good, "exp", "x")),
		raw("wrong type", esTyp, jsonOf(good)), raw("no type", "", jsonOf(good)), raw("payload null", rrTyp, "null"), raw("payload {}", rrTyp, "{}"), raw("payload []", rrTyp, "[]"),
		raw("payload text", rrTyp, "x"),
		{name: "bare json", resp: func(int) *Resp { return jsonResp(200, good) }},
		{name: "cut", resp: func(int) *Resp { b := signJWT(ta, rrTyp, good); return &Resp{Body: b[:len(b)/2]} }},
	}
	return append(out, rmFaults(func() *Resp { return &Resp{CT: "application/" + rrTyp, Body: signJWT(ta, rrTyp, good)} })...)
}

// rmCollect lists the behaviours of ta's collection endpoint.
func rmCollect(f *Fed, ta string) []rmBehaviour {
	e1 := M{
		"entity_id": f.ID("L"), "entity_types": l("openid_provider"), "trust_marks": []any{M{"trust_mark_type": tmType, "trust_mark": "a.b.c"}},
		"ui_infos": M{"openid_provider": M{"display_name": "n", "keywords": l("k"), "x_info": ta}}, "x_from": ta,
	}
	doc := func(es ...any) M { return M{"federation_entities": append([]any{}, es...), "last_updated": 5.0} }
	good := doc(M{"entity_id": f.ID("Z"), "x_from": ta}, e1)
	yes := func(name string, d M) rmBehaviour {
		return rmBehaviour{name: name, answer: d, resp: func(int) *Resp { return jsonResp(200, d) }}
	}
	bad := func(name string, d any) rmBehaviour {
		return rmBehaviour{name: name, resp: func(int) *Resp { return jsonResp(200, d) }}
	}
	out := []rmBehaviour{
		yes("good", good), yes("one", doc(e1)), yes("none", doc()), yes("next", with(good, "next_entity_id", "x", "x_member", 1.0)),
		{name: "null in between", answer: good, resp: func(int) *Resp { return jsonResp(200, doc(nil, M{"entity_id": f.ID("Z"), "x_from": ta}, nil, e1)) }},
		{name: "redirected", answer: good, resp: func(int) *Resp { return &Resp{Status: 302, Hdr: map[string]string{"Location": f.ID(ta) + "/goodc"}} }},
		bad("without list", M{"last_updated": 5}), bad("list null", M{"federation_entities": nil}), bad("list text", M{"federation_entities": "x"}),
		bad("an entity is text", M{"federation_entities": []any{e1, "x"}}), bad("an id is a number", M{"federation_entities": []any{e1, M{"entity_id": 5}}}), bad("a bare list", []any{e1}),
	}
	return append(out, rmFaults(func() *Resp { return jsonResp(200, good) })...)
}

// rmWorld is the federation of C18.
func rmWorld(md map[string]M, local string) *Fed {
	f := newFed()
	f.entity("L", M{"openid_provider": M{"issuer": f.ID("L"), "x_from": "local"}}, "T", "U")
	for _, ta := range []string{"T", "U"} {
		f.entity(ta, md[ta])
		if strings.Contains(local, ta) {
			f.sub(ta, "L")
		} else {
			f.List[ta] = nil
		}
	}
	return f
}

// rmPublish lists the ways a trust anchor publishes its endpoints.
var rmPublish = []string{"published", "no endpoint", "no federation_entity", "no metadata", "not fetchable"}

func rmMd(f func(string) string, ta, pub string) M {
	fe := M{
		"federation_fetch_endpoint": f(ta) + "/fetch", "federation_list_endpoint": f(ta) + "/list", "federation_resolve_endpoint": f(ta) + "/resolve",
		"federation_collection_endpoint": f(ta) + "/collect",
	}
	switch pub {
	case "no endpoint":
		delete(fe, "federation_resolve_endpoint")
		delete(fe, "federation_collection_endpoint")
	case "no federation_entity":
		return M{"openid_relying_party": M{"client_name": "x"}}
	case "no metadata":
		return nil
	}
	return M{"federation_entity": fe}
}

func rmServe(n *Net, u string, b rmBehaviour, log *[]string) {
	calls := 0
	n.set(
		u, func(r *nethttp.Request) *Resp {
			calls++
			*log = append(*log, r.URL.RawQuery)
			return b.resp(calls)
		},
	)
}

// noEmpty drops empty members, which may be written out or not (C19).
func noEmpty(v any) any {
	switch t := v.(type) {
	case map[string]any:
		out := M{}
		for k, e := range t {
			e = noEmpty(e)
			switch d := e.(type) {
			case nil:
				continue
			case string:
				if d == "" {
					continue
				}
			case []any:
				if len(d) == 0 {
					continue
				}
			case map[string]any:
				if len(d) == 0 {
					continue
				}
			}
			out[k] = e
		}
		return out
	case []any:
		out := []any{}
		for _, e := range t {
			out = append(out, noEmpty(e))
		}
		return out
	}
	return v
}

func sameJSON(a, b any) bool { return reflect.DeepEqual(noEmpty(generic(a)), noEmpty(generic(b))) }

func sortedQuery(raw string) string {
	v, err := url.ParseQuery(raw)
	if err != nil {
		return "unreadable: " + raw
	}
	for k, vs := range v {
		if len(vs) == 1 && (vs[0] == "" || vs[0] == "0") {
			delete(v, k)
			continue
		}
		sort.Strings(vs)
	}
	return v.Encode()
}

type rmState struct {
	pub map[string]string
	beh map[string]rmBehaviour
}

// rmRedundant behaviours are left out for the second trust anchor in quick.
func rmRedundant(name string) bool {
	switch name {
	case "400 invalid_trust_chain", "400 invalid_metadata", "400 not_found", "404 ", "400 bad json":
		return false
	}
	return strings.HasPrefix(name, "40") || strings.HasPrefix(name, "payload") || strings.HasPrefix(name, "50") || strings.HasPrefix(name, "json") || name == "204" || name == "long expired" ||
		name == "no type" || name == "unreadable redirect"
}

// rmConfig chooses how the trust anchors behave.
func rmConfig(c *C, tas []string, behaviours func(f *Fed, ta string) []rmBehaviour) rmState {
	st := rmState{pub: map[string]string{}, beh: map[string]rmBehaviour{}}
	f := newFed()
	for i, ta := range tas {
		bs := behaviours(f, ta)
		if i > 0 && !c.x.Thorough() {
			bs = slices.DeleteFunc(bs, func(b rmBehaviour) bool { return rmRedundant(b.name) })
		}
		i := c.Choose(len(bs)+len(rmPublish)-1, "behaviour of "+ta)
		if i < len(bs) {
			st.pub[ta], st.beh[ta] = "published", bs[i]
		} else {
			st.pub[ta], st.beh[ta] = rmPublish[i-len(bs)+1], bs[0]
		}
	}
	return st
}

func (st rmState) install(tas []string, local string) (*Fed, *Net, map[string]*[]string) {
	id := newFed().ID
	mds := map[string]M{}
	for _, ta := range []string{"T", "U"} {
		pub := st.pub[ta]
		if pub == "" {
			pub = "no endpoint"
		}
		mds[ta] = rmMd(id, ta, pub)
	}
	f := rmWorld(mds, local)
	n := newNet()
	n.Budget = 3000
	logs := map[string]*[]string{"T": {}, "U": {}}
	f.install(n)
	for _, ta := range tas {
		if st.pub[ta] == "not fetchable" {
			n.set(f.ID(ta)+"/.well-known/openid-federation", func(*nethttp.Request) *Resp { return jsonResp(500, M{"error": "server_error"}) })
		}
		n.set(f.ID(ta)+"/good", func(*nethttp.Request) *Resp {
			return &Resp{CT: "application/" + rrTyp, Body: signJWT(ta, rrTyp, rmResolvePayload(f, ta))}
		})
		n.set(f.ID(ta)+"/goodc", func(*nethttp.Request) *Resp { return jsonResp(200, rmCollect(f, ta)[0].answer) })
	}
	return f, n, logs
}

var rmTAs = [][]string{{"T"}, {"T", "U"}, {"U", "T"}, {}}

func exploreRemoteResolve(x *X) {
	x.ExploreB(
		"resolve", 99, func(c *C) {
			tas := rmTAs[c.Choose(len(rmTAs), "trust anchors")]
			st := rmConfig(c, tas, rmResolve)
			local := Of(c, "local resolution over", "TU", "T", "U", "")
			types := Of(c, "entity types", nil, []string{"openid_provider"}, []string{"openid_provider", "x y&z=1"})
			if len(tas) == 2 && types != nil && !x.Thorough() {
				c.Discard()
			}
			c.Commit()
			newMemCache()
			f, n, logs := st.install(tas, local)
			for _, ta := range tas {
				rmServe(n, f.ID(ta)+"/resolve", st.beh[ta], logs[ta])
			}
			req := apimodel.ResolveRequest{Subject: f.ID("L"), EntityTypes: types}
			for _, ta := range tas {
				req.TrustAnchor = append(req.TrustAnchor, f.ID(ta))
			}
			wantQuery := url.Values{"sub": {req.Subject}}
			for _, t := range req.TrustAnchor {
				wantQuery.Add("trust_anchor", t)
			}
			for _, t := range types {
				wantQuery.Add("entity_type", t)
			}
			reqJSON := jsonOf(req)
			show := func(p any, err error) string {
				if err != nil {
					return "error"
				}
				return short(p)
			}
			payload := func(a any) M {
				p := with(a.(M))
				for _, k := range []string{"iss", "sub", "iat", "exp", "aud"} {
					delete(p, k)
				}
				return p
			}
			localP, localErr := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
			localYes, localNo := oidfed.LocalMetadataResolver{}.ResolvePossible(req)
			// by itself
			expect := func(who string, want any, wantErr bool, p oidfed.ResolveResponsePayload, perr error, md *oidfed.Metadata, merr error) {
				if wantErr {
					if perr == nil || merr == nil {
						c.Fail("%s: %s and %s instead of errors", who, show(p, perr), show(md, merr))
					}
					if md != nil || len(p.TrustMarks)+len(p.TrustChain)+len(p.Extra) > 0 || p.Metadata != nil {
						c.Fail("%s: an error along with %s %s", who, short(p), short(md))
					}
					return
				}
				w := generic(want).(M)
				if perr != nil || !sameJSON(p, w) {
					c.Fail("%s: the payload is %s (%v) instead of %s", who, jsonOf(p), perr, jsonOf(w))
				}
				if merr != nil || !sameJSON(md, w["metadata"]) {
					c.Fail("%s: the metadata is %s (%v) instead of %s", who, show(md, merr), merr, short(w["metadata"]))
				}
			}
			for _, ta := range tas {
				b := st.beh[ta]
				r := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: f.ID(ta) + "/resolve"}
				p, perr := r.ResolveResponsePayload(req)
				md, merr := r.Resolve(req)
				var want any
				if b.answer != nil {
					want = payload(b.answer)
				}
				expect("remote "+b.name, want, b.answer == nil, p, perr, md, merr)
				if b.answer != nil {
					rr, _, err := r.ResolveResponse(req)
					got, _ := generic(rr).(M)
					if got != nil && b.answer.(M)["exp"] == nil {
						delete(got, "exp")
					}
					if err != nil || !sameJSON(got, b.answer) {
						c.Fail("remote %s: the answer is %s (%v) instead of %s", b.name, jsonOf(rr), err, jsonOf(b.answer))
					}
				}
				yes, no := r.ResolvePossible(req)
				switch {
				case yes && no, b.verdct == "yes" && !yes, b.verdct == "no" && !no, b.verdct == "" && (yes || no):
					c.Fail("remote %s: possible %t, impossible %t", b.name, yes, no)
				}
				for _, q := range *logs[ta] {
					if sortedQuery(q) != sortedQuery(wantQuery.Encode()) {
						c.Fail("the remote endpoint was asked %s instead of %s", sortedQuery(q), sortedQuery(wantQuery.Encode()))
					}
				}
				if len(*logs[ta]) == 0 {
					c.Fail("the remote endpoint was not asked")
				}
				*logs[ta] = nil
			}
			// with fallback
			want, wantErr, from := any(localP), localErr != nil, "local"
			verdicts := map[string]bool{}
			decided, answered := false, false
			for _, ta := range tas {
				if st.pub[ta] != "published" {
					continue
				}
				b := st.beh[ta]
				if b.answer != nil && !answered {
					want, wantErr, from, answered = payload(b.answer), false, ta, true
				}
				if decided {
					continue
				}
				switch b.verdct {
				case "yes":
					verdicts["yes"], decided = true, true
				case "no":
					verdicts["no"], decided = true, true
				case "any":
					verdicts["yes"] = true
				}
			}
			if !decided {
				switch {
				case localYes:
					verdicts["yes"] = true
				case localNo:
					verdicts["no"] = true
				}
			}
			smart := oidfed.SmartRemoteMetadataResolver{}
			for range 2 {
				p, perr := smart.ResolveResponsePayload(req)
				md, merr := smart.Resolve(req)
				expect("smart, expecting the answer of "+from, want, wantErr, p, perr, md, merr)
				yes, no := smart.ResolvePossible(req)
				if yes == no || !verdicts[map[bool]string{true: "yes", false: "no"}[yes]] {
					c.Fail("smart: possible %t, impossible %t instead of %v", yes, no, keysOf(verdicts))
				}
				oidfed.DefaultMetadataResolver = smart
				keep := oidfed.EntityCollectionFilterVerifiedChains{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(req.TrustAnchor...)}.Filter(
					&oidfed.CollectedEntity{EntityID: req.Subject},
				)
				oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{}
				if types == nil && !verdicts[map[bool]string{true: "yes", false: "no"}[keep]] {
					c.Fail("the filter for verified chains says %t instead of %v", keep, keysOf(verdicts))
				}
				time.Sleep(time.Minute)
			}
			if jsonOf(req) != reqJSON {
				c.Fail("the request was changed to %s", jsonOf(req))
			}
			c.Step("resolve", tas, st.pub, st.beh["T"].name, st.beh["U"].name, local, types)
			c.Outcome("answered by " + from)
			if wantErr {
				c.Outcome("error")
			}
		},
	)
}

func exploreRemoteCollect(x *X) {
	x.ExploreB(
		"collect", 99, func(c *C) {
			order := rmTAs[c.Choose(3, "trust anchors")]
			st := rmConfig(c, order, rmCollect)
			listed := c.Choose(2, "collector's trust anchors contain the requested one") == 1
			reqs := []apimodel.EntityCollectionRequest{
				{}, {
					EntityTypes: []string{"openid_provider", "x y&z"}, NameQuery: "a b&c", TrustMarkTypes: []string{tmType, "u"}, Claims: []string{"metadata", "entity_types"}, FromEntityID: "x", Limit: 7,
				},
			}
			ri := c.Choose(2, "request")
			if ri == 1 && len(order) == 2 && !x.Thorough() {
				c.Discard()
			}
			c.Commit()
			newMemCache()
			f, n, logs := st.install(order, "TU")
			f.List["T"], f.List["U"] = []string{"L"}, []string{"L"}
			for _, ta := range order {
				rmServe(n, f.ID(ta)+"/collect", st.beh[ta], logs[ta])
			}
			req := reqs[ri]
			req.TrustAnchor = f.ID(order[0])
			wantQuery := url.Values{
				"trust_anchor": {req.TrustAnchor}, "entity_type": req.EntityTypes, "trust_mark_type": req.TrustMarkTypes, "claims": req.Claims, "name_query": {req.NameQuery},
				"from_entity_id": {req.FromEntityID}, "limit": {fmt.Sprint(req.Limit)},
			}
			reqJSON := jsonOf(req)
			list := func(es []*oidfed.CollectedEntity) any {
				if es == nil {
					return []any{}
				}
				return generic(es)
			}
			wantOf := func(b rmBehaviour) any {
				if b.answer == nil {
					return []any{}
				}
				return generic(b.answer).(M)["federation_entities"]
			}
			for _, ta := range order {
				b := st.beh[ta]
				got := oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: f.ID(ta) + "/collect"}.CollectEntities(req)
				if !sameJSON(list(got), wantOf(b)) {
					c.Fail("remote %s: collected %s instead of %s", b.name, jsonOf(list(got)), jsonOf(wantOf(b)))
				}
				for _, q := range *logs[ta] {
					if sortedQuery(q) != sortedQuery(wantQuery.Encode()) {
						c.Fail("the remote endpoint was asked %s instead of %s", sortedQuery(q), sortedQuery(wantQuery.Encode()))
					}
				}
				if len(*logs[ta]) == 0 {
					c.Fail("the remote endpoint was not asked")
				}
			}
			want, from := list((&oidfed.SimpleEntityCollector{}).CollectEntities(req)), "local"
			for _, ta := range order {
				if st.pub[ta] == "published" && st.beh[ta].answer != nil {
					want, from = wantOf(st.beh[ta]), ta
					break
				}
			}
			var own []string
			for i, ta := range order {
				if i > 0 || listed {
					own = append([]string{f.ID(ta)}, own...) // the requested one last
				}
			}
			before := slices.Clone(own)
			smart := oidfed.SmartRemoteEntityCollector{TrustAnchors: own}
			for range 2 {
				got := list(smart.CollectEntities(req))
				if !slices.Equal(sortList(noEmpty(got)), sortList(noEmpty(want))) {
					c.Fail("smart: collected %s instead of the answer of %s, %s", short(got), from, short(want))
				}
				time.Sleep(time.Minute)
			}
			if jsonOf(req) != reqJSON || !slices.Equal(before, own) {
				c.Fail("the request or the collector was changed: %s %v", jsonOf(req), own)
			}
			c.Step("collect", order, st.pub, st.beh["T"].name, st.beh["U"].name, listed, ri)
			c.Outcome("collected by " + from)
		},
	)
}

// exploreRemoteHistory changes what the endpoints do between the calls.
func exploreRemoteHistory(x *X) {
	x.ExploreB(
		"history", 99, func(c *C) {
			id := newFed().ID
			f := rmWorld(map[string]M{"T": rmMd(id, "T", "published"), "U": rmMd(id, "U", "no endpoint")}, "TU")
			rs, cs := rmResolve(f, "T"), rmCollect(f, "T")
			byName := func(bs []rmBehaviour, name string) rmBehaviour {
				return bs[slices.IndexFunc(bs, func(b rmBehaviour) bool { return b.name == name })]
			}
			kinds := [][2]string{{"good", "good"}, {"minimal", "one"}, {"500 without document", "500 without document"}, {"404 invalid_trust_chain", "404 invalid_trust_chain"}}
			var seq []int
			for i := range Pick(x, 3, 5) {
				seq = append(seq, c.Choose(len(kinds), fmt.Sprint("call ", i)))
			}
			c.Commit()
			newMemCache()
			n := newNet()
			f.install(n)
			req := apimodel.ResolveRequest{Subject: id("L"), TrustAnchor: []string{id("T"), id("U")}}
			creq := apimodel.EntityCollectionRequest{TrustAnchor: id("T")}
			localP, _ := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(req)
			for i, k := range seq {
				rb, cb := byName(rs, kinds[k][0]), byName(cs, kinds[k][1])
				var log []string
				rmServe(n, id("T")+"/resolve", rb, &log)
				rmServe(n, id("T")+"/collect", cb, &log)
				simple := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: id("T") + "/resolve"}
				md, err := simple.Resolve(req)
				if (err == nil) != (rb.answer != nil) || err == nil && !sameJSON(md, rb.answer.(M)["metadata"]) {
					c.Fail("call %d, %s: the metadata is %s (%v)", i, rb.name, jsonOf(md), err)
				}
				want := localP.Metadata
				smart, err := oidfed.SmartRemoteMetadataResolver{}.Resolve(req)
				if err != nil || !sameJSON(smart, want) && rb.answer == nil || rb.answer != nil && !sameJSON(smart, rb.answer.(M)["metadata"]) {
					c.Fail("call %d, %s: the smart metadata is %s (%v)", i, rb.name, jsonOf(smart), err)
				}
				es := oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: id("T") + "/collect"}.CollectEntities(creq)
				if cb.answer == nil && len(es) > 0 || cb.answer != nil && !sameJSON(es, cb.answer.(M)["federation_entities"]) {
					c.Fail("call %d, %s: collected %s", i, cb.name, jsonOf(es))
				}
				es = oidfed.SmartRemoteEntityCollector{}.CollectEntities(creq)
				if cb.answer != nil && !sameJSON(es, cb.answer.(M)["federation_entities"]) {
					c.Fail("call %d, %s: smart collected %s", i, cb.name, jsonOf(es))
				}
				time.Sleep(time.Minute)
			}
			c.Step("history", seq)
			c.Outcome("history")
		},
	)
}

func sortList(v any) []string {
	s, ok := v.([]any)
	if !ok {
		return []string{jsonOf(v)}
	}
	var out []string
	for _, e := range s {
		b, _ := json.Marshal(e)
		out = append(out, string(b))
	}
	sort.Strings(out)
	return out
}

func init() {
	registry["C18"] = func(x *X) {
		exploreRemoteResolve(x)
		exploreRemoteCollect(x)
		exploreRemoteHistory(x)
	}
}
