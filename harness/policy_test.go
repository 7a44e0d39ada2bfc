package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	oidfed "github.com/go-oidfed/lib"
)

// ---- reference model of metadata policies, over generic JSON ----------------

func asList(v any) []any {
	if l, ok := v.([]any); ok {
		return l
	}
	if v == nil {
		return nil
	}
	return []any{v}
}

func contains(l []any, v any) bool {
	for _, x := range l {
		if reflect.DeepEqual(x, v) {
			return true
		}
	}
	return false
}

func subset(a, b []any) bool {
	for _, x := range a {
		if !contains(b, x) {
			return false
		}
	}
	return true
}

func sameSet(a, b []any) bool { return subset(a, b) && subset(b, a) }

func union(a, b []any) []any {
	out := append([]any{}, a...)
	for _, x := range b {
		if !contains(out, x) {
			out = append(out, x)
		}
	}
	return out
}

func intersect(a, b []any) []any {
	out := []any{}
	for _, x := range a {
		if contains(b, x) {
			out = append(out, x)
		}
	}
	return out
}

var errPol = errors.New("refused")

var refOps = setOf([]string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"})

// refMergeEntry combines the entries for one parameter.
func refMergeEntry(es ...M) (M, error) {
	out := M{}
	for _, e := range es {
		for op, v := range e {
			o, ok := out[op]
			if !ok {
				out[op] = v
				continue
			}
			switch op {
			case "value", "default":
				_, l1 := o.([]any)
				_, l2 := v.([]any)
				if l1 != l2 || (l1 && !sameSet(asList(o), asList(v))) || (!l1 && !reflect.DeepEqual(o, v)) {
					return nil, errPol
				}
			case "add", "superset_of":
				out[op] = union(asList(o), asList(v))
			case "one_of", "subset_of":
				out[op] = intersect(asList(o), asList(v))
			case "essential":
				out[op] = o == true || v == true
			}
		}
	}
	return out, refVerify(out)
}

func has(e M, ops ...string) bool {
	for _, o := range ops {
		if _, ok := e[o]; !ok {
			return false
		}
	}
	return true
}

func refVerify(e M) error {
	switch {
	case has(e, "one_of", "subset_of"), has(e, "one_of", "superset_of"), has(e, "one_of", "add"):
		return errPol
	case has(e, "one_of") && len(asList(e["one_of"])) == 0:
		return errPol
	case has(e, "subset_of", "superset_of") && !subset(asList(e["superset_of"]), asList(e["subset_of"])):
		return errPol
	case has(e, "subset_of", "add") && !subset(asList(e["add"]), asList(e["subset_of"])):
		return errPol
	case has(e, "value", "add") && !subset(asList(e["add"]), asList(e["value"])):
		return errPol
	case has(e, "value", "subset_of") && !subset(asList(e["value"]), asList(e["subset_of"])):
		return errPol
	case has(e, "value", "default") && e["value"] == nil:
		return errPol
	}
	return nil
}

// refApply applies a combined entry to a parameter.
func refApply(v any, present bool, e M) (any, bool, error) {
	if v == nil {
		present = false
	}
	ess := e["essential"] == true
	if has(e, "value") {
		v, present = e["value"], e["value"] != nil
	}
	if has(e, "add") {
		if present {
			v = union(asList(v), asList(e["add"]))
		} else {
			v = e["add"]
		}
		present = true
	}
	if has(e, "default") && !present {
		v, present = e["default"], true
	}
	if !present {
		if ess {
			return nil, false, errPol
		}
		return nil, false, nil
	}
	if has(e, "one_of") && !contains(asList(e["one_of"]), v) {
		return nil, false, errPol
	}
	if has(e, "subset_of") {
		v = intersect(asList(v), asList(e["subset_of"]))
	}
	if has(e, "superset_of") && !subset(asList(e["superset_of"]), asList(v)) {
		return nil, false, errPol
	}
	return v, true, nil
}

// ---- carriers ----------------------------------------------------------------

// carrier is a place for a metadata parameter.
type carrier struct {
	name, typ, param string
	scope            bool
}

var listCarriers = []carrier{
	{"typed list", "openid_relying_party", "grant_types", false},
	{"custom parameter", "openid_relying_party", "x_custom", false},
	{"custom entity type", "x_service", "x_list", false},
	{"scope", "openid_relying_party", "scope", true},
	{"typed list (op)", "openid_provider", "acr_values_supported", false},
	{"typed list (as)", "oauth_authorization_server", "response_types_supported", false},
	{"typed list (client)", "oauth_client", "response_types", false},
	{"typed list (resource)", "oauth_resource", "scopes_supported", false},
	{"typed list (fe)", "federation_entity", "contacts", false},
	{"custom parameter (fe)", "federation_entity", "x_custom", false},
	{"custom parameter (resource)", "oauth_resource", "x_custom", false},
}

var stringCarriers = []carrier{
	{"typed string", "openid_relying_party", "client_name", false},
	{"custom parameter", "openid_relying_party", "x_custom", false},
	{"custom entity type", "x_service", "x_string", false},
	{"typed string (op)", "openid_provider", "service_documentation", false},
	{"typed string (as)", "oauth_authorization_server", "service_documentation", false},
	{"typed string (client)", "oauth_client", "client_name", false},
	{"typed string (resource)", "oauth_resource", "resource_name", false},
	{"typed string (fe)", "federation_entity", "organization_name", false},
}

var boolCarriers = []carrier{
	{"typed bool", "openid_relying_party", "require_auth_time", false},
	{"custom parameter", "openid_relying_party", "x_custom", false},
	{"custom entity type", "x_service", "x_bool", false},
	{"typed bool (op)", "openid_provider", "claims_parameter_supported", false},
}

var intCarriers = []carrier{
	{"typed int", "openid_relying_party", "default_max_age", false},
	{"custom parameter", "openid_relying_party", "x_custom", false},
	{"custom entity type", "x_service", "x_int", false},
}

func joinStrings(v any) string {
	var ss []string
	for _, x := range asList(v) {
		ss = append(ss, fmt.Sprint(x))
	}
	return strings.Join(ss, " ")
}

// metadata makes a metadata document with the parameter.
func (ca carrier) metadata(v any, present bool) *oidfed.Metadata {
	inner := M{"x_other": "kept"}
	if present {
		if ca.scope && v != nil {
			v = joinStrings(v)
		}
		inner[ca.param] = v
	}
	b, _ := json.Marshal(M{ca.typ: inner})
	var m oidfed.Metadata
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return &m
}

func (ca carrier) policies(e M) (*oidfed.MetadataPolicies, M) {
	g := M{}
	if e != nil {
		g = M{ca.typ: M{ca.param: e}}
	}
	b, _ := json.Marshal(g)
	var p oidfed.MetadataPolicies
	if err := json.Unmarshal(b, &p); err != nil {
		panic(err)
	}
	return &p, g
}

// read gets the parameter out of a metadata document.
func (ca carrier) read(m *oidfed.Metadata) (any, bool) {
	g := generic(m).(map[string]any)
	inner, _ := g[ca.typ].(map[string]any)
	if inner["x_other"] != "kept" {
		return "another parameter was changed: " + jsonOf(inner), true
	}
	v, ok := inner[ca.param]
	if ca.scope && ok {
		l := []any{}
		for _, s := range strings.Fields(fmt.Sprint(v)) {
			l = append(l, s)
		}
		return l, true
	}
	return v, ok
}

// isZero: encodes like an absent parameter in typed metadata.
func isZeroJSON(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case []any:
		return len(x) == 0
	case string:
		return x == ""
	case bool:
		return !x
	case float64:
		return x == 0
	}
	return false
}

// sameValue compares modulo order and modulo absent = zero value.
func sameValue(a any, ap bool, b any, bp bool) bool {
	if (!ap || isZeroJSON(a)) && (!bp || isZeroJSON(b)) {
		return true
	}
	if ap != bp {
		return false
	}
	la, ok1 := a.([]any)
	lb, ok2 := b.([]any)
	if ok1 && ok2 {
		return sameSet(la, lb)
	}
	return reflect.DeepEqual(a, b)
}

// entryOf reads a combined entry back in generic form.
func (ca carrier) entryOf(p *oidfed.MetadataPolicies) M {
	g := generic(p).(map[string]any)
	t, _ := g[ca.typ].(map[string]any)
	e, _ := t[ca.param].(map[string]any)
	return e
}

func sameEntry(a, b M) bool {
	norm := func(e M) M {
		o := M{}
		for k, v := range e {
			if refOps[k] && !(k == "essential" && v == false) {
				o[k] = v
			}
		}
		return o
	}
	a, b = norm(a), norm(b)
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !(sameValue(v, true, w, true) && (v == nil) == (w == nil)) {
			return false
		}
	}
	return true
}

type opAlts struct {
	op   string
	alts []any
}

func l(ss ...string) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

type absentT struct{}

func (absentT) String() string { return "-" }

var absent = absentT{}

var listOps = []opAlts{
	{"value", []any{nil, l("a"), l("a", "b"), l("b", "b"), l()}},
	{"add", []any{l("a"), l("c"), l()}},
	{"default", []any{l("a"), l("b", "c")}},
	{"subset_of", []any{l("a", "b"), l("b", "c"), l("a"), l()}},
	{"superset_of", []any{l("a"), l("b", "c"), l()}},
	{"one_of", []any{l("a")}},
	{"essential", []any{true, false}},
	{"x_unknown", []any{l("a")}},
}
var listValues = []any{absent, nil, l(), l("a"), l("b", "a"), l("c"), l("a", "b", "c")}

var stringOps = []opAlts{
	{"value", []any{nil, "a", "b"}},
	{"default", []any{"a", "c"}},
	{"one_of", []any{l("a", "b"), l("b", "c"), l("a"), l()}},
	{"essential", []any{true, false}},
	{"subset_of", []any{l("a")}},
	{"x_unknown", []any{"a"}},
}
var stringValues = []any{absent, nil, "a", "b", "c", ""}

var boolOps = []opAlts{
	{"value", []any{nil, true, false}}, {"default", []any{true, false}},
	{"one_of", []any{[]any{true}, []any{false}, []any{true, false}}}, {"essential", []any{true, false}},
}
var boolValues = []any{absent, nil, true, false}

var intOps = []opAlts{
	{"value", []any{nil, 3600.0, 0.0}}, {"default", []any{3600.0, 60.0}},
	{"one_of", []any{[]any{3600.0}, []any{60.0, 3600.0}, []any{0.0}, []any{60.0, 8589934592.0}}}, {"essential", []any{true, false}},
}
var intValues = []any{absent, nil, 3600.0, 60.0, 0.0, 8589934592.0}

func chooseEntry(c *C, label string, ops []opAlts) M {
	e := M{}
	for _, o := range ops {
		if v := DevOf(c, label+"."+o.op, append([]any{absent}, o.alts...)...); v != any(absent) {
			e[o.op] = v
		}
	}
	return e
}

// typeClash: the operator is not defined for the parameter's type; whether the
// library refuses or does something with it is its own business.
func typeClash(kind string, e M) bool {
	if kind == "list" {
		return has(e, "one_of")
	}
	return has(e, "subset_of") || has(e, "superset_of") || has(e, "add")
}

// satisfied: a resolved parameter satisfies the restrictions of one level.
func satisfied(v any, present bool, e M) string {
	if has(e, "value") {
		if (e["value"] == nil) && present && !isZeroJSON(v) {
			return "removed by value, but present"
		}
		if e["value"] != nil && !sameValue(v, present, e["value"], true) {
			return "not the imposed value"
		}
	}
	if has(e, "add") && !subset(asList(e["add"]), asList(v)) {
		return "added values are missing"
	}
	if present && !isZeroJSON(v) {
		if has(e, "one_of") && !contains(asList(e["one_of"]), v) {
			return "not one_of"
		}
		if has(e, "subset_of") && !subset(asList(v), asList(e["subset_of"])) {
			return "not subset_of"
		}
		if has(e, "superset_of") && !subset(asList(e["superset_of"]), asList(v)) {
			return "not superset_of"
		}
	}
	return ""
}

type polKind struct {
	name     string
	carriers []carrier
	ops      []opAlts
	values   []any
}

var polKinds = []polKind{
	{"list", listCarriers, listOps, listValues},
	{"string", stringCarriers, stringOps, stringValues},
	{"bool", boolCarriers, boolOps, boolValues},
	{"int", intCarriers, intOps, intValues},
}

func mergeLib(ca carrier, es ...M) (*oidfed.MetadataPolicies, error) {
	ps := make([]*oidfed.MetadataPolicies, len(es))
	for i, e := range es {
		if e != nil {
			ps[i], _ = ca.policies(e)
		}
	}
	return oidfed.MergeMetadataPolicies(ps...)
}

// explorePolicies compares merging and applying with the reference.
func explorePolicies(x *X, name string, kinds []polKind, ncarriers, levels, bound int, merging bool) {
	x.Explore(
		name, bound, func(c *C) {
			kind := kinds[c.Choose(len(kinds), "kind")]
			nc := len(kind.carriers)
			if ncarriers < nc {
				nc = ncarriers
			}
			ca := kind.carriers[c.Choose(nc, "carrier")]
			es := make([]M, levels)
			for i := range es {
				es[i] = chooseEntry(c, fmt.Sprintf("level%d", i), kind.ops)
			}
			c.Commit()
			want, werr := refMergeEntry(es...)
			got, gerr := mergeLib(ca, es...)
			if typeClash(kind.name, want) {
				// only: no crash, and a conflict of one_of with other operators is refused
				if werr != nil && has(want, "one_of") && (has(want, "subset_of") || has(want, "superset_of") || has(want, "add")) && gerr == nil {
					c.FailKey("oneof-combination", "%s: one_of beside %s is not refused", ca.name, jsonOf(want))
				}
				c.Outcome("type clash")
				c.State(c.labels)
				return
			}
			if (werr != nil) != (gerr != nil) {
				c.Fail("%s: combining %s: got error %v, should be refused: %v", ca.name, jsonOf(es), gerr, werr != nil)
				return
			}
			c.Step("merge", jsonOf(want), werr)
			if werr != nil {
				c.Outcome("refused when combining")
				return
			}
			if ge := ca.entryOf(got); !sameEntry(ge, want) {
				c.Fail("%s: combining %s gives %s, should be %s", ca.name, jsonOf(es), jsonOf(ge), jsonOf(want))
				return
			}
			if merging {
				if !checkGrouping(c, ca, es, want) {
					return
				}
			}
			for _, v := range kind.values {
				present := v != any(absent)
				if !present {
					v = nil
				}
				if v == "" && want["essential"] == true {
					continue // whether an empty string counts as absent is the library's business
				}
				wv, wp, we := refApply(v, present, want)
				md := ca.metadata(v, present)
				before := jsonOf(md)
				res, err := md.ApplyPolicy(got)
				what := fmt.Sprintf("%s: applying %s to %s (present=%v)", ca.name, jsonOf(want), jsonOf(v), present)
				if (we != nil) != (err != nil) {
					c.Fail("%s: error %v, should be refused: %v", what, err, we != nil)
					return
				}
				c.Step("apply", jsonOf(want), jsonOf(v), present, ca.name)
				if err != nil {
					c.Outcome("refused when applying")
					continue
				}
				gv, gp := ca.read(res)
				if !sameValue(gv, gp, wv, wp) {
					c.Fail("%s: gives %s (present=%v), should be %s (present=%v)", what, jsonOf(gv), gp, jsonOf(wv), wp)
					return
				}
				if gp && gv == nil && !present && strings.HasPrefix(ca.param, "x_") {
					c.Fail("%s: a null appears where nothing was and nothing is due", what)
					return
				}
				for _, e := range es {
					if why := satisfied(gv, gp, e); why != "" {
						c.Fail("%s: result %s breaks %s: %s", what, jsonOf(gv), jsonOf(e), why)
						return
					}
				}
				c.Outcome("applied")
				// once more, on the same objects and on the result
				_ = before
				res2, err := ca.metadata(v, present).ApplyPolicy(got)
				if err != nil || jsonOf(res2) != jsonOf(res) {
					c.Fail("%s: second application gives %s, %v; first %s", what, jsonOf(res2), err, jsonOf(res))
					return
				}
			}
		},
	)
}

// exploreShared combines one policy with two others, and applies two policies to one metadata document; what came out first
// must still be right after the second.
func exploreShared(x *X) {
	letters := l("a", "b", "c", "d", "e", "f", "g", "h", "i")
	x.Explore(
		"shared", 99, func(c *C) {
			ca := Of[any](c, "carrier", listCarriers[0], listCarriers[1], listCarriers[2], listCarriers[3]).(carrier)
			n := 1 + c.Choose(Pick(x, 5, 7), "length")
			op := Of(c, "operator", "add", "superset_of", "subset_of", "default", "value")
			first := Of(c, "first adds", 0, 1, 2)
			second := Of(c, "second adds", 0, 1, 2)
			applying := Of(c, "what", "merge", "apply", "apply merged")
			c.Commit()
			base := letters[:n:n]
			ext := func(k int, from string) []any {
				out := l("a")
				for i := range k {
					out = append(out, fmt.Sprint(from, i))
				}
				return out
			}
			es := []M{{op: ext(first, "p")}, {op: ext(second, "q")}}
			if applying == "apply" {
				md := ca.metadata(base, true)
				var res [2]*oidfed.Metadata
				for i, e := range es {
					pol, err := mergeLib(ca, e)
					if err != nil {
						c.Fail("a policy with only %s is refused: %v", jsonOf(e), err)
						return
					}
					res[i], err = md.ApplyPolicy(pol)
					if err != nil {
						res[i] = nil
					}
				}
				for i, e := range es {
					wv, wp, we := refApply(base, true, e)
					c.Step("apply", i, jsonOf(e), n)
					if we != nil != (res[i] == nil) {
						c.Fail("%s on %s: refused: %v, should be: %v", jsonOf(e), jsonOf(base), res[i] == nil, we)
						return
					}
					if we != nil {
						c.Outcome("refused")
						continue
					}
					if gv, gp := ca.read(res[i]); !sameValue(gv, gp, wv, wp) {
						c.Fail("%s: %s on %s, one of two policies on the same metadata, gives %s, should be %s", ca.name, jsonOf(e), jsonOf(base), jsonOf(gv), jsonOf(wv))
						return
					}
					c.Outcome("applied")
				}
				if gv, gp := ca.read(md); !sameValue(gv, gp, base, true) {
					c.Fail("%s: the metadata was %s and is %s", ca.name, jsonOf(base), jsonOf(gv))
				}
				return
			}
			sup := M{op: base}
			pa, _ := ca.policies(sup)
			var got [2]*oidfed.MetadataPolicies
			for i, e := range es {
				pb, _ := ca.policies(e)
				var err error
				if got[i], err = oidfed.MergeMetadataPolicies(pa, pb); err != nil {
					got[i] = nil
				}
				if applying == "apply merged" && got[i] != nil {
					_, _ = ca.metadata(l("zz"), true).ApplyPolicy(got[i])
				}
			}
			for i, e := range es {
				want, werr := refMergeEntry(sup, e)
				c.Step("merge", i, jsonOf(e), n)
				if werr != nil != (got[i] == nil) {
					c.Fail("%s with %s: refused: %v, should be: %v", jsonOf(sup), jsonOf(e), got[i] == nil, werr)
					return
				}
				if werr != nil {
					c.Outcome("refused")
					continue
				}
				if ge := ca.entryOf(got[i]); !sameEntry(ge, want) {
					c.Fail("%s: %s, combined with two policies, gives %s with %s, should be %s", ca.name, jsonOf(sup), jsonOf(ge), jsonOf(e), jsonOf(want))
					return
				}
				c.Outcome("merged")
			}
			if ge := ca.entryOf(pa); !sameEntry(ge, sup) {
				c.Fail("%s: the policy was %s and is %s", ca.name, jsonOf(sup), jsonOf(ge))
			}
		},
	)
}

// exploreWrongTypes gives an operator something that the parameter cannot hold, or not as a whole: that may be refused, but
// what comes out must consist of what was in the metadata or in the policy.
func exploreWrongTypes(x *X) {
	operands := []any{"a", 1.0, true, l("a"), []any{"a", 1.0}, []any{1.0}, []any{1.0, "b"}, []any{"a", true, "b"}, []any{l("a")}, M{"k": "a"}, []any{M{"k": "a"}}}
	x.Explore(
		"wrong types", 99, func(c *C) {
			kind := polKinds[c.Choose(len(polKinds), "kind")]
			ca := kind.carriers[c.Choose(len(kind.carriers), "carrier")]
			op := Of(c, "operator", "value", "default", "add", "one_of", "subset_of", "superset_of")
			w := operands[c.Choose(len(operands), "operand")]
			e := M{op: w}
			b, _ := json.Marshal(M{ca.typ: M{ca.param: e}})
			var p oidfed.MetadataPolicies
			if err := json.Unmarshal(b, &p); err != nil {
				c.Outcome("refused when decoding")
				return
			}
			got, err := oidfed.MergeMetadataPolicies(&p)
			c.Step("merge", string(b), err == nil)
			if err != nil {
				c.Outcome("refused when combining")
				return
			}
			for _, v := range kind.values {
				present := v != any(absent)
				if !present {
					v = nil
				}
				res, err := ca.metadata(v, present).ApplyPolicy(got)
				c.Step("apply", jsonOf(v), present, err == nil)
				if err != nil {
					c.Outcome("refused when applying")
					continue
				}
				gv, gp := ca.read(res)
				what := fmt.Sprintf("%s: applying %s to %s (present=%v)", ca.name, jsonOf(e), jsonOf(v), present)
				if !gp || isZeroJSON(gv) {
					c.Outcome("nothing")
					continue
				}
				words := func(a any) []any {
					out := asList(a)
					if s, ok := a.(string); ok && ca.scope {
						out = l(strings.Fields(s)...)
					}
					return out
				}
				from := append(append([]any{v, w}, words(v)...), words(w)...)
				for _, g := range asList(gv) {
					if !contains(from, g) {
						c.Fail("%s: gives %s, with something from neither", what, jsonOf(gv))
						return
					}
				}
				switch op {
				case "subset_of", "superset_of", "one_of":
					for _, g := range asList(gv) {
						if !contains(words(v), g) {
							c.Fail("%s: gives %s, which was not in the metadata", what, jsonOf(gv))
							return
						}
					}
				}
				c.Outcome("applied")
			}
		},
	)
}

// exploreBuiltMetadata applies policies to metadata that a program made: unset parameters are zero values, and there
// may be no custom ones.
func exploreBuiltMetadata(x *X, bound int) {
	x.Explore(
		"metadata made by a program", bound, func(c *C) {
			kind := polKinds[c.Choose(len(polKinds), "kind")]
			ca := kind.carriers[c.Choose(len(kind.carriers), "carrier")]
			e := chooseEntry(c, "policy", kind.ops)
			c.Commit()
			if typeClash(kind.name, e) {
				c.Discard()
			}
			pol, err := mergeLib(ca, e)
			if err != nil {
				c.Outcome("refused when combining")
				return
			}
			for _, v := range kind.values {
				present := v != any(absent)
				if !present {
					v = nil
				}
				if v == "" && e["essential"] == true {
					continue
				}
				inner := M{}
				if present {
					inner[ca.param] = v
					if ca.scope && v != nil {
						inner[ca.param] = joinStrings(v)
					}
				}
				var dec oidfed.Metadata
				if err := json.Unmarshal([]byte(jsonOf(M{ca.typ: inner})), &dec); err != nil {
					panic(err)
				}
				md := rebuilt(&dec).(*oidfed.Metadata)
				if !strings.HasPrefix(ca.typ, "x_") {
					md.Extra = nil
				}
				mv := reflect.ValueOf(md).Elem()
				for i := range mv.NumField() {
					f := mv.Field(i)
					if mv.Type().Field(i).IsExported() && f.Kind() == reflect.Pointer && !f.IsNil() {
						f.Set(reflect.ValueOf(rebuilt(f.Interface())))
						if ex := f.Elem().FieldByName("Extra"); ex.Len() == 0 {
							ex.SetZero()
						}
					}
				}
				typed := !strings.HasPrefix(ca.param, "x_")
				if l, ok := v.([]any); typed && isZeroJSON(v) && (!ok || ca.scope && len(l) == 0) {
					present = false
				}
				wv, wp, we := refApply(v, present, e)
				before := jsonOf(md)
				for round := range 2 {
					what := fmt.Sprintf("round %d, %s: applying %s to %s (present=%v)", round, ca.name, jsonOf(e), jsonOf(v), present)
					res, err := md.ApplyPolicy(pol)
					c.Step("apply", jsonOf(e), jsonOf(v), present, ca.name, round)
					if (we != nil) != (err != nil) {
						c.Fail("%s: error %v, should be refused: %v", what, err, we != nil)
						return
					}
					if jsonOf(md) != before {
						c.Fail("%s: changed the metadata: %s, was %s", what, jsonOf(md), before)
						return
					}
					if err != nil {
						c.Outcome("refused when applying")
						continue
					}
					g, _ := generic(res).(map[string]any)
					in, _ := g[ca.typ].(map[string]any)
					gv, gp := in[ca.param]
					if ca.scope && gp {
						l := []any{}
						for _, s := range strings.Fields(fmt.Sprint(in[ca.param])) {
							l = append(l, s)
						}
						gv = l
					}
					if !sameValue(gv, gp, wv, wp) {
						c.Fail("%s: gives %s (present=%v), should be %s (present=%v)", what, jsonOf(gv), gp, jsonOf(wv), wp)
						return
					}
					c.Outcome("applied")
				}
			}
		},
	)
}

// exploreScopes: a scope is the set of its space-delimited values, in metadata and in policies, whether these are written as a
// string or as a list; only one_of compares it as a whole.
func exploreScopes(x *X) {
	texts := []any{absent, nil, "", "a", "a b", "b  a ", "a b c", "c", "d c"}
	lists := []any{absent, "a", "a b", "b c ", l("a", "b"), l("c"), "", l()}
	x.Explore(
		"scopes", 99, func(c *C) {
			ca := Of(c, "type", "openid_relying_party", "oauth_client")
			v := Of(c, "metadata", texts...)
			e := M{}
			for _, op := range []string{"value", "add", "default", "subset_of", "superset_of"} {
				alts := lists
				if op == "value" {
					alts = append([]any{absent, nil}, lists[1:]...)
				}
				if w := DevOf(c, op, alts...); w != any(absent) {
					e[op] = w
				}
			}
			if w := DevOf(c, "one_of", any(absent), any(l("a", "b")), any(l("a b")), any(l("a b", "c"))); w != any(absent) {
				e["one_of"] = w
			}
			if DevOf(c, "essential", false, true) {
				e["essential"] = true
			}
			c.Commit()
			if has(e, "one_of") && (has(e, "add") || has(e, "subset_of") || has(e, "superset_of")) {
				c.Discard()
			}
			words := func(w any) any {
				if s, ok := w.(string); ok {
					l := []any{}
					for _, s := range strings.Fields(s) {
						l = append(l, s)
					}
					return l
				}
				return w
			}
			ref := M{}
			for op, w := range e {
				if !has(e, "one_of") {
					w = words(w)
				}
				ref[op] = w
			}
			present := v != any(absent) && v != nil
			if !present {
				v = nil
			}
			if has(e, "value") && e["value"] != nil && len(asList(words(e["value"]))) == 0 || has(e, "default") && len(asList(words(e["default"]))) == 0 || present && len(asList(words(v))) == 0 {
				// what an empty scope counts as is not specified
				if e["essential"] == true || has(e, "default") || has(e, "one_of") {
					c.Discard()
				}
			}
			if has(e, "one_of") {
				for _, op := range []string{"value", "default"} {
					if _, ok := e[op].([]any); ok {
						c.Discard()
					}
				}
			}
			var err error
			inner := M{"x_other": "kept"}
			if v != nil {
				inner["scope"] = v
			}
			cr := carrier{"scope", ca, "scope", true}
			pol, merr := mergeLib(cr, e)
			verr := refVerify(ref)
			c.Step("verify", jsonOf(e))
			if (merr != nil) != (verr != nil) {
				if has(e, "one_of") {
					c.Discard()
				}
				for _, w := range e {
					if _, ok := w.(string); ok {
						// a string where a list is due may be refused beside others
						c.Discard()
					}
				}
				c.Fail("policy %s: %v, should be refused: %v", jsonOf(e), merr, verr != nil)
				return
			}
			if merr != nil {
				c.Outcome("refused when combining")
				return
			}
			rv := v
			if present && !has(e, "one_of") {
				rv = words(v)
			}
			wv, wp, we := refApply(rv, present, ref)
			var md oidfed.Metadata
			if err = json.Unmarshal([]byte(jsonOf(M{ca: inner})), &md); err != nil {
				panic(err)
			}
			res, gerr := md.ApplyPolicy(pol)
			c.Step("apply", ca, jsonOf(v), jsonOf(e))
			what := fmt.Sprintf("applying %s to the scope %s", jsonOf(e), jsonOf(v))
			if (gerr != nil) != (we != nil) {
				c.Fail("%s: error %v, should be refused: %v", what, gerr, we != nil)
				return
			}
			if gerr != nil {
				c.Outcome("refused when applying")
				return
			}
			gv, gp := cr.read(res)
			if !sameValue(gv, gp, words(wv), wp) {
				c.Fail("%s gives %s (present=%v), should be %s (present=%v)", what, jsonOf(gv), gp, jsonOf(wv), wp)
				return
			}
			for i, s := range asList(gv) {
				if contains(asList(gv)[:i], s) {
					c.Fail("%s gives %s: more than once", what, jsonOf(gv))
					return
				}
			}
			c.Outcome("applied")
		},
	)
}

// checkGrouping: order, grouping and empty levels do not matter.
func checkGrouping(c *C, ca carrier, es []M, want M) bool {
	type alt struct {
		name string
		f    func() (*oidfed.MetadataPolicies, error)
	}
	rev := make([]M, len(es))
	for i, e := range es {
		rev[len(es)-1-i] = e
	}
	withNil := append(append([]M{nil}, es...), nil)
	alts := []alt{
		{"reversed", func() (*oidfed.MetadataPolicies, error) { return mergeLib(ca, rev...) }},
		{"levels without policy", func() (*oidfed.MetadataPolicies, error) { return mergeLib(ca, withNil...) }},
	}
	if len(es) == 3 {
		alts = append(
			alts, alt{
				"(ab)c", func() (*oidfed.MetadataPolicies, error) {
					ab, err := mergeLib(ca, es[0], es[1])
					if err != nil {
						return nil, err
					}
					p, _ := ca.policies(es[2])
					return oidfed.MergeMetadataPolicies(ab, p)
				},
			}, alt{
				"a(bc)", func() (*oidfed.MetadataPolicies, error) {
					bc, err := mergeLib(ca, es[1], es[2])
					if err != nil {
						return nil, err
					}
					p, _ := ca.policies(es[0])
					return oidfed.MergeMetadataPolicies(p, bc)
				},
			},
		)
	}
	for _, a := range alts {
		got, err := a.f()
		if err != nil {
			c.Fail("%s: combining %s (%s) is refused: %v", ca.name, jsonOf(es), a.name, err)
			return false
		}
		if ge := ca.entryOf(got); !sameEntry(ge, want) {
			c.Fail("%s: combining %s (%s) gives %s, should be %s", ca.name, jsonOf(es), a.name, jsonOf(ge), jsonOf(want))
			return false
		}
	}
	return true
}

// exploreManyPolicies combines levels that have policies for several parameters of several entity types.
func exploreManyPolicies(x *X, name string, maxLevels, bound int) {
	slots := []carrier{
		listCarriers[0], listCarriers[1], stringCarriers[0], stringCarriers[3], listCarriers[4], listCarriers[2], stringCarriers[2],
		stringCarriers[4], stringCarriers[5], stringCarriers[6], listCarriers[8], stringCarriers[7],
	}
	listEntries := []any{
		absent, M{"value": l("a")}, M{"value": l("b")}, M{"subset_of": l("a")}, M{"essential": true}, M{"essential": false},
		M{"subset_of": l("a"), "superset_of": l("b")}, M{"x_unknown": 1.0}, M{"superset_of": l("b")}, M{"add": l("c")}, M{},
	}
	stringEntries := []any{
		absent, M{"value": "a"}, M{"value": "b"}, M{"one_of": l("a")}, M{"essential": true}, M{"one_of": l("b", "c")},
		M{"one_of": l("a"), "add": l("a")}, M{"default": "b"}, M{"value": nil}, M{},
	}
	isString := func(ca carrier) bool {
		for _, s := range stringCarriers {
			if s.name == ca.name && s.typ == ca.typ && s.param == ca.param && ca.name != "custom parameter" {
				return true
			}
		}
		return false
	}
	if !x.Thorough() {
		slots = append(slots[:6:6], slots[8], slots[10])
		listEntries, stringEntries = listEntries[:9], stringEntries[:7]
	}
	x.Explore(
		name, bound, func(c *C) {
			n := 1 + c.Choose(maxLevels, "levels")
			levels := make([]M, n)
			es := make([][]M, len(slots))
			for i := range levels {
				if DevOf(c, fmt.Sprint("level", i), "policy", "none") == "none" {
					continue
				}
				levels[i] = M{}
				for j, ca := range slots {
					alts := listEntries
					if isString(ca) {
						alts = stringEntries
					}
					e := DevOf(c, fmt.Sprintf("level%d %s.%s", i, ca.typ, ca.param), alts...)
					if e == any(absent) {
						continue
					}
					es[j] = append(es[j], e.(M))
					t, _ := levels[i][ca.typ].(M)
					if t == nil {
						t = M{}
						levels[i][ca.typ] = t
					}
					t[ca.param] = e
				}
			}
			set := c.Choose(2, "metadata") == 1
			c.Commit()
			ps := make([]*oidfed.MetadataPolicies, n)
			for i, p := range levels {
				if p != nil {
					ps[i] = &oidfed.MetadataPolicies{}
					must(json.Unmarshal([]byte(jsonOf(p)), ps[i]))
				}
			}
			got, err := oidfed.MergeMetadataPolicies(ps...)
			var werr error
			wants := make([]M, len(slots))
			for j := range slots {
				w, e := refMergeEntry(es[j]...)
				if e != nil {
					werr = e
				}
				wants[j] = w
			}
			c.Step("combine", jsonOf(levels))
			if (err != nil) != (werr != nil) {
				c.Fail("combining %s: error %v, should be refused: %v", jsonOf(levels), err, werr != nil)
				return
			}
			if err != nil {
				c.Outcome("refused when combining")
				return
			}
			md := M{}
			for _, ca := range slots {
				t, _ := md[ca.typ].(M)
				if t == nil {
					t = M{"x_other": "kept"}
					md[ca.typ] = t
				}
				if set {
					t[ca.param] = any(l("a", "b"))
					if isString(ca) {
						t[ca.param] = "b"
					}
				}
			}
			for j, ca := range slots {
				if ge := ca.entryOf(got); !sameEntry(ge, wants[j]) {
					c.Fail("combining %s gives %s for %s.%s, should be %s", jsonOf(levels), jsonOf(ge), ca.typ, ca.param, jsonOf(wants[j]))
					return
				}
			}
			var m oidfed.Metadata
			must(json.Unmarshal([]byte(jsonOf(md)), &m))
			res, err := m.ApplyPolicy(got)
			results := make([]any, len(slots))
			present := make([]bool, len(slots))
			for j, ca := range slots {
				v, ok := md[ca.typ].(M)[ca.param]
				var e error
				if results[j], present[j], e = refApply(generic(v), ok, wants[j]); e != nil {
					werr = e
				}
			}
			c.Step("apply", jsonOf(levels), set)
			if (err != nil) != (werr != nil) {
				c.Fail("applying %s to %s: error %v, should be refused: %v", jsonOf(got), jsonOf(md), err, werr != nil)
				return
			}
			if err != nil {
				c.Outcome("refused when applying")
				return
			}
			for j, ca := range slots {
				if gv, gp := ca.read(res); !sameValue(gv, gp, results[j], present[j]) {
					c.Fail("applying %s to %s gives %s for %s.%s, should be %s", jsonOf(got), jsonOf(md), jsonOf(gv), ca.typ, ca.param, jsonOf(results[j]))
					return
				}
			}
			c.Outcome("applied")
		},
	)
}

// explorePolicyChains resolves federations with policies on the subordinate
// statements and compares the resolved metadata.
func explorePolicyChains(x *X, bound int) {
	ents := []opAlts{
		{"value", []any{l("a"), nil}}, {"add", []any{l("a")}}, {"default", []any{l("b")}},
		{"subset_of", []any{l("a", "b"), l("b")}}, {"superset_of", []any{l("a")}}, {"essential", []any{true}},
		{"x_unknown", []any{1.0}},
	}
	cas := []carrier{listCarriers[0], listCarriers[1], listCarriers[2], listCarriers[4]}
	x.ExploreB(
		"policies in chains", bound, func(c *C) {
			ca := cas[c.Choose(len(cas), "carrier")]
			f := mkFed(map[string][]string{"L": {"I1"}, "I1": {"I2"}, "I2": {"T1"}, "T1": nil})
			v := Of(c, "metadata", any(absent), any(l("a", "c")), any(l("b")))
			inner := M{"x_other": "kept"}
			if v != any(absent) {
				inner[ca.param] = v
			}
			f.EC["L"].Md = M{ca.typ: inner}
			order := [][2]string{{"I1", "L"}, {"I2", "I1"}, {"T1", "I2"}}
			var es []M
			crit := false
			for _, k := range order {
				e := chooseEntry(c, k[0]+"->"+k[1], ents)
				es = append(es, e)
				f.SS[k].Claims = M{}
				if len(e) > 0 {
					f.SS[k].Claims["metadata_policy"] = M{ca.typ: M{ca.param: e}}
				}
				if cr := DevOf(c, "crit "+k[0], nil, []any{"x_unknown"}, []any{"subset_of"}, []any{"regexp"}, []any{"value", "Value"}); cr != nil {
					f.SS[k].Claims["metadata_policy_crit"] = cr
					crit = crit || cr[0] == "x_unknown" || cr[0] == "regexp" || cr[0] == "value"
				}
			}
			c.Commit()
			defer noRefresh()()
			newMemCache()
			f.install(newNet())
			want, werr := refMergeEntry(es...)
			var wv any
			wp := false
			if werr == nil {
				wv, wp, werr = refApply(map[bool]any{true: v, false: nil}[v != any(absent)], v != any(absent), want)
			}
			if crit {
				werr = errPol
			}
			as := []Anchor{{Name: "T1"}}
			for round := 0; round < 2; round++ {
				tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
				got := tr.ResolveToValidChains()
				c.Step("resolve", jsonOf(es), jsonOf(v), ca.name, round)
				if (len(got) == 0) != (werr != nil) {
					c.Fail("round %d %s: policies %s on %s: %d chains, should be refused: %v", round, ca.name, jsonOf(es), jsonOf(v), len(got), werr != nil)
					return
				}
				if werr != nil {
					c.Outcome("refused")
					continue
				}
				md, err := got[0].Metadata()
				if err != nil {
					c.Fail("round %d: %v", round, err)
					return
				}
				gv, gp := ca.read(md)
				if !sameValue(gv, gp, wv, wp) {
					c.Fail("round %d %s: policies %s on %s give %s (%v), should be %s (%v)", round, ca.name, jsonOf(es), jsonOf(v), jsonOf(gv), gp, jsonOf(wv), wp)
					return
				}
				c.Outcome("resolved")
			}
		},
	)
}

func init() {
	registry["C07"] = func(x *X) {
		explorePolicies(x, "two levels", polKinds, 1, 2, Pick(x, 4, 5), true)
		explorePolicies(x, "two levels, custom parameters and entity types", polKinds, 3, 2, Pick(x, 3, 4), true)
		explorePolicies(x, "three levels", polKinds, 1, 3, Pick(x, 3, 4), true)
		exploreShared(x)
		exploreManyPolicies(x, "several parameters", Pick(x, 4, 6), 2)
		if x.Thorough() {
			exploreManyPolicies(x, "several parameters, two levels", 2, 3)
		}
		explorePolicyChains(x, Pick(x, 2, 3))
	}
	registry["C08"] = func(x *X) {
		explorePolicies(x, "one level", polKinds, 99, 1, 7, false)
		exploreBuiltMetadata(x, Pick(x, 3, 7))
		exploreManyPolicies(x, "several parameters", Pick(x, 2, 2), Pick(x, 2, 3))
		explorePolicies(x, "two levels, all carriers", polKinds, 99, 2, Pick(x, 3, 4), false)
		exploreWrongTypes(x)
		exploreShared(x)
		exploreScopes(x)
	}
}
