package zzverif

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	oidfed "github.com/go-oidfed/lib"
)

// ---- custom policy operators --------------------------------------------------
//
// Each operator is one pure function on generic JSON, used by the reference and,
// wrapped, by the library. So what is compared is what the library does with it.

type opName = oidfed.PolicyOperatorName

type custOp struct {
	name    opName
	combine []opName // nil: with anything
	merge   func(a, b any) (any, error)
	apply   func(v any, present bool, pv any, essential bool) (any, bool, error)
}

func sortedUnion(a, b any) any {
	var ss []string
	for _, x := range union(asList(a), asList(b)) {
		ss = append(ss, fmt.Sprint(x))
	}
	sort.Strings(ss)
	return l(ss...)
}

// eachString changes a string, or every string of a list.
func eachString(v any, f func(string) string) any {
	switch x := v.(type) {
	case string:
		return f(x)
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, f(fmt.Sprint(e)))
		}
		return out
	}
	return v
}

func equalOnly(a, b any) (any, error) {
	if !sameValue(a, true, b, true) {
		return nil, errPol
	}
	return a, nil
}

// the lists of x_fill and x_alone are parts of one array, as a program may well have it
var combinable = []opName{"essential", "x_suffix", "x_drop", "x_max", "x_prefix"}

// usedBefore: every execution starts with the operators having been used.
func usedBefore() {
	copy(combinable, []opName{"essential", "x_suffix", "x_drop", "x_max", "x_prefix"})
	for _, op := range []string{"x_alone", "x_fill"} {
		if _, err := mergeLib(listCarriers[1], M{op: l("a")}, M{op: l("a")}); err != nil {
			panic(err)
		}
	}
}

var custOps = []custOp{
	{
		// appends to the value: applying it twice shows
		"x_suffix", nil,
		func(a, b any) (any, error) { return sortedUnion(a, b), nil },
		func(v any, present bool, pv any, ess bool) (any, bool, error) {
			if !present {
				if ess {
					return nil, false, errPol
				}
				return nil, false, nil
			}
			suf := strings.ReplaceAll(joinStrings(pv), " ", "")
			return eachString(v, func(s string) string { return s + suf }), true, nil
		},
	},
	{
		"x_prefix", nil,
		func(a, b any) (any, error) {
			s, t := fmt.Sprint(a), fmt.Sprint(b)
			switch {
			case strings.HasPrefix(s, t):
				return a, nil
			case strings.HasPrefix(t, s):
				return b, nil
			}
			return nil, errPol
		},
		func(v any, present bool, pv any, ess bool) (any, bool, error) {
			if !present {
				if ess {
					return nil, false, errPol
				}
				return nil, false, nil
			}
			if !strings.HasPrefix(fmt.Sprint(v), fmt.Sprint(pv)) {
				return nil, false, errPol
			}
			return v, true, nil
		},
	},
	{
		"x_max", nil,
		func(a, b any) (any, error) { return min(a.(float64), b.(float64)), nil },
		func(v any, present bool, pv any, _ bool) (any, bool, error) {
			if present {
				v = min(v.(float64), pv.(float64))
			}
			return v, present, nil
		},
	},
	{
		"x_drop", nil,
		func(a, b any) (any, error) { return a == true || b == true, nil },
		func(v any, present bool, pv any, _ bool) (any, bool, error) {
			if pv == true {
				return nil, false, nil
			}
			return v, present, nil
		},
	},
	{
		"x_fill", combinable, equalOnly,
		func(v any, present bool, pv any, _ bool) (any, bool, error) {
			if !present {
				return pv, true, nil
			}
			return v, true, nil
		},
	},
	{
		"x_alone", combinable[:1], equalOnly,
		func(v any, present bool, _ any, _ bool) (any, bool, error) {
			if present {
				v = eachString(v, func(s string) string { return s + "!" })
			}
			return v, present, nil
		},
	},
}

func custOf(n opName) *custOp {
	for i := range custOps {
		if custOps[i].name == n {
			return &custOps[i]
		}
	}
	return nil
}

// calls records how the library called the operators.
var calls []string

func callOf(n opName, v any, present bool, pv any, ess bool) string {
	if !present {
		v = nil
	}
	return fmt.Sprintf("%s(%s,%v,%s,%v)", n, jsonOf(v), present, jsonOf(pv), ess)
}

// libValue is the operator's result in the form a program would give it.
func libValue(v any, in any) any {
	if _, ok := in.([]string); ok {
		if vl, ok := v.([]any); ok {
			out := []string{}
			for _, e := range vl {
				out = append(out, fmt.Sprint(e))
			}
			return out
		}
	}
	return v
}

func (o custOp) libApply(value any, valueSet bool, pv any, ess bool, _ string) (any, bool, error) {
	g, gp := generic(value), generic(pv)
	calls = append(calls, callOf(o.name, g, valueSet, gp, ess))
	v, p, err := o.apply(g, valueSet, gp, ess)
	return libValue(v, value), p, err
}

func (o custOp) libMerge(a, b any, _ string) (any, error) { return o.merge(generic(a), generic(b)) }

// ownOp implements the operator interface itself.
type ownOp struct{ custOp }

func (o *ownOp) Name() opName             { return o.name }
func (o *ownOp) MayCombineWith() []opName { return o.combine }
func (o *ownOp) Merge(a, b any, path string) (any, error) {
	return o.libMerge(a, b, path)
}
func (o *ownOp) Apply(v any, set bool, pv any, ess bool, path string) (any, bool, error) {
	return o.libApply(v, set, pv, ess, path)
}

// custVerify is what the registered verifier does at the moment.
var custVerify func(e M) error

func registerCustom() {
	for _, o := range custOps {
		registerOp(o)
	}
	oidfed.RegisterPolicyVerifier(
		func(p oidfed.MetadataPolicyEntry, _ string) error {
			if custVerify == nil {
				return nil
			}
			return custVerify(generic(p).(map[string]any))
		},
	)
}

func registerOp(o custOp) {
	if o.name == "x_suffix" {
		oidfed.RegisterPolicyOperator(&ownOp{o})
		return
	}
	oidfed.RegisterPolicyOperator(oidfed.NewPolicyOperator(o.name, o.libMerge, o.libApply, o.combine))
}

// custVerifiers: each refuses more, the more is combined.
var custVerifiers = map[string]func(e M) error{
	"none": nil,
	"no two suffixes": func(e M) error {
		if len(asList(e["x_suffix"])) > 1 {
			return errPol
		}
		return nil
	},
	"no drop": func(e M) error {
		if e["x_drop"] == true {
			return errPol
		}
		return nil
	},
	"no essential suffix": func(e M) error {
		if has(e, "x_suffix") && e["essential"] == true {
			return errPol
		}
		return nil
	},
	"no unknown": func(e M) error {
		if has(e, "x_unknown") {
			return errPol
		}
		return nil
	},
	"no small value": func(e M) error { // seen by the verifier, whatever the operator is
		if v, ok := e["x_max"].(float64); ok && v < 50 {
			return errPol
		}
		return nil
	},
}

// custOrders: places of the custom operators among the built-in ones.
func custOrder(customs []opName, where string) []opName {
	b := []opName{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}
	switch where {
	case "first":
		return append(append([]opName{}, customs...), b...)
	case "last":
		return append(append([]opName{}, b...), customs...)
	case "before essential":
		return append(append(append([]opName{}, b[:6]...), customs...), "essential")
	case "around essential":
		return append(append(append([]opName{}, b[:6]...), append(append([]opName{}, customs[:3]...), "essential")...), customs[3:]...)
	}
	panic(where)
}

var custOrderNames = []string{"before essential", "last", "around essential", "first", "reversed", "without x_suffix", "with x_ghost"}

func custOrderOf(name string) []opName {
	var cs, rev []opName
	for _, o := range custOps {
		cs = append(cs, o.name)
		rev = append([]opName{o.name}, rev...)
	}
	switch name {
	case "reversed":
		return custOrder(rev, "before essential")
	case "without x_suffix":
		return custOrder(cs, "last")[:7:7]
	case "with x_ghost":
		return append([]opName{"x_ghost"}, custOrder(cs, "before essential")...)
	}
	return custOrder(cs, name)
}

// refCustMerge combines entries with custom operators.
func refCustMerge(verifier func(M) error, es ...M) (M, error) {
	builtin := make([]M, len(es))
	out := M{}
	var err error
	for i, e := range es {
		builtin[i] = M{}
		for op, v := range e {
			o := custOf(opName(op))
			switch cur, ok := out[op]; {
			case o == nil:
				builtin[i][op] = v
			case !ok:
				out[op] = v
			default:
				if out[op], err = o.merge(cur, v); err != nil {
					return nil, err
				}
			}
		}
	}
	bm, err := refMergeEntry(builtin...)
	if err != nil {
		return nil, err
	}
	for op := range out {
		for other := range bm {
			if refOps[other] && other != "essential" {
				return nil, errPol // built-in operators only go with each other
			}
		}
		o := custOf(opName(op))
		if o.combine == nil {
			continue
		}
		for other := range out {
			ok := other == op
			for _, n := range refCombine[opName(op)] {
				ok = ok || string(n) == other
			}
			if !ok {
				return nil, errPol
			}
		}
	}
	for op, v := range bm {
		out[op] = v
	}
	if verifier != nil {
		if err = verifier(out); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// refCombine is the reference's own copy (the library is given the original).
var refCombine = map[opName][]opName{
	"x_fill":  {"essential", "x_suffix", "x_drop", "x_max", "x_prefix"},
	"x_alone": {"essential"},
}

// refCustApply applies a combined entry in the given order.
func refCustApply(order []opName, v any, present bool, e M) (any, bool, []string, error) {
	if v == nil {
		present = false
	}
	var trace []string
	ess := e["essential"] == true
	customs := false
	for op := range e {
		customs = customs || custOf(opName(op)) != nil
	}
	if !customs {
		for _, n := range order {
			if _, ok := e[string(n)]; ok && !refOps[string(n)] {
				return nil, false, nil, errPol // understood by nobody
			}
		}
		v, present, err := refApply(v, present, e)
		return v, present, nil, err
	}
	var err error
	for _, n := range order {
		pv, ok := e[string(n)]
		if !ok {
			continue
		}
		o := custOf(n)
		switch {
		case o != nil:
			trace = append(trace, callOf(n, v, present, pv, ess))
			if v, present, err = o.apply(v, present, pv, ess); err != nil {
				return nil, false, trace, err
			}
		case n == "essential":
			if ess && !present {
				return nil, false, trace, errPol
			}
		default:
			return nil, false, trace, errPol
		}
	}
	return v, present, trace, nil
}

func sameCustEntry(a, b M) bool {
	norm := func(e M) M {
		o := M{}
		for k, v := range e {
			if (refOps[k] || custOf(opName(k)) != nil || k == "x_ghost") && !(k == "essential" && v == false) {
				o[k] = v
			}
		}
		return o
	}
	a, b = norm(a), norm(b)
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameValue(v, true, w, true) {
			return false
		}
	}
	return true
}

type custKind struct {
	name     string
	carriers []carrier
	ops      []opAlts
	values   []any
}

var custKinds = []custKind{
	{
		"list", []carrier{listCarriers[0], listCarriers[1], listCarriers[2], listCarriers[4], listCarriers[8], listCarriers[10]},
		[]opAlts{
			{"x_suffix", []any{l("s"), l("t"), l("s", "t")}},
			{"x_drop", []any{true, false}},
			{"x_fill", []any{l("f"), l("g")}},
			{"essential", []any{true, false}},
			{"x_alone", []any{true}},
			{"subset_of", []any{l("a", "b")}},
			{"value", []any{l("a"), nil}},
			{"x_unknown", []any{1.0}},
			{"x_ghost", []any{l("a")}},
		},
		[]any{absent, nil, l("a"), l("b", "a")},
	},
	{
		"string", []carrier{stringCarriers[0], stringCarriers[1], stringCarriers[2], stringCarriers[3], stringCarriers[7]},
		[]opAlts{
			{"x_suffix", []any{l("s"), l("t")}},
			{"x_prefix", []any{"a", "ab", "c"}},
			{"x_drop", []any{true, false}},
			{"x_fill", []any{"abc", "f"}},
			{"essential", []any{true, false}},
			{"x_alone", []any{true}},
			{"one_of", []any{l("abc", "f")}},
			{"default", []any{"abc"}},
			{"x_ghost", []any{"a"}},
		},
		[]any{absent, nil, "abc", "b"},
	},
	{
		"int", intCarriers,
		[]opAlts{
			{"x_max", []any{10.0, 100.0}},
			{"x_drop", []any{true, false}},
			{"x_fill", []any{60.0, 5.0}},
			{"essential", []any{true, false}},
			{"x_alone", []any{true}},
			{"one_of", []any{[]any{60.0, 5.0}}},
			{"x_unknown", []any{1.0}},
		},
		[]any{absent, nil, 60.0, 5.0},
	},
}

// exploreCustomOps combines and applies entries with custom operators.
func exploreCustomOps(x *X, name string, ncarriers, levels, bound int, orders []string) {
	defer restoreOps()
	x.Explore(
		name, bound, func(c *C) {
			kind := custKinds[c.Choose(len(custKinds), "kind")]
			ca := kind.carriers[c.Choose(min(ncarriers, len(kind.carriers)), "carrier")]
			orderName := DevOf(c, "order", orders...)
			vname := DevOf(c, "verifier", "none", "no two suffixes", "no drop", "no essential suffix", "no unknown", "no small value")
			es := make([]M, levels)
			for i := range es {
				es[i] = chooseEntry(c, fmt.Sprintf("level%d", i), kind.ops)
			}
			c.Commit()
			defer restoreOps()
			usedBefore()
			order := custOrderOf(orderName)
			oidfed.OperatorOrder = order
			verifier := custVerifiers[vname]
			custVerify = verifier
			want, werr := refCustMerge(verifier, es...)
			got, gerr := mergeLib(ca, es...)
			c.Step("merge", ca.name, jsonOf(es), orderName, vname)
			if (werr != nil) != (gerr != nil) {
				c.Fail("%s: combining %s (verifier: %s): error %v, should be refused: %v", ca.name, jsonOf(es), vname, gerr, werr != nil)
				return
			}
			if werr != nil {
				c.Outcome("refused when combining")
				return
			}
			if ge := ca.entryOf(got); !sameCustEntry(ge, want) {
				c.Fail("%s: combining %s gives %s, should be %s", ca.name, jsonOf(es), jsonOf(ge), jsonOf(want))
				return
			}
			for _, v := range kind.values {
				present := v != any(absent)
				if !present {
					v = nil
				}
				wv, wp, wtrace, we := refCustApply(order, v, present, want)
				for round := 0; round < 2; round++ {
					md := ca.metadata(v, present)
					calls = nil
					res, err := md.ApplyPolicy(got)
					what := fmt.Sprintf("%s: applying %s to %s (present=%v) in the order %s, %d", ca.name, jsonOf(want), jsonOf(v), present, orderName, round)
					c.Step("apply", jsonOf(want), jsonOf(v), present, ca.name, orderName)
					if (we != nil) != (err != nil) {
						c.Fail("%s: error %v, should be refused: %v", what, err, we != nil)
						return
					}
					if _, unknown := want["x_ghost"]; !(unknown && orderName == "with x_ghost") && strings.Join(calls, " ") != strings.Join(wtrace, " ") {
						c.Fail("%s: the operators were called %v, should be %v", what, calls, wtrace)
						return
					}
					if err != nil {
						c.Outcome("refused when applying")
						continue
					}
					if gv, gp := ca.read(res); !sameValue(gv, gp, wv, wp) {
						c.Fail("%s: gives %s (present=%v), should be %s (present=%v)", what, jsonOf(gv), gp, jsonOf(wv), wp)
						return
					}
					c.Outcome("applied")
				}
			}
		},
	)
}

var stdOrder = append([]opName{}, oidfed.OperatorOrder...)

func restoreOps() {
	oidfed.OperatorOrder = append([]opName{}, stdOrder...)
	custVerify = nil
	usedBefore()
}

// exploreCustomChains: custom and critical operators in the statements of a chain.
func exploreCustomChains(x *X, bound int) {
	defer restoreOps()
	ents := []opAlts{
		{"x_suffix", []any{l("s"), l("t")}}, {"x_drop", []any{true}}, {"x_fill", []any{l("f")}}, {"essential", []any{true}},
		{"x_alone", []any{true}}, {"add", []any{l("a")}}, {"x_ghost", []any{l("a")}},
	}
	cas := custKinds[0].carriers[:4]
	x.ExploreB(
		"custom operators in chains", bound, func(c *C) {
			ca := cas[c.Choose(len(cas), "carrier")]
			orderName := DevOf(c, "order", "before essential", "last", "without x_suffix", "with x_ghost")
			vname := DevOf(c, "verifier", "none", "no two suffixes", "no drop")
			f := mkFed(map[string][]string{"L": {"I1"}, "I1": {"I2"}, "I2": {"T1"}, "T1": nil})
			v := Of(c, "metadata", any(absent), any(l("a", "c")))
			inner := M{"x_other": "kept"}
			if v != any(absent) {
				inner[ca.param] = v
			}
			f.EC["L"].Md = M{ca.typ: inner}
			order := custOrderOf(orderName)
			known := map[string]bool{}
			for _, n := range order {
				known[string(n)] = true
			}
			var es []M
			refused := false
			for _, k := range [][2]string{{"I1", "L"}, {"I2", "I1"}, {"T1", "I2"}} {
				e := chooseEntry(c, k[0]+"->"+k[1], ents)
				es = append(es, e)
				f.SS[k].Claims = M{}
				if len(e) > 0 {
					f.SS[k].Claims["metadata_policy"] = M{ca.typ: M{ca.param: e}}
				}
				if cr := DevOf(c, "crit "+k[0], nil, []any{"x_suffix"}, []any{"x_alone", "subset_of"}, []any{"x_suffix", "x_unknown"}, []any{"x_drop"}); cr != nil {
					f.SS[k].Claims["metadata_policy_crit"] = cr
					for _, n := range cr {
						refused = refused || !known[n.(string)]
					}
				}
			}
			c.Commit()
			defer restoreOps()
			usedBefore()
			oidfed.OperatorOrder = order
			custVerify = custVerifiers[vname]
			defer noRefresh()()
			newMemCache()
			f.install(newNet())
			want, werr := refCustMerge(custVerify, es...)
			var wv any
			wp := false
			if werr == nil {
				wv, wp, _, werr = refCustApply(order, map[bool]any{true: v, false: nil}[v != any(absent)], v != any(absent), want)
			}
			if refused {
				werr = errPol
			}
			as := []Anchor{{Name: "T1"}}
			for round := 0; round < 2; round++ {
				tr := oidfed.TrustResolver{TrustAnchors: f.libAnchors(as), StartingEntity: f.ID("L")}
				got := tr.ResolveToValidChains()
				c.Step("resolve", jsonOf(es), jsonOf(v), ca.name, round, orderName, vname)
				if (len(got) == 0) != (werr != nil) {
					c.Fail("round %d %s: policies %s on %s: %d chains, should be refused: %v", round, ca.name, jsonOf(es), jsonOf(v), len(got), werr != nil)
					return
				}
				if werr != nil {
					c.Outcome("refused")
					continue
				}
				for again := 0; again < 2; again++ {
					md, err := got[0].Metadata()
					if err != nil {
						c.Fail("round %d: %v", round, err)
						return
					}
					if gv, gp := ca.read(md); !sameValue(gv, gp, wv, wp) {
						c.Fail("round %d %s: policies %s on %s give %s (%v), should be %s (%v)", round, ca.name, jsonOf(es), jsonOf(v), jsonOf(gv), gp, jsonOf(wv), wp)
						return
					}
				}
				c.Outcome("resolved")
			}
		},
	)
}

// exploreReplacedOps: an operator registered again replaces the one of that name, built-in or custom.
func exploreReplacedOps(x *X, bound int) {
	defer restoreOps()
	shout := func(o custOp) custOp {
		o.apply = func(v any, present bool, pv any, ess bool) (any, bool, error) {
			if present {
				v = eachString(v, func(s string) string { return s + "?" })
			}
			return v, present, nil
		}
		return o
	}
	x.Explore(
		"operators registered again", bound, func(c *C) {
			ca := custKinds[0].carriers[c.Choose(3, "carrier")]
			e1, e2 := chooseEntry(c, "level0", custKinds[0].ops[:5]), chooseEntry(c, "level1", custKinds[0].ops[:5])
			n := opName(Of(c, "replaced", "x_suffix", "x_drop", "x_alone"))
			when := Of(c, "when", "before combining", "between")
			c.Commit()
			defer restoreOps()
			usedBefore()
			oidfed.OperatorOrder = custOrderOf("before essential")
			orig := *custOf(n)
			defer func() {
				*custOf(n) = orig
				registerOp(orig)
			}()
			if when == "before combining" {
				*custOf(n) = shout(orig)
				registerOp(*custOf(n))
			}
			want, werr := refCustMerge(nil, e1, e2)
			got, gerr := mergeLib(ca, e1, e2)
			c.Step("merge", ca.name, jsonOf(e1), jsonOf(e2), string(n), when)
			if (werr != nil) != (gerr != nil) {
				c.Fail("combining %s with %s: error %v, should be refused: %v", jsonOf(e1), jsonOf(e2), gerr, werr != nil)
				return
			}
			if werr != nil {
				c.Outcome("refused when combining")
				return
			}
			*custOf(n) = shout(orig)
			registerOp(*custOf(n))
			for _, v := range custKinds[0].values {
				present := v != any(absent)
				if !present {
					v = nil
				}
				wv, wp, _, we := refCustApply(oidfed.OperatorOrder, v, present, want)
				res, err := ca.metadata(v, present).ApplyPolicy(got)
				c.Step("apply", jsonOf(want), jsonOf(v), present)
				if (we != nil) != (err != nil) {
					c.Fail("applying %s to %s: error %v, should be refused: %v", jsonOf(want), jsonOf(v), err, we != nil)
					return
				}
				if err != nil {
					c.Outcome("refused when applying")
					continue
				}
				if gv, gp := ca.read(res); !sameValue(gv, gp, wv, wp) {
					c.Fail("with %s registered again %s: applying %s to %s gives %s (%v), should be %s (%v)", n, when, jsonOf(want), jsonOf(v), jsonOf(gv), gp, jsonOf(wv), wp)
					return
				}
				c.Outcome("applied")
			}
		},
	)
}

// exploreOwnPolicies: policies a program puts together itself, with Go values instead of decoded ones.
func exploreOwnPolicies(x *X, bound int) {
	defer restoreOps()
	x.Explore(
		"policies made by the program", bound, func(c *C) {
			ca := custKinds[0].carriers[c.Choose(4, "carrier")]
			ops := append(custKinds[0].ops[:5:5], opAlts{"add", []any{l("a"), l("c")}}, opAlts{"subset_of", []any{l("a", "c"), l("a")}},
				opAlts{"superset_of", []any{l("a")}}, opAlts{"default", []any{l("a")}}, opAlts{"value", []any{l("a")}})
			es := []M{chooseEntry(c, "level0", ops), chooseEntry(c, "level1", ops)}
			c.Commit()
			defer restoreOps()
			usedBefore()
			oidfed.OperatorOrder = custOrderOf("before essential")
			want, werr := refCustMerge(nil, es...)
			ps := make([]oidfed.MetadataPolicy, len(es))
			for i, e := range es {
				entry := oidfed.MetadataPolicyEntry{}
				for op, v := range e {
					if lv, ok := v.([]any); ok {
						v = libValue(lv, []string{})
					}
					entry[opName(op)] = v
				}
				ps[i] = oidfed.MetadataPolicy{ca.param: entry}
			}
			before := jsonOf(ps)
			got, gerr := oidfed.CombineMetadataPolicy(ca.typ, ps...)
			c.Step("combine", ca.name, jsonOf(es))
			if (werr != nil) != (gerr != nil) {
				c.Fail("combining %s: error %v, should be refused: %v", jsonOf(es), gerr, werr != nil)
				return
			}
			if jsonOf(ps) != before {
				c.Fail("combining %s changed the policies to %s", before, jsonOf(ps))
				return
			}
			if werr != nil {
				c.Outcome("refused when combining")
				return
			}
			var mp oidfed.MetadataPolicies
			must(json.Unmarshal([]byte(jsonOf(M{ca.typ: M{}})), &mp))
			setPolicy(&mp, ca.typ, got)
			for _, v := range custKinds[0].values {
				present := v != any(absent)
				if !present {
					v = nil
				}
				wv, wp, _, we := refCustApply(oidfed.OperatorOrder, v, present, want)
				res, err := ca.metadata(v, present).ApplyPolicy(&mp)
				c.Step("apply", jsonOf(want), jsonOf(v), present)
				if (we != nil) != (err != nil) {
					c.Fail("applying %s to %s: error %v, should be refused: %v", jsonOf(want), jsonOf(v), err, we != nil)
					return
				}
				if err != nil {
					c.Outcome("refused when applying")
					continue
				}
				if gv, gp := ca.read(res); !sameValue(gv, gp, wv, wp) {
					c.Fail("%s: applying %s to %s gives %s (%v), should be %s (%v)", ca.name, jsonOf(want), jsonOf(v), jsonOf(gv), gp, jsonOf(wv), wp)
					return
				}
				c.Outcome("applied")
			}
		},
	)
}

func setPolicy(mp *oidfed.MetadataPolicies, typ string, p oidfed.MetadataPolicy) {
	switch typ {
	case "openid_relying_party":
		mp.RelyingParty = p
	case "openid_provider":
		mp.OpenIDProvider = p
	case "federation_entity":
		mp.FederationEntity = p
	case "oauth_resource":
		mp.OAuthProtectedResource = p
	default:
		mp.Extra = map[string]oidfed.MetadataPolicy{typ: p}
	}
}

func init() {
	registry["C15"] = func(x *X) {
		registerCustom()
		exploreCustomOps(x, "one level", 99, 1, Pick(x, 4, 6), custOrderNames)
		exploreCustomOps(x, "two levels", Pick(x, 2, 3), 2, Pick(x, 4, 5), Pick(x, custOrderNames[:3], custOrderNames[:5]))
		exploreCustomOps(x, "three levels", 1, 3, Pick(x, 3, 4), custOrderNames[:4])
		exploreCustomChains(x, Pick(x, 3, 4))
		exploreReplacedOps(x, Pick(x, 3, 4))
		exploreOwnPolicies(x, Pick(x, 3, 4))
	}
}
