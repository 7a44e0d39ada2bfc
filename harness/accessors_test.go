package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"slices"
	"strings"

	"github.com/vmihailenco/msgpack/v5"

	oidfed "github.com/go-oidfed/lib"
)

// ---- C26: accessors report what the document states --------------------------------

func runC26(x *X) {
	// the library reports some lookups on standard output
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		defer func(out *os.File) { os.Stdout = out }(os.Stdout)
		os.Stdout = null
	}
	types := entityTypes()
	typed := map[string]reflect.Type{}
	mt := reflect.TypeOf(oidfed.Metadata{})
	for i := 0; i < mt.NumField(); i++ {
		if tag, _, _ := strings.Cut(mt.Field(i).Tag.Get("json"), ","); tag != "" && tag != "-" {
			typed[tag] = mt.Field(i).Type.Elem()
		}
	}
	isParam := map[string]map[string]param{}
	for _, et := range types {
		isParam[et.tag] = map[string]param{}
		for _, p := range et.params {
			isParam[et.tag][p.tag] = p
		}
	}

	// judge compares everything the accessors of m say with the document.
	judge := func(c *C, doc M, m *oidfed.Metadata, how string) bool {
		before := jsonOf(m)
		// entity types
		var want []string
		for t, v := range doc {
			if _, known := typed[t]; !known || v != nil {
				want = append(want, t)
			}
		}
		slices.Sort(want)
		got := append([]string{}, m.GuessEntityTypes()...)
		slices.Sort(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			c.Fail("%s: the entity types of %s are said to be %q", how, jsonOf(doc), got)
			return false
		}
		// display names
		names := m.GuessDisplayNames()
		for t := range typed {
			w := refName(doc, t)
			if names[t] != w {
				c.Fail("%s: the display name of %s in %s is said to be %q", how, t, jsonOf(doc), names[t])
				return false
			}
			if _, there := names[t]; there && doc[t] == nil {
				c.Fail("%s: %s, which is absent, has a display name", how, t)
				return false
			}
		}
		// claims
		tags := map[string]bool{"x_custom": true, "jwks": true}
		for _, et := range types {
			for _, p := range et.params {
				if how == "as read" {
					tags[p.tag] = true
				}
			}
		}
		for _, v := range doc {
			if md, isObj := v.(map[string]any); isObj {
				for tag := range md {
					tags[tag] = true
				}
			}
		}
		for _, tag := range keysOf(tags) {
			for _, list := range []bool{false, true} {
				w, g := map[string]any{}, map[string]any{}
				for t := range typed {
					p, dedicated := isParam[t][tag]
					md, _ := doc[t].(map[string]any)
					if !dedicated || md == nil {
						continue
					}
					switch v := md[tag].(type) {
					case string:
						if !list && p.typ.Kind() == reflect.String && v != "" {
							w[t] = v
						}
					case []any:
						if list && p.typ == reflect.TypeOf([]string{}) && len(v) > 0 {
							w[t] = v
						}
					}
				}
				twice := false
				note := func(t string, v any) {
					if _, there := g[t]; there {
						twice = true
					}
					g[t] = v
				}
				if list {
					m.IterateStringSliceClaim(tag, func(t string, v []string) {
						if len(v) > 0 { // an empty list may be left out
							note(t, v)
						}
					})
				} else {
					m.IterateStringClaim(tag, func(t, v string) { note(t, v) })
				}
				if twice || jsonOf(w) != jsonOf(g) {
					c.Fail("%s: the values of %s (list: %v) in %s are said to be %s", how, tag, list, jsonOf(doc), jsonOf(g))
					return false
				}
			}
		}
		// metadata per entity type
		lookup := append(keysOf(typed), "x_type", "x_none", "", "Openid_provider", "extra")
		for _, t := range lookup {
			v, there := doc[t]
			if _, known := typed[t]; known && v == nil {
				there = false
			}
			type mine struct {
				Name  string         `json:"display_name"`
				Scope string         `json:"scope"`
				Org   string         `json:"organization_name"`
				X     any            `json:"x_custom"`
				Other map[string]any `json:"x_other"`
			}
			for _, target := range []any{&map[string]any{}, new(any), &mine{}, &json.RawMessage{}} {
				err := m.FindEntityMetadata(t, target)
				if !there {
					if err == nil {
						c.Fail("%s: the metadata of %q, which is absent from %s, was found", how, t, jsonOf(doc))
						return false
					}
					continue
				}
				if md, isObj := v.(map[string]any); isObj {
					if err != nil {
						c.Fail("%s: the metadata of %q in %s was not found: %v", how, t, jsonOf(doc), err)
						return false
					}
					if own, isMine := target.(*mine); isMine {
						w := mine{Name: str(md["display_name"]), Scope: str(md["scope"]), Org: str(md["organization_name"]), X: md["x_custom"]}
						w.Other, _ = md["x_other"].(map[string]any)
						if !reflect.DeepEqual(generic(w), generic(*own)) {
							c.Fail("%s: the metadata of %q in %s is decoded as %s", how, t, jsonOf(doc), jsonOf(own))
							return false
						}
						continue
					}
					path := "/metadata/" + t
					if diff := sameDoc(path, generic(v), generic(target), ""); diff != "" {
						c.Fail("%s: looking up %q in %s: %s", how, t, jsonOf(doc), diff)
						return false
					}
				}
			}
			if typ, known := typed[t]; known {
				target := reflect.New(typ).Interface()
				err := m.FindEntityMetadata(t, target)
				if there != (err == nil) {
					c.Fail("%s: looking up %q in %s: %v", how, t, jsonOf(doc), err)
					return false
				}
				w := reflect.New(typ).Interface()
				if there {
					must(json.Unmarshal([]byte(jsonOf(v)), w))
				}
				if jsonOf(w) != jsonOf(target) {
					c.Fail("%s: the metadata of %q in %s is decoded as %s", how, t, jsonOf(doc), jsonOf(target))
					return false
				}
			}
		}
		if after := jsonOf(m); after != before {
			c.Fail("%s: looking things up changed the metadata\nfrom %s\nto   %s", how, before, after)
			return false
		}
		return true
	}
	all := func(c *C, doc M) {
		var m oidfed.Metadata
		if err := json.Unmarshal([]byte(jsonOf(doc)), &m); err != nil {
			c.Fail("%s is refused: %v", jsonOf(doc), err)
			return
		}
		c.State(jsonOf(doc))
		c.Step("document", jsonOf(doc))
		if !judge(c, doc, &m, "as read") {
			return
		}
		b, err := msgpack.Marshal(m)
		must(err)
		var cached oidfed.Metadata
		must(msgpack.Unmarshal(b, &cached))
		if !judge(c, doc, &cached, "as cached") {
			return
		}
		built := oidfed.Metadata{Extra: m.Extra}
		for i := 0; i < mt.NumField(); i++ {
			if mt.Field(i).Type.Kind() == reflect.Ptr {
				if f := reflect.ValueOf(m).Field(i); !f.IsNil() {
					reflect.ValueOf(&built).Elem().Field(i).Set(reflect.ValueOf(rebuilt(f.Interface())))
				}
			}
		}
		// a program that builds it cannot tell absent from zero
		if jsonOf(built) == jsonOf(m) && !judge(c, doc, &built, "as built") {
			return
		}
		c.Outcome(fmt.Sprint(len(doc), " entity types"))
	}

	values := func(p param) []any {
		return append(append([]any{nil}, zeroJSON(p.typ)...), someJSON(p.typ)...)
	}
	x.Explore("parameters", 0, func(c *C) {
		i := c.Choose(len(types), "entity type")
		et := types[i]
		j := c.Choose(len(et.params), "parameter")
		p := et.params[j]
		c.Commit()
		v := Of(c, "value", values(p)...)
		second := Of[any](c, "second", absent, M{}, M{"display_name": "Second"}, M{"organization_name": "Org", "client_name": "Cl", "resource_name": "Res"})
		where := Of(c, "at", "x_type", types[(i+1)%len(types)].tag, types[(i+len(types)-1)%len(types)].tag)
		doc := M{et.tag: M{p.tag: v}}
		if second != absent {
			doc[where] = second
		}
		all(c, doc)
	})
	x.Explore("names", 0, func(c *C) {
		doc := M{}
		for _, et := range types {
			switch c.Choose(4, et.tag) {
			case 1:
				doc[et.tag] = M{}
			case 2:
				doc[et.tag] = M{"display_name": "Name of " + et.tag, nameClaim[et.tag]: "no", "keywords": l("a", "b")}
			case 3:
				doc[et.tag] = M{nameClaim[et.tag]: "Organization of " + et.tag, "logo_uri": "https://logo"}
			}
		}
		c.Commit()
		all(c, doc)
	})
	x.Explore("custom", Pick(x, 2, 3), func(c *C) {
		doc := M{}
		vals := append([]any{absent}, extras()...)
		for _, t := range []string{"x_type", types[0].tag, types[len(types)-1].tag} {
			if t == "x_type" {
				if v := DevOf(c, t, vals...); v != absent {
					doc[t] = v
				}
			}
			md := M{}
			for _, p := range []string{"x_custom", "x_other", "x_third", "display_name"} {
				vs := vals
				if p == "x_other" {
					vs = []any{absent, M{}, M{"a": 1.0}, M{"a": M{"b": []any{nil, true}}}}
				}
				if p == "display_name" {
					vs = []any{absent, "x", ""}
				}
				if v := DevOf(c, t+"/"+p, vs...); v != absent {
					md[p] = v
				}
			}
			if len(md) > 0 {
				if _, taken := doc[t]; !taken {
					doc[t] = md
				}
			}
		}
		c.Commit()
		all(c, doc)
	})
	// trust marks
	x.Explore("trust marks", 0, func(c *C) {
		n := c.Choose(Pick(x, 5, 6), "number")
		var tms oidfed.TrustMarkInfos
		for i := 0; i < n; i++ {
			tms = append(tms, oidfed.TrustMarkInfo{
				TrustMarkType: Of(c, "type", "a", "b", "A", ""), TrustMarkJWT: fmt.Sprint(i), Extra: M{"n": float64(i)},
			})
		}
		c.Commit()
		before := jsonOf(tms)
		c.State(before)
		c.Step("marks", before)
		for _, id := range []string{"a", "b", "A", "", "c"} {
			want := -1
			for i := range tms {
				if tms[i].TrustMarkType == id {
					want = i
					break
				}
			}
			asked := 0
			for how, got := range map[string]*oidfed.TrustMarkInfo{
				"FindByID": tms.FindByID(id),
				"Find": tms.Find(func(i oidfed.TrustMarkInfo) bool {
					asked++
					return i.TrustMarkType == id
				}),
			} {
				if (got == nil) != (want < 0) || got != nil && got.TrustMarkJWT != fmt.Sprint(want) {
					c.Fail("%s(%q) in %s gives %s", how, id, before, jsonOf(got))
				}
			}
			for i := range tms {
				if got := tms.Find(func(t oidfed.TrustMarkInfo) bool { return t.TrustMarkJWT >= fmt.Sprint(i) }); got == nil || got.TrustMarkJWT != fmt.Sprint(i) {
					c.Fail("the first mark from %d on in %s is said to be %s", i, before, jsonOf(got))
				}
			}
		}
		if tms.Find(func(oidfed.TrustMarkInfo) bool { return false }) != nil {
			c.Fail("a mark was found that does not match")
		}
		if jsonOf(tms) != before {
			c.Fail("looking for marks changed them from %s to %s", before, jsonOf(tms))
		}
	})
}

func init() { registry["C26"] = runC26 }
