package zzverif

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
)

// ---- C19: documents survive encoding and decoding ------------------------------------

// emptyJSON tells whether a value of a known member says nothing; zeros are
// members of which 0 and false say nothing either.
func emptyJSON(v any, zeros string) bool {
	switch t := v.(type) {
	case nil:
		return true
	case string:
		return t == ""
	case []any:
		return len(t) == 0
	case map[string]any:
		if k, ok := t["keys"]; ok && len(t) == 1 {
			return emptyJSON(k, zeros)
		}
		for n, e := range t {
			if !emptyJSON(e, zeros) && !(strings.Contains(zeros, " "+n+" ") && (e == 0.0 || e == false)) {
				return false
			}
		}
		return true
	}
	return false
}

// sameDoc compares a document with what became of it. zeros are members that
// may be written out as 0 or false when they were not there.
func sameDoc(path string, want, got any, zeros string) string {
	diff := func() string { return fmt.Sprintf("%s is %s, not %s", path, jsonOf(got), jsonOf(want)) }
	base := path[strings.LastIndex(path, "/")+1:]
	switch {
	case strings.HasPrefix(base, "x_") && !strings.HasPrefix(base, "x_type"), base == "exact":
		if !reflect.DeepEqual(want, got) {
			return diff()
		}
		return ""
	}
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return diff()
		}
		for _, k := range keysOf(w) {
			p := path + "/" + k
			v, there := g[k]
			isType := base == "metadata" // an entity type says something even when empty
			free := strings.HasPrefix(k, "x_") || isType
			switch {
			case there && strings.Count(path, "/metadata_policy/") == 1 && strings.Count(path[strings.Index(path, "/metadata_policy/"):], "/") == 3:
				if !reflect.DeepEqual(w[k], v) { // an operator
					return p + " is " + jsonOf(v) + ", not " + jsonOf(w[k])
				}
			case there && emptyJSON(w[k], zeros) && !free:
				if !emptyJSON(v, zeros) {
					return p + " is " + jsonOf(v) + ", not " + jsonOf(w[k])
				}
			case there:
				if d := sameDoc(p, w[k], v, zeros); d != "" {
					return d
				}
			case emptyJSON(w[k], zeros) && (!free || isType && w[k] == nil):
			default:
				return p + " is gone, it was " + jsonOf(w[k])
			}
		}
		for _, k := range keysOf(g) {
			if _, there := w[k]; there || emptyJSON(g[k], zeros) && !strings.HasPrefix(k, "x_") && base != "metadata" {
				continue
			}
			if strings.Contains(zeros, " "+k+" ") && (g[k] == 0.0 || g[k] == false) {
				continue
			}
			return path + "/" + k + " was not there, now it is " + jsonOf(g[k])
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return diff()
		}
		for i := range w {
			if d := sameDoc(fmt.Sprint(path, "/", i), w[i], g[i], zeros); d != "" {
				return d
			}
		}
		return ""
	case float64:
		g, ok := got.(float64)
		if !ok || g-w > 1e-6 || w-g > 1e-6 {
			return diff()
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return diff()
	}
	return ""
}

func genericJSON(b []byte) any {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return fmt.Sprint("not JSON: ", err, " ", string(b))
	}
	return v
}

func genericYAML(b []byte) any {
	var v any
	if err := yaml.Unmarshal(b, &v); err != nil {
		return fmt.Sprint("not YAML: ", err, " ", string(b))
	}
	return genericJSON([]byte(jsonOf(v)))
}

// rebuilt copies the exported fields into a new value, as a program that
// builds the document itself would set them.
func rebuilt(v any) any {
	from := reflect.ValueOf(v).Elem()
	if from.Kind() != reflect.Struct {
		return v
	}
	to := reflect.New(from.Type())
	for i := 0; i < from.NumField(); i++ {
		if from.Type().Field(i).IsExported() {
			to.Elem().Field(i).Set(from.Field(i))
		}
	}
	return to.Interface()
}

type docType struct {
	name  string
	fresh func() any
	base  M
	dims  []memberAlts
	zeros string
	yaml  bool // also in configuration files
	only  bool // only as YAML
	extra bool // has room for members unknown to the type
}

// checkDoc sends the document through the type and back.
func checkDoc(c *C, d docType, doc M, what string) bool {
	c.Step("document", what)
	if !d.only {
		v := d.fresh()
		if err := json.Unmarshal([]byte(jsonOf(doc)), v); err != nil {
			c.Fail("%s: the document is refused: %v", what, err)
			return false
		}
		b, err := json.Marshal(v)
		if err != nil {
			c.Fail("%s: the document cannot be encoded again: %v", what, err)
			return false
		}
		if diff := sameDoc("", genericJSON([]byte(jsonOf(doc))), genericJSON(b), d.zeros); diff != "" {
			c.Fail("%s: after decoding and encoding %s: %s", what, diff, b)
			return false
		}
		for _, g := range []any{v, rebuilt(v)} {
			b1, e1 := json.Marshal(g)
			w := d.fresh()
			var e2 error
			if e1 == nil {
				e2 = json.Unmarshal(b1, w)
			}
			b2, e3 := json.Marshal(w)
			if e1 != nil || e2 != nil || e3 != nil || string(b1) != string(b2) {
				c.Fail("%s: a value encoded as\n%s\ncomes back as\n%s\n(%v, %v, %v)", what, b1, b2, e1, e2, e3)
				return false
			}
			if g != v && !reflect.DeepEqual(rebuilt(w), g) && jsonOf(rebuilt(w)) != string(b1) {
				c.Fail("%s: a value encoded as %s comes back different", what, b1)
				return false
			}
		}
	}
	if d.yaml {
		text, err := yaml.Marshal(map[string]any(doc))
		if err != nil {
			c.Fail("%s: %v", what, err)
			return false
		}
		v := d.fresh()
		if err = yaml.Unmarshal(text, v); err != nil {
			c.Fail("%s: the configuration is refused: %v", what, err)
			return false
		}
		b, err := yaml.Marshal(v)
		if err != nil {
			c.Fail("%s: the configuration cannot be written again: %v", what, err)
			return false
		}
		if diff := sameDoc("", genericJSON([]byte(jsonOf(doc))), genericYAML(b), d.zeros); diff != "" {
			c.Fail("%s: after reading and writing the configuration %s\nbefore:\n%s\nafter:\n%s", what, diff, text, b)
			return false
		}
		w := d.fresh()
		if err = yaml.Unmarshal(b, w); err != nil {
			c.Fail("%s: the configuration written is refused: %v", what, err)
			return false
		}
		if !d.only && jsonOf(v) != jsonOf(w) {
			c.Fail("%s: the configuration of %s comes back as %s", what, jsonOf(v), jsonOf(w))
			return false
		}
	}
	c.Outcome("same")
	return true
}

func docTypes() []docType {
	var out []docType
	valuesOf := func(t reflect.Type) []any {
		return append(append([]any{absent, nil}, zeroJSON(t)...), someJSON(t)...)
	}
	custom := []memberAlts{
		{"x_custom", append([]any{absent}, extras()...)},
		{"x_other", []any{absent, "y", nil, false, M{"jwks": M{"keys": []any{}}}}},
		{"a", []any{absent, 1.0, "", strings.Repeat("long ", 4000)}},
	}
	// custom members whose names differ from known ones in letter case only
	cased := func(names ...string) (o []memberAlts) {
		for _, n := range names {
			up := strings.ToUpper(n[:1]) + n[1:]
			o = append(o, memberAlts{up, []any{absent, "x_cased", []any{"x_cased"}, M{"x": true}}})
			o = append(o, memberAlts{strings.ToUpper(n), []any{absent, "x_cased", 1.0}})
		}
		return o
	}
	for _, et := range entityTypes() {
		f := reflect.TypeOf(oidfed.Metadata{})
		var typ reflect.Type
		for i := 0; i < f.NumField(); i++ {
			if tag, _, _ := strings.Cut(f.Field(i).Tag.Get("json"), ","); tag == et.tag {
				typ = f.Field(i).Type.Elem()
			}
		}
		d := docType{name: et.tag, fresh: func() any { return reflect.New(typ).Interface() }, extra: true}
		for _, p := range et.params {
			d.dims = append(d.dims, memberAlts{p.tag, valuesOf(p.typ)})
		}
		d.dims = append(append(d.dims, custom...), cased(et.params[0].tag, et.params[len(et.params)-1].tag)...)
		out = append(out, d)
	}
	st := statementClaims()
	st = append(
		st, memberAlts{"jwks", []any{absent, jwksOf("L"), M{"keys": l()}, jwksOf("L", "K1"), nil, M{"keys": []any{ecJWK}}}},
		memberAlts{"iss", []any{"https://i", absent, ""}}, memberAlts{"sub", []any{"https://s", absent, ""}},
	)
	st = append(append(st, custom...), cased("sub", "jwks", "metadata")...)
	out = append(out, docType{name: "entity statement", fresh: func() any { return &oidfed.EntityStatementPayload{} }, dims: st, zeros: " iat exp ", extra: true})
	pick := func(names ...string) (o []memberAlts) {
		for _, n := range names {
			for _, cl := range statementClaims() {
				if cl.name == n {
					o = append(o, cl)
				}
			}
		}
		return o
	}
	text := func(names ...string) (o []memberAlts) {
		for _, n := range names {
			o = append(o, memberAlts{n, []any{"https://" + n, absent, "", "<&>\u00fc \"q\" \\"}})
		}
		return o
	}
	maybe := func(ms []memberAlts) []memberAlts { // optional and possibly null
		for i := range ms {
			a := ms[i].alts
			ms[i].alts = append([]any{absent, nil}, append(append([]any{}, a[0]), a[2:]...)...)
		}
		return ms
	}
	optTime := []any{absent, 8000000000, 7500000000.5, 0, nil}
	join := func(ms ...[]memberAlts) (o []memberAlts) {
		for _, m := range ms {
			o = append(o, m...)
		}
		return o
	}
	ec := signJWT("L", "entity-statement+jwt", M{"iss": "https://l", "sub": "https://l"})
	ss := signJWT("T", "entity-statement+jwt", M{"iss": "https://t", "sub": "https://l"})
	trustChain := memberAlts{"trust_chain", []any{absent, nil, l(), l(string(ec)), l(string(ec), string(ss))}}
	anyMD := memberAlts{"metadata", []any{
		absent, nil, M{}, M{"federation_entity": M{}}, M{"federation_entity": nil}, M{"x_type": M{}}, M{"x_type": M{"a": 1.0}, "openid_provider": M{"issuer": "x", "x_y": nil}},
		M{"openid_relying_party": M{"jwks": jwksOf("K1"), "require_auth_time": false}}, M{"openid_provider": M{"request_uri_parameter_supported": false}},
	}}
	var policies []any
	ops := []M{
		{}, {"value": "a"}, {"value": nil}, {"value": false}, {"value": l()}, {"value": M{"a": []any{1.0}}}, {"default": 0.0}, {"add": l()}, {"add": l("a", "b")}, {"subset_of": l()},
		{"subset_of": l("a")}, {"superset_of": l("a")}, {"superset_of": l()}, {"one_of": []any{1.0, "a", true, nil}}, {"essential": false}, {"essential": true, "x-own": M{"a": nil}}, {"Value": "a"}, {"regexp": ""},
	}
	for _, op := range ops {
		policies = append(policies, M{"a": op})
	}
	out = append(
		out,
		docType{
			name: "metadata", fresh: func() any {
				return &struct {
					Metadata oidfed.Metadata `json:"metadata"`
				}{}
			}, dims: []memberAlts{{"metadata", func() (o []any) {
				o = append(o, anyMD.alts[2:]...)
				for _, et := range append([]entityTyp{{tag: "x_type"}, {tag: "OpenID_Provider"}}, entityTypes()...) {
					for _, v := range extras() {
						o = append(o, M{et.tag: M{"x_p": v, "organization_name": "o"}}, M{et.tag: M{"x_p": v}, "x_second": M{"x_p": 1.0}})
					}
				}
				return o
			}()}},
		},
		docType{
			name: "metadata policy", fresh: func() any {
				return &struct {
					P *oidfed.MetadataPolicies `json:"metadata_policy"`
				}{}
			}, dims: []memberAlts{{"metadata_policy", func() (o []any) {
				for _, et := range append([]entityTyp{{tag: "x_type"}, {tag: "OpenID_Provider"}}, entityTypes()...) {
					for _, p := range policies {
						o = append(o, M{et.tag: p}, M{et.tag: p, "x_second": M{"a": M{"add": l("x")}}})
					}
				}
				for i := range ops {
					for j := range ops {
						o = append(o, M{"openid_provider": M{"a": ops[i], "b": ops[j]}})
					}
				}
				return append(o, nil, M{})
			}()}},
		},
		docType{
			name: "resolve response", fresh: func() any { return &oidfed.ResolveResponse{} }, zeros: " iat exp ", extra: true,
			dims: join(text("iss", "sub", "aud"), pick("iat", "exp", "trust_marks"), []memberAlts{trustChain, anyMD}, custom, cased("iss", "metadata")),
		},
		docType{
			name: "resolve response payload", fresh: func() any { return &oidfed.ResolveResponsePayload{} }, extra: true,
			dims: join(pick("trust_marks"), []memberAlts{trustChain, anyMD}, custom, cased("metadata")),
		},
		docType{
			name: "trust mark info", fresh: func() any { return &oidfed.TrustMarkInfo{} }, extra: true,
			dims: join(text("trust_mark_type", "trust_mark"), custom, cased("trust_mark")),
		},
		docType{
			name: "trust mark", fresh: func() any { return &oidfed.TrustMark{} }, zeros: " iat ", extra: true,
			dims: join(text("iss", "sub", "trust_mark_type"), maybe(text("logo_uri", "ref", "delegation")), pick("iat"), []memberAlts{{"exp", optTime}}, custom, cased("sub", "exp")),
		},
		docType{
			name: "delegation", fresh: func() any { return &oidfed.DelegationJWT{} }, zeros: " iat ", extra: true,
			dims: join(text("iss", "sub", "trust_mark_type"), maybe(text("ref")), pick("iat"), []memberAlts{{"exp", optTime}}, custom, cased("sub", "exp")),
		},
		docType{
			name: "trust mark specification", fresh: func() any { return &oidfed.TrustMarkSpec{} }, zeros: " lifetime include_extra_claims_in_info ", yaml: true, extra: true,
			dims: join(
				text("trust_mark_type"), maybe(text("ref", "logo_uri", "delegation_jwt")),
				[]memberAlts{{"lifetime", []any{absent, 0, 1, 3600, 0.5, 1e9}}, {"include_extra_claims_in_info", []any{absent, false, true}}}, custom, cased("ref", "lifetime"),
			),
		},
		docType{
			name: "trust mark owner", fresh: func() any {
				return &struct {
					O oidfed.TrustMarkOwners `json:"trust_mark_owners"`
				}{}
			}, dims: []memberAlts{{"trust_mark_owners", []any{absent, nil, M{}, M{"a": M{"sub": "https://o", "jwks": jwksOf("O")}}, M{"": M{"sub": "", "jwks": jwksOf("O")}, "b": M{"sub": "https://p", "jwks": M{"keys": []any{ecJWK}}}}}}},
		},
		docType{
			name: "trust mark owner configuration", fresh: func() any { return &oidfed.TrustMarkOwnerSpec{} }, yaml: true, only: true,
			dims: join(text("entity_id"), []memberAlts{{"jwks", []any{absent, nil, jwksOf("O"), jwksOf("O", "P"), M{"keys": []any{ecJWK}}, M{"keys": l()}}}}),
		},
		docType{
			name: "trust anchor", fresh: func() any { return &oidfed.TrustAnchor{} }, yaml: true,
			dims: join(text("entity_id"), []memberAlts{{"jwks", []any{absent, nil, jwksOf("O"), jwksOf("O", "P"), M{"keys": []any{ecJWK}}, M{"keys": l()}}}}),
		},
		docType{
			name: "trust mark configuration", fresh: func() any { return &oidfed.EntityConfigurationTrustMarkConfig{} }, yaml: true, only: true,
			zeros: " self_issued refresh lifetime min_lifetime refresh_grace_period include_extra_claims_in_info ",
			dims: join(
				text("trust_mark_type", "trust_mark_issuer", "trust_mark_jwt"),
				[]memberAlts{
					{"self_issued", []any{absent, false, true}}, {"refresh", []any{absent, false, true}},
					{"min_lifetime", []any{absent, 0, 1, 3600, 0.5}}, {"refresh_grace_period", []any{absent, 0, 1, 3600, 0.5}},
					{"self_issuance_spec", []any{absent, M{}, M{"trust_mark_type": "t", "lifetime": 5, "x_y": M{"z": []any{1}}}, M{"include_extra_claims_in_info": true, "ref": "r"}}},
				},
			),
		},
		docType{
			name: "keys", fresh: func() any {
				return &struct {
					J jwks.JWKS `json:"jwks" yaml:"jwks"`
				}{}
			}, yaml: true, dims: []memberAlts{{"jwks", func() (o []any) {
				o = append(o, absent, nil, M{"keys": l()})
				ed := jwksOf("K1")["keys"].([]any)[0].(M)
				for _, base := range []M{ecJWK, ed} {
					for _, k := range []string{"kid", "alg", "use", "x_member", "key_ops", "exp", "iat", "x5c"} {
						for _, v := range map[string][]any{
							"kid": {absent, "", "k", "https://ü"}, "alg": {absent, "ES256", "EdDSA"}, "use": {absent, "sig", "enc"},
							"x_member": extras(), "key_ops": {absent, l("verify"), l("sign", "verify")}, "exp": {1.0, 8000000000.0}, "iat": {7000000000.0}, "x5c": {absent},
						}[k] {
							m := M{}
							for a, b := range base {
								m[a] = b
							}
							if v == any(absent) {
								delete(m, k)
							} else {
								m[k] = v
							}
							o = append(o, M{"keys": []any{m}}, M{"keys": []any{m, ecJWK}}, M{"keys": []any{ed, m}})
						}
					}
				}
				return o
			}()}},
		},
		docType{
			name: "collected entity", fresh: func() any { return &oidfed.CollectedEntity{} }, extra: true,
			dims: join(
				text("entity_id"), pick("trust_marks"), []memberAlts{trustChain, {"entity_types", []any{absent, nil, l(), l("a", "b")}}}, custom, cased("entity_id"),
				[]memberAlts{{"ui_infos", []any{
					absent, nil, M{}, M{"openid_provider": M{}}, M{"openid_provider": M{"display_name": "d", "description": "e", "keywords": l("a"), "logo_uri": "l", "policy_uri": "p", "information_uri": "i", "x_y": 0.0}, "b": M{"Keywords": "x_cased"}},
				}}},
			),
		},
		docType{
			name: "collection response", fresh: func() any { return &oidfed.EntityCollectionResponse{} }, extra: true,
			dims: join(
				[]memberAlts{{"federation_entities", []any{l(), nil, absent, []any{M{"entity_id": "https://a", "x_y": []any{1.0}}}, []any{M{"entity_id": "https://a"}, M{"entity_id": "https://b", "entity_types": l("c")}}}}},
				maybe(text("next_entity_id")), []memberAlts{{"last_updated", optTime}}, custom, cased("next_entity_id"),
			),
		},
		docType{
			name: "error", fresh: func() any { return &oidfed.Error{} }, dims: text("error", "error_description"),
		},
		docType{
			name: "OIDC error", fresh: func() any { return &oidfed.OIDCErrorResponse{} }, dims: text("error", "error_description"),
		},
	)
	return out
}

func init() {
	registry["C19"] = func(x *X) {
		types := docTypes()
		for _, d := range types {
			small := len(d.dims) < 16
			depth := Pick(x, map[bool]int{true: 3, false: 2}[small], map[bool]int{true: 5, false: 3}[small])
			x.Explore(
				d.name, 0, func(c *C) {
					doc := M{}
					for _, m := range d.dims {
						if m.alts[0] != any(absent) {
							doc[m.name] = m.alts[0]
						}
					}
					// up to depth members differ from the first alternative
					for i, from := 0, 0; i < depth && from < len(d.dims); i++ {
						k := c.Choose(len(d.dims)-from+1, "member")
						if k == 0 {
							break
						}
						m := d.dims[from+k-1]
						from += k
						if v := Of(c, m.name, m.alts[1:]...); v == any(absent) {
							delete(doc, m.name)
						} else {
							doc[m.name] = v
						}
					}
					c.Commit()
					checkDoc(c, d, doc, d.name+" "+jsonOf(doc))
				},
			)
		}
		x.Explore(
			"one or many", 0, func(c *C) {
				type doc struct {
					V oidfed.SliceOrSingleValue[string] `json:"v" yaml:"v"`
				}
				v := Of[any](c, "value", "a", "", l("a"), l(""), l(), l("a", "b"), l("a", "a"), l("", "a", "b"))
				c.Commit()
				want := v
				if s, ok := v.([]any); ok && len(s) == 1 {
					want = s[0]
				}
				for _, form := range []string{"JSON", "YAML"} {
					var d, e doc
					var err1, err2, err3 error
					var b []byte
					var g any
					if form == "JSON" {
						err1 = json.Unmarshal([]byte(jsonOf(M{"v": v})), &d)
						b, err2 = json.Marshal(d)
						err3 = json.Unmarshal(b, &e)
						g = genericJSON(b)
					} else {
						err1 = yaml.Unmarshal([]byte(jsonOf(M{"v": v})), &d)
						b, err2 = yaml.Marshal(d)
						err3 = yaml.Unmarshal(b, &e)
						g = genericYAML(b)
					}
					if err1 != nil || err2 != nil || err3 != nil || jsonOf(g) != jsonOf(M{"v": want}) || jsonOf(d) != jsonOf(e) {
						c.Fail("%s: %s comes back as %s (%v, %v, %v)", form, jsonOf(v), b, err1, err2, err3)
						return
					}
					c.Step(form, jsonOf(v))
				}
				c.Outcome("same")
			},
		)
		x.Explore(
			"error documents", 0, func(c *C) {
				made := map[string]func(string) oidfed.Error{
					"invalid_request": oidfed.ErrorInvalidRequest, "invalid_client": oidfed.ErrorInvalidClient, "invalid_issuer": oidfed.ErrorInvalidIssuer,
					"invalid_subject": oidfed.ErrorInvalidSubject, "invalid_trust_anchor": oidfed.ErrorInvalidTrustAnchor, "invalid_trust_chain": oidfed.ErrorInvalidTrustChain,
					"invalid_metadata": oidfed.ErrorInvalidMetadata, "not_found": oidfed.ErrorNotFound, "server_error": oidfed.ErrorServerError,
					"temporarily_unavailable": oidfed.ErrorTemporarilyUnavailable, "unsupported_parameter": oidfed.ErrorUnsupportedParameter,
				}
				code := Of(c, "code", keysOf(made)...)
				desc := Of(c, "description", "", "d", "ü \"<>", "a\nb")
				c.Commit()
				c.Step("error", code, desc)
				if b, err := json.Marshal(made[code](desc)); err != nil || jsonOf(genericJSON(b)) != jsonOf(M{"error": code, "error_description": desc}) {
					c.Fail("the error %s with description %q is written as %s, %v", code, desc, b, err)
				}
				c.Outcome("written")
			},
		)
		x.Explore(
			"token response", 2, func(c *C) {
				type field struct {
					tag string
					get func(*oidfed.OIDCTokenResponse) any
				}
				doc := M{}
				for _, k := range []string{"access_token", "token_type", "refresh_token", "scope", "id_token"} {
					if v := DevOf[any](c, k, "v "+k, absent, "", nil, "ü"); v != any(absent) {
						doc[k] = v
					}
				}
				if v := DevOf[any](c, "expires_in", 3600.0, absent, 0.0, nil); v != any(absent) {
					doc["expires_in"] = v
				}
				for _, m := range []string{"x_custom", "Scope", "ACCESS_TOKEN", "x_other"} {
					if v := DevOf(c, m, append([]any{absent}, extras()...)...); v != any(absent) {
						doc[m] = v
					}
				}
				c.Commit()
				c.Step("decode", c.labels)
				var r oidfed.OIDCTokenResponse
				if err := json.Unmarshal([]byte(jsonOf(doc)), &r); err != nil {
					c.Fail("%s: refused: %v", jsonOf(doc), err)
					return
				}
				known := M{"access_token": r.AccessToken, "token_type": r.TokenType, "refresh_token": r.RefreshToken, "scope": r.Scopes, "id_token": r.IDToken, "expires_in": r.ExpiresIn}
				for k, v := range known {
					w := doc[k]
					if w == nil {
						w = map[bool]any{true: 0.0, false: ""}[k == "expires_in"]
					}
					if jsonOf(w) != jsonOf(v) {
						c.Fail("%s: %s is read as %s", jsonOf(doc), k, jsonOf(v))
						return
					}
				}
				for k, v := range doc {
					if _, ok := known[k]; !ok && (jsonOf(r.Extra[k]) != jsonOf(v)) {
						c.Fail("%s: %s is read as %s", jsonOf(doc), k, jsonOf(r.Extra))
						return
					}
				}
				for k := range r.Extra {
					if _, ok := doc[k]; !ok {
						c.Fail("%s: %s was not there", jsonOf(doc), k)
						return
					}
				}
				c.Outcome("same")
			},
		)
	}
}
