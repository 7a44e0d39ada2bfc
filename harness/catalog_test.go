package zzverif

import (
	"reflect"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
)

// The parameters of the document types, read off the library's own types, and
// values for them.

type param struct {
	tag string
	typ reflect.Type
}

// paramsOf lists the JSON members of a struct type.
func paramsOf(t reflect.Type) []param {
	var out []param
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		j, ok := f.Tag.Lookup("json")
		if !f.IsExported() || !ok || j == "-" {
			continue
		}
		tag, _, _ := strings.Cut(j, ",")
		if tag != "" {
			out = append(out, param{tag, f.Type})
		}
	}
	return out
}

type entityTyp struct {
	tag    string
	params []param
}

func entityTypes() []entityTyp {
	var out []entityTyp
	for _, p := range paramsOf(reflect.TypeOf(oidfed.Metadata{})) {
		out = append(out, entityTyp{p.tag, paramsOf(p.typ.Elem())})
	}
	return out
}

var jwksType = reflect.TypeOf(jwks.JWKS{})

// zeroJSON are values that mean "nothing" for a type; someJSON values that do
// mean something.
func zeroJSON(t reflect.Type) []any {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch {
	case t == jwksType:
		return nil
	case t.Kind() == reflect.String:
		return []any{""}
	case t.Kind() == reflect.Bool:
		return []any{false}
	case t.Kind() == reflect.Int || t.Kind() == reflect.Int64 || t.Kind() == reflect.Float64:
		return []any{0.0}
	case t.Kind() == reflect.Slice:
		return []any{[]any{}}
	case t.Kind() == reflect.Map:
		return []any{M{}}
	}
	return nil
}

func someJSON(t reflect.Type) []any {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch {
	case t == jwksType:
		return []any{jwksOf("K1"), jwksOf("K1", "K2")}
	case t.Kind() == reflect.String:
		return []any{"a", "b c", "https://x.example.org/ü?q=1&r=<2>"}
	case t.Kind() == reflect.Bool:
		return []any{true}
	case t.Kind() == reflect.Int || t.Kind() == reflect.Int64 || t.Kind() == reflect.Float64:
		return []any{1.0, 4000000000.0}
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.String:
		return []any{[]any{"a"}, []any{"a", "b"}, []any{"b", "a", "a", ""}}
	case t.Kind() == reflect.Map && t.Elem().Kind() == reflect.String:
		return []any{M{"a": "b"}, M{"a": "b", "c": ""}}
	case t.Kind() == reflect.Map && t.Elem().Kind() == reflect.Slice:
		return []any{M{"a": []any{"b"}}, M{"a": []any{"b", "c"}, "d": []any{}}}
	case t.Kind() == reflect.Map:
		return []any{M{"a": "b"}, M{"a": M{"b": []any{1.0, true, nil, "x"}}, "c": 1.5}}
	}
	return nil
}

// extras are members that no type knows.
func extras() []any {
	return []any{
		"x", "", 1.0, 0.0, 1.5, -3.0, 12345678901.0, true, false, nil, []any{}, []any{"a", 1.0, nil, M{"b": true}}, M{}, M{"a": M{"b": []any{M{}}}},
	}
}

// ecJWK is a public key of another kind.
var ecJWK = M{"kty": "EC", "crv": "P-256", "kid": "e", "x": "MKBCTNIcKUSDii11ySs3526iDZ8AiTo7Tu6KPAqv7D4", "y": "4Etl6SRW2YiLUrN5vfvVHuhp7x8PxltmWWlbbM4IFyM"}

// memberAlts are a member of a document and what it may be.
type memberAlts struct {
	name string
	alts []any
}

// statementClaims are the claims of an entity statement apart from issuer,
// subject and keys.
func statementClaims() []memberAlts {
	return []memberAlts{
		{"constraints", []any{
			absent, M{}, M{"max_path_length": 0}, M{"max_path_length": 2}, M{"naming_constraints": M{}}, M{"naming_constraints": M{"permitted": l()}},
			M{"naming_constraints": M{"permitted": l("l"), "excluded": l(".x")}}, M{"allowed_entity_types": l()}, M{"allowed_entity_types": l("a", "b")}, nil,
		}},
		{"aud", []any{absent, "", "https://aud", nil}},
		{"crit", []any{absent, l(), l("x"), nil}},
		{"metadata_policy_crit", []any{absent, l(), l("regexp"), l("a", "b"), nil}},
		{"metadata_policy", []any{
			absent, M{}, M{"openid_provider": M{}}, M{"openid_provider": M{"scopes_supported": M{}}},
			M{"openid_provider": M{"scopes_supported": M{"subset_of": l(), "essential": false}}}, M{"x_type": M{"p": M{"add": l("a"), "unknown": M{"x": 1.0}}}},
			M{"openid_relying_party": M{"a": M{"value": nil}, "b": M{"value": 1.0}, "c": M{"value": true}, "d": M{"value": "s"}, "e": M{"value": M{"f": 1.5}}}}, nil,
		}},
		{"trust_marks", []any{
			absent, l(), []any{tmInfo("a")}, []any{tmInfo("a"), tmInfo("b", "x_extra", M{"y": 1.0})}, []any{M{}}, nil,
		}},
		{"trust_mark_issuers", []any{absent, M{}, M{"a": l()}, M{"a": l("x", "y"), "b": l("z")}, M{"a": nil}, nil}},
		{"trust_mark_owners", []any{absent, M{}, M{"a": ownerSpec()}, M{"a": ownerSpec(), "b": M{"sub": "https://p", "jwks": jwksOf("O", "P")}}, nil}},
		{"authority_hints", []any{absent, l(), l("https://t"), l("https://t", "https://u"), nil}},
		{"metadata", []any{
			absent, M{}, M{"federation_entity": M{}}, M{"x_type": M{}}, M{"x_type": M{"a": 1.0}, "openid_provider": M{"issuer": "x", "x_y": nil}},
			M{"openid_relying_party": M{"jwks": jwksOf("K1")}}, nil,
		}},
		{"source_endpoint", []any{absent, "", "https://s"}},
		{"trust_anchor_id", []any{absent, "", "https://s"}},
		{"x_claim", append([]any{absent}, extras()...)},
		{"exp", []any{8000000000, 7500000000.5, absent, 0, 253402300799}},
		{"iat", []any{7000000000, 7000000000.25, absent, 0}},
	}
}

func tmInfo(id string, kv ...any) M {
	m := M{"trust_mark_type": id, "trust_mark": "a.b.c"}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

func ownerSpec() M { return M{"sub": "https://o", "jwks": jwksOf("O")} }
