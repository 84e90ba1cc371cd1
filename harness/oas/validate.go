package oas

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// Validate checks a value against a node and returns errors (at most 20).
func (gr *Grammar) Validate(n *Node, v interface{}) []string {
	var errs []string

	gr.validate(n, v, "", &errs)

	return errs
}

func (gr *Grammar) validate(n *Node, v interface{}, path string, errs *[]string) {
	bad := func(f string, a ...interface{}) {
		if len(*errs) < 20 {
			*errs = append(*errs, path+": "+fmt.Sprintf(f, a...))
		}
	}

	n = gr.Get(n)

	switch n.Kind {
	case KAny:
		return
	case KStr:
		s, ok := v.(string)
		if !ok {
			bad("%s is not a string", short(v))

			return
		}

		if len(n.Enum) > 0 {
			for _, e := range n.Enum {
				if e == s {
					return
				}
			}

			bad("%q is not one of %v", s, n.Enum)
		}

		if n.KeyRe != nil && !n.KeyRe.MatchString(s) {
			bad("%q does not match %s", s, n.KeyRe)
		}
	case KBool:
		if _, ok := v.(bool); !ok {
			bad("%s is not a boolean", short(v))
		}
	case KInt:
		x, ok := v.(json.Number)
		if !ok || strings.ContainsAny(string(x), ".eE-") {
			bad("%s is not a non-negative integer", short(v))
		}
	case KNum:
		if _, ok := v.(json.Number); !ok {
			bad("%s is not a number", short(v))
		}
	case KArr:
		a, ok := v.([]interface{})
		if !ok {
			bad("%s is not an array", short(v))

			return
		}

		seen := map[string]bool{}

		for i, e := range a {
			if n.Unique {
				k := Canon(e)
				if seen[k] {
					bad("duplicate item %s", short(e))
				}

				seen[k] = true
			}

			gr.validate(n.Elem, e, path+"/"+strconv.Itoa(i), errs)
		}
	case KMap:
		m, ok := v.(map[string]interface{})
		if !ok {
			bad("%s is not an object", short(v))

			return
		}

		for _, k := range sortedKeys(m) {
			if n.KeyRe != nil && !n.KeyRe.MatchString(k) {
				bad("key %q is not allowed", k)
			}

			gr.validate(n.Elem, m[k], path+"/"+k, errs)
		}
	case KAlt:
		for _, a := range n.Alts {
			if a.Is(v) {
				gr.validate(a.T, v, path, errs)

				return
			}
		}

		bad("%s matches no alternative", short(v))
	case KSchema31:
		gr.validateSchema31(v, path, errs)
	case KObj:
		m, ok := v.(map[string]interface{})
		if !ok {
			bad("%s is not an object", short(v))

			return
		}

		for _, f := range n.Fields {
			if f.Req {
				if _, ok := m[f.Name]; !ok {
					bad("required %q is missing", f.Name)
				}
			}
		}

	keys:
		for _, k := range sortedKeys(m) {
			for _, f := range n.Fields {
				if f.Name == k {
					gr.validate(f.T, m[k], path+"/"+k, errs)

					continue keys
				}
			}

			if n.Ext && strings.HasPrefix(k, "x-") {
				continue
			}

			for _, p := range n.Pats {
				if p.Re.MatchString(k) {
					gr.validate(p.T, m[k], path+"/"+k, errs)

					continue keys
				}
			}

			bad("member %q is not allowed in %s", k, n.Name)
		}

		if n.Check != nil {
			if err := n.Check(m); err != nil {
				bad("%s: %v", n.Name, err)
			}
		}
	}
}

var schema31Types = map[string]bool{"string": true, "object": true, "array": true, "integer": true, "number": true, "boolean": true, "null": true}

// validateSchema31 checks well-formedness of JSON Schema keywords.
func (gr *Grammar) validateSchema31(v interface{}, path string, errs *[]string) {
	bad := func(f string, a ...interface{}) {
		if len(*errs) < 20 {
			*errs = append(*errs, path+": "+fmt.Sprintf(f, a...))
		}
	}

	if _, ok := v.(bool); ok {
		return
	}

	m, ok := v.(map[string]interface{})
	if !ok {
		bad("%s is not a schema", short(v))

		return
	}

	for _, k := range sortedKeys(m) {
		x := m[k]
		p := path + "/" + k

		switch k {
		case "type":
			switch t := x.(type) {
			case string:
				if !schema31Types[t] {
					bad("type %q", t)
				}
			case []interface{}:
				seen := map[interface{}]bool{}

				for _, e := range t {
					s, ok := e.(string)
					if !ok || !schema31Types[s] || seen[s] {
						bad("types %s", short(x))
					}

					seen[s] = true
				}

				if len(t) == 0 {
					bad("empty type list")
				}
			default:
				bad("type %s", short(x))
			}
		case "properties", "patternProperties", "$defs", "definitions", "dependentSchemas":
			mm, ok := x.(map[string]interface{})
			if !ok {
				bad("%s is not an object", k)

				continue
			}

			for _, kk := range sortedKeys(mm) {
				gr.validateSchema31(mm[kk], p+"/"+kk, errs)
			}
		case "items", "not", "additionalProperties", "if", "then", "else", "contains", "propertyNames":
			gr.validateSchema31(x, p, errs)
		case "allOf", "anyOf", "oneOf":
			a, ok := x.([]interface{})
			if !ok || len(a) == 0 {
				bad("%s is not a non-empty array", k)

				continue
			}

			for i, e := range a {
				gr.validateSchema31(e, p+"/"+strconv.Itoa(i), errs)
			}
		case "required":
			a, ok := x.([]interface{})
			if !ok {
				bad("required %s", short(x))

				continue
			}

			for _, e := range a {
				if _, ok := e.(string); !ok {
					bad("required %s", short(x))
				}
			}
		case "enum", "examples":
			if _, ok := x.([]interface{}); !ok {
				bad("%s %s", k, short(x))
			}
		case "title", "description", "format", "pattern", "$ref", "contentMediaType":
			if _, ok := x.(string); !ok {
				bad("%s %s", k, short(x))
			}
		case "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf":
			if _, ok := x.(json.Number); !ok {
				bad("%s %s", k, short(x))
			}
		case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
			y, ok := x.(json.Number)
			if !ok || strings.ContainsAny(string(y), ".eE-") {
				bad("%s %s", k, short(x))
			}
		case "deprecated", "readOnly", "writeOnly", "uniqueItems":
			if _, ok := x.(bool); !ok {
				bad("%s %s", k, short(x))
			}
		case "nullable":
			bad("nullable is not a keyword of OpenAPI 3.1")
		}
	}
}

// Mutation makes a document invalid.
type Mutation struct {
	Path  string
	What  string
	Class string // required, unknown, enum, type
	Apply func()
	Undo  func()
}

// Mutations lists the places where one change makes the (valid) value invalid.
func (gr *Grammar) Mutations(n *Node, v interface{}, strict bool) []Mutation {
	var ms []Mutation

	gr.mutations(n, v, "", strict, &ms)

	return ms
}

func (gr *Grammar) mutations(n *Node, v interface{}, path string, strict bool, ms *[]Mutation) {
	n = gr.Get(n)

	switch n.Kind {
	case KArr:
		a := v.([]interface{})
		for i := range a {
			i := i
			gr.mutations(n.Elem, a[i], path+"/"+strconv.Itoa(i), strict, ms)
			gr.wrong(n.Elem, path+"/"+strconv.Itoa(i), a[i], func(x interface{}) { a[i] = x }, ms)
		}
	case KMap:
		m := v.(map[string]interface{})
		for _, k := range sortedKeys(m) {
			k := k
			gr.mutations(n.Elem, m[k], path+"/"+k, strict, ms)
			gr.wrong(n.Elem, path+"/"+k, m[k], func(x interface{}) { m[k] = x }, ms)
		}

		if !strict || n.KeyRe == nil {
			return
		}

		// Names that are not permitted, with a value that would be fine.
		for _, k := range sortedKeys(m) {
			for i, odd := range []string{k + " ", "", "a/" + k, k + "~1", k + "\n", "ü" + k, "«" + k + "»", k + "[]", "#" + k, "a b"} {
				odd, val := odd, Clone(m[k])

				if _, ok := m[odd]; ok || n.KeyRe.MatchString(odd) || (i+len(*ms))%3 != 0 {
					continue
				}

				*ms = append(*ms, Mutation{Path: path, What: "add unknown member " + strconv.Quote(odd) + " to " + path[strings.LastIndex(path, "/")+1:], Class: "unknown",
					Apply: func() { m[odd] = val }, Undo: func() { delete(m, odd) }})
			}
		}
	case KAlt:
		for _, a := range n.Alts {
			if a.Is(v) {
				gr.mutations(a.T, v, path, strict, ms)

				return
			}
		}
	case KObj:
		m := v.(map[string]interface{})

		for _, f := range n.Fields {
			f := f

			old, ok := m[f.Name]
			if !ok {
				continue
			}

			if f.Req && f.Name != "$ref" {
				*ms = append(*ms, Mutation{Path: path, What: "remove required " + n.Name + "." + f.Name, Class: "required",
					Apply: func() { delete(m, f.Name) }, Undo: func() { m[f.Name] = old }})
			}

			gr.mutations(f.T, old, path+"/"+f.Name, strict, ms)
			gr.wrongNamed(n.Name+"."+f.Name, f.T, path+"/"+f.Name, old, func(x interface{}) { m[f.Name] = x }, ms)
		}

		for _, k := range sortedKeys(m) {
			k := k

			for _, p := range n.Pats {
				if n.Ext && strings.HasPrefix(k, "x-") {
					continue
				}

				isField := false

				for _, f := range n.Fields {
					if f.Name == k {
						isField = true
					}
				}

				if !isField && p.Re.MatchString(k) {
					gr.mutations(p.T, m[k], path+"/"+k, strict, ms)
					gr.wrongNamed(n.Name+".{}", p.T, path+"/"+k, m[k], func(x interface{}) { m[k] = x }, ms)
				}
			}
		}

		if strict && n.Strict {
			names := []string{"unknownMember", "X-upper", "xfoo", "$schema", " x-lead", "", "x_foo", "ex-foo"}

			// Other spellings of own members and members of other objects.
			for _, f := range n.Fields {
				if f.Name[0] != '$' {
					names = append(names, strings.Title(f.Name), strings.ToUpper(f.Name), f.Name+" ")
				}
			}

			names = append(names, memberNames...)

			// Names that are almost those of a pattern, with a value that would be fine.
			for _, p := range n.Pats {
				for _, k := range sortedKeys(m) {
					if !p.Re.MatchString(k) {
						continue
					}

					for i, near := range []string{k + "0", k + "x", " " + k, k + " ", "x" + k, k[1:], k[:len(k)-1], strings.ToUpper(k), strings.ToLower(k), k + k, k + "\n"} {
						near, val := near, Clone(m[k])

						if _, ok := m[near]; ok || n.knows(near) || n.Ext && strings.HasPrefix(near, "x-") || (i+len(*ms))%3 != 0 {
							continue
						}

						*ms = append(*ms, Mutation{Path: path, What: "add unknown member " + strconv.Quote(near) + " to " + n.Name, Class: "unknown",
							Apply: func() { m[near] = val }, Undo: func() { delete(m, near) }})
					}
				}
			}

			for i, k := range names {
				k := k

				if _, ok := m[k]; ok || n.knows(k) || i > 4 && (i+len(*ms))%5 != 0 {
					continue
				}

				val := []interface{}{"v", "v", nil, true, map[string]interface{}{}, []interface{}{}}[(i+len(*ms))%6]

				*ms = append(*ms, Mutation{Path: path, What: "add unknown member " + strconv.Quote(k) + " to " + n.Name, Class: "unknown",
					Apply: func() { m[k] = val }, Undo: func() { delete(m, k) }})
			}
		}
	}
}

var (
	enumValues  = []string{"simple", "form", "matrix", "label", "spaceDelimited", "pipeDelimited", "deepObject", "query", "path", "header", "cookie", "body", "formData", "apiKey", "http", "oauth2", "openIdConnect", "basic", "string", "integer", "null", "file", "date", "any"}
	memberNames = []string{"name", "in", "summary", "title", "url", "$ref", "schema", "example", "examples", "content", "type", "flows", "scheme", "scopes", "get", "query", "default", "200", "callbacks", "identifier", "jsonSchemaDialect", "webhooks", "pathItems", "style", "const", "id", "patternProperties", "if", "contains", "items"}
)

// knows tells if an object may have a member.
func (n *Node) knows(k string) bool {
	for _, f := range n.Fields {
		if f.Name == k {
			return true
		}
	}

	for _, p := range n.Pats {
		if p.Re.MatchString(k) {
			return true
		}
	}

	return k == "$ref"
}

func (gr *Grammar) wrong(n *Node, path string, old interface{}, set func(interface{}), ms *[]Mutation) {
	gr.wrongNamed("item", n, path, old, set, ms)
}

func (gr *Grammar) wrongNamed(name string, n *Node, path string, old interface{}, set func(interface{}), ms *[]Mutation) {
	n = gr.Get(n)
	add := func(class string, vals ...interface{}) {
		for _, x := range vals {
			x := x
			*ms = append(*ms, Mutation{Path: path, What: class + ": " + name + " := " + short(x), Class: class, Apply: func() { set(x) }, Undo: func() { set(old) }})
		}
	}

	switch n.Kind {
	case KStr:
		if len(n.Enum) > 0 {
			add("enum", "bogus", strings.ToUpper(n.Enum[0])+"x", "")

			// Values of other enumerations and other spellings of own ones.
			for i, e := range append(append([]string{}, enumValues...), strings.ToUpper(n.Enum[0]), strings.Title(n.Enum[len(n.Enum)-1]), n.Enum[0]+" ", n.Enum[0]+"s") {
				own := false
				for _, x := range n.Enum {
					own = own || x == e
				}

				if !own && (i+len(*ms))%4 == 0 {
					add("enum", e)
				}
			}
		}

		add("type", json.Number("42"), true, []interface{}{"a"}, map[string]interface{}{"a": "b"})
	case KBool:
		add("type", "true", json.Number("1"), []interface{}{true})
	case KInt:
		add("type", "5", true, json.Number("1.5"))
	case KNum:
		add("type", "5", true, []interface{}{json.Number("1")})
	case KArr:
		add("type", "a", json.Number("3"), map[string]interface{}{"a": "b"}, true)
	case KMap, KObj:
		add("type", "a", json.Number("3"), []interface{}{"a"}, true)
	case KSchema31:
		add("type", "a", json.Number("3"), []interface{}{"a"})
	case KAlt:
		if n.Name == "additionalProperties" {
			add("type", "a", json.Number("3"), []interface{}{"a"})
		} else {
			add("type", "a", json.Number("3"), []interface{}{"a"}, true)
		}
	}
}
