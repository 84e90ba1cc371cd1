// Package jsch evaluates JSON Schemas of three dialects on JSON values: draft 7 (what jsonschema-go models), 2020-12
// (OpenAPI 3.1) and the schema object of OpenAPI 3.0. It is written from the specifications and shares no code with
// the conversions under test.
package jsch

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"unicode/utf8"
)

// Dialect selects keyword semantics.
type Dialect int

// Dialects.
const (
	Draft7 Dialect = iota
	Draft2020
	OAS30
)

// Env resolves references.
type Env struct {
	Dialect Dialect
	// Resolve finds the schema of a reference.
	Resolve func(ref string) (schema interface{}, ok bool)
	// Unresolved collects references that could not be resolved.
	Unresolved map[string]bool

	// Cycle is set when a schema referred to itself without consuming any of the value, or when evaluation was
	// given up: the verdict is then not meaningful.
	Cycle bool

	active map[activeKey]bool
	steps  int
}

type activeKey struct {
	schema uintptr
	value  string
}

var (
	reMu    sync.Mutex
	reCache = map[string]*regexp.Regexp{}
)

func match(pattern, s string) bool {
	reMu.Lock()
	re, ok := reCache[pattern]

	if !ok {
		re, _ = regexp.Compile(pattern)
		reCache[pattern] = re
	}
	reMu.Unlock()

	return re == nil || re.MatchString(s)
}

// TypeOf names the JSON type of a value.
func TypeOf(v interface{}) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case float64:
		return "number"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	}

	panic(fmt.Sprintf("not a JSON value: %T", v))
}

func isType(t string, v interface{}) bool {
	vt := TypeOf(v)
	if t == "integer" {
		return vt == "number" && v.(float64) == math.Trunc(v.(float64))
	}

	return t == vt
}

func num(v interface{}) (float64, bool) {
	f, ok := v.(float64)

	return f, ok
}

// Valid tells if the schema accepts the value.
func (e *Env) Valid(schema, v interface{}) bool {
	switch s := schema.(type) {
	case bool:
		return s
	case map[string]interface{}:
		e.steps++
		if e.steps > 20000 {
			e.Cycle = true

			return true
		}

		return e.validObj(s, v)
	case nil:
		return true
	}

	panic(fmt.Sprintf("not a schema: %T", schema))
}

func (e *Env) validRef(ref string, v interface{}) bool {
	target, ok := e.Resolve(ref)
	if !ok {
		if e.Unresolved == nil {
			e.Unresolved = map[string]bool{}
		}

		e.Unresolved[ref] = true

		return true
	}

	// A schema that refers to itself without consuming any of the value accepts it (greatest fixed point).
	key := activeKey{value: fmt.Sprintf("%p", v)}
	if m, ok := target.(map[string]interface{}); ok {
		key.schema = reflect.ValueOf(m).Pointer()
	}

	key.value = ref + "|" + valueID(v)

	if e.active == nil {
		e.active = map[activeKey]bool{}
	}

	if e.active[key] {
		e.Cycle = true

		return true
	}

	e.active[key] = true
	defer delete(e.active, key)

	return e.Valid(target, v)
}

func valueID(v interface{}) string {
	switch x := v.(type) {
	case map[string]interface{}:
		return fmt.Sprintf("m%x", reflect.ValueOf(x).Pointer())
	case []interface{}:
		if len(x) == 0 {
			return "a0"
		}

		return fmt.Sprintf("a%x/%d", reflect.ValueOf(x).Pointer(), len(x))
	}

	return fmt.Sprintf("%T%v", v, v)
}

func (e *Env) validObj(s map[string]interface{}, v interface{}) bool {
	if ref, ok := s["$ref"].(string); ok {
		if !e.validRef(ref, v) {
			return false
		}

		if e.Dialect != Draft2020 {
			return true // siblings are ignored
		}
	}

	// Type.
	switch t := s["type"].(type) {
	case string:
		ok := isType(t, v)
		if !ok && e.Dialect == OAS30 && v == nil && s["nullable"] == true {
			ok = true
		}

		if !ok {
			return false
		}
	case []interface{}:
		ok := false

		for _, x := range t {
			if isType(x.(string), v) {
				ok = true
			}
		}

		if !ok {
			return false
		}
	}

	if enum, ok := s["enum"].([]interface{}); ok {
		found := false

		for _, x := range enum {
			if reflect.DeepEqual(x, v) {
				found = true
			}
		}

		if !found {
			return false
		}
	}

	if e.Dialect != OAS30 {
		if c, ok := s["const"]; ok && !reflect.DeepEqual(c, v) {
			return false
		}
	}

	return e.validNumber(s, v) && e.validString(s, v) && e.validArray(s, v) && e.validMap(s, v) && e.validComb(s, v)
}

func (e *Env) validNumber(s map[string]interface{}, v interface{}) bool {
	f, ok := num(v)
	if !ok {
		return true
	}

	if m, ok := num(s["multipleOf"]); ok && math.Mod(f, m) != 0 {
		return false
	}

	minEx, maxEx := s["exclusiveMinimum"], s["exclusiveMaximum"]

	if m, ok := num(s["minimum"]); ok && (f < m || e.Dialect == OAS30 && minEx == true && f == m) {
		return false
	}

	if m, ok := num(s["maximum"]); ok && (f > m || e.Dialect == OAS30 && maxEx == true && f == m) {
		return false
	}

	if e.Dialect != OAS30 {
		if m, ok := num(minEx); ok && f <= m {
			return false
		}

		if m, ok := num(maxEx); ok && f >= m {
			return false
		}
	}

	return true
}

func (e *Env) validString(s map[string]interface{}, v interface{}) bool {
	str, ok := v.(string)
	if !ok {
		return true
	}

	n := float64(utf8.RuneCountInString(str))

	if m, ok := num(s["minLength"]); ok && n < m {
		return false
	}

	if m, ok := num(s["maxLength"]); ok && n > m {
		return false
	}

	if p, ok := s["pattern"].(string); ok && !match(p, str) {
		return false
	}

	return true
}

func (e *Env) validArray(s map[string]interface{}, v interface{}) bool {
	a, ok := v.([]interface{})
	if !ok {
		return true
	}

	n := float64(len(a))

	if m, ok := num(s["minItems"]); ok && n < m {
		return false
	}

	if m, ok := num(s["maxItems"]); ok && n > m {
		return false
	}

	if s["uniqueItems"] == true {
		for i := range a {
			for j := 0; j < i; j++ {
				if reflect.DeepEqual(a[i], a[j]) {
					return false
				}
			}
		}
	}

	rest := 0

	if e.Dialect == Draft2020 {
		if p, ok := s["prefixItems"].([]interface{}); ok {
			for i := 0; i < len(p) && i < len(a); i++ {
				if !e.Valid(p[i], a[i]) {
					return false
				}
			}

			rest = len(p)
		}
	}

	switch items := s["items"].(type) {
	case []interface{}: // draft 7 tuples
		for i := 0; i < len(items) && i < len(a); i++ {
			if !e.Valid(items[i], a[i]) {
				return false
			}
		}

		if ai, ok := s["additionalItems"]; ok {
			for i := len(items); i < len(a); i++ {
				if !e.Valid(ai, a[i]) {
					return false
				}
			}
		}
	case nil:
	default:
		for i := rest; i < len(a); i++ {
			if !e.Valid(items, a[i]) {
				return false
			}
		}
	}

	if e.Dialect == OAS30 {
		return true
	}

	if c, ok := s["contains"]; ok {
		cnt := 0.0

		for _, x := range a {
			if e.Valid(c, x) {
				cnt++
			}
		}

		minC := 1.0
		if m, ok := num(s["minContains"]); ok && e.Dialect == Draft2020 {
			minC = m
		}

		if cnt < minC {
			return false
		}

		if m, ok := num(s["maxContains"]); ok && e.Dialect == Draft2020 && cnt > m {
			return false
		}
	}

	return true
}

func (e *Env) validMap(s map[string]interface{}, v interface{}) bool {
	o, ok := v.(map[string]interface{})
	if !ok {
		return true
	}

	n := float64(len(o))

	if m, ok := num(s["minProperties"]); ok && n < m {
		return false
	}

	if m, ok := num(s["maxProperties"]); ok && n > m {
		return false
	}

	if req, ok := s["required"].([]interface{}); ok {
		for _, r := range req {
			if _, ok := o[r.(string)]; !ok {
				return false
			}
		}
	}

	props, _ := s["properties"].(map[string]interface{})
	patProps, _ := s["patternProperties"].(map[string]interface{})

	if e.Dialect == OAS30 {
		patProps = nil
	}

	addl, hasAddl := s["additionalProperties"]

	for k, x := range o {
		seen := false

		if ps, ok := props[k]; ok {
			seen = true

			if !e.Valid(ps, x) {
				return false
			}
		}

		for p, ps := range patProps {
			if match(p, k) {
				seen = true

				if !e.Valid(ps, x) {
					return false
				}
			}
		}

		if !seen && hasAddl && !e.Valid(addl, x) {
			return false
		}
	}

	if e.Dialect == OAS30 {
		return true
	}

	if pn, ok := s["propertyNames"]; ok {
		for k := range o {
			if !e.Valid(pn, k) {
				return false
			}
		}
	}

	for _, kw := range []string{"dependentRequired", "dependentSchemas", "dependencies"} {
		deps, _ := s[kw].(map[string]interface{})
		for k, d := range deps {
			if _, ok := o[k]; !ok {
				continue
			}

			if l, ok := d.([]interface{}); ok {
				for _, r := range l {
					if _, ok := o[r.(string)]; !ok {
						return false
					}
				}

				continue
			}

			if !e.Valid(d, v) {
				return false
			}
		}
	}

	return true
}

func (e *Env) validComb(s map[string]interface{}, v interface{}) bool {
	if l, ok := s["allOf"].([]interface{}); ok {
		for _, x := range l {
			if !e.Valid(x, v) {
				return false
			}
		}
	}

	if l, ok := s["anyOf"].([]interface{}); ok {
		found := false

		for _, x := range l {
			if e.Valid(x, v) {
				found = true
			}
		}

		if !found {
			return false
		}
	}

	if l, ok := s["oneOf"].([]interface{}); ok {
		n := 0

		for _, x := range l {
			if e.Valid(x, v) {
				n++
			}
		}

		if n != 1 {
			return false
		}
	}

	if n, ok := s["not"]; ok && e.Valid(n, v) {
		return false
	}

	if e.Dialect == OAS30 {
		return true
	}

	if cond, ok := s["if"]; ok {
		if e.Valid(cond, v) {
			if t, ok := s["then"]; ok && !e.Valid(t, v) {
				return false
			}
		} else if t, ok := s["else"]; ok && !e.Valid(t, v) {
			return false
		}
	}

	return true
}

// subKeywords lists keywords that hold one schema, lists of schemas and maps of schemas.
var (
	SubOne  = []string{"not", "additionalProperties", "items", "additionalItems", "contains", "propertyNames", "if", "then", "else", "unevaluatedProperties", "unevaluatedItems", "contentSchema"}
	SubList = []string{"allOf", "anyOf", "oneOf", "prefixItems", "items"}
	SubMap  = []string{"properties", "patternProperties", "dependentSchemas", "$defs", "definitions", "dependencies"}
)

// Walk calls f for a schema and all its subschemas (not following references).
func Walk(schema interface{}, path string, f func(path string, s map[string]interface{})) {
	s, ok := schema.(map[string]interface{})
	if !ok {
		return
	}

	f(path, s)

	for _, k := range SubOne {
		if m, ok := s[k].(map[string]interface{}); ok {
			Walk(m, path+"/"+k, f)
		}
	}

	for _, k := range SubList {
		if l, ok := s[k].([]interface{}); ok {
			for i, x := range l {
				Walk(x, fmt.Sprintf("%s/%s/%d", path, k, i), f)
			}
		}
	}

	for _, k := range SubMap {
		if m, ok := s[k].(map[string]interface{}); ok {
			for n, x := range m {
				Walk(x, path+"/"+k+"/"+n, f)
			}
		}
	}
}

// Refs lists the references of a schema.
func Refs(schema interface{}) map[string]bool {
	res := map[string]bool{}

	Walk(schema, "", func(_ string, s map[string]interface{}) {
		if r, ok := s["$ref"].(string); ok {
			res[r] = true
		}
	})

	return res
}

// ComponentRef gives the component name of a reference.
func ComponentRef(ref string) (string, bool) {
	const p = "#/components/schemas/"

	return strings.TrimPrefix(ref, p), strings.HasPrefix(ref, p)
}

// Reachable lists components that are reachable from a schema.
func Reachable(schema interface{}, components map[string]interface{}) (reach map[string]bool, dangling bool) {
	reach = map[string]bool{}

	var visit func(s interface{})

	visit = func(s interface{}) {
		for r := range Refs(s) {
			n, ok := ComponentRef(r)
			if !ok {
				continue
			}

			if _, ok := components[n]; !ok {
				dangling = true
			}

			if !reach[n] {
				reach[n] = true
				visit(components[n])
			}
		}
	}

	visit(schema)

	return reach, dangling
}
