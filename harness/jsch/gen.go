package jsch

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
)

// Gen generates schemas and values.
type Gen struct {
	R       *rand.Rand
	Dialect Dialect
	Names   []string // components that may be referenced
	Cov     map[string]int

	// RefSiblings allows keywords next to $ref (2020-12).
	RefSiblings bool
	// Unevaluated allows keywords that the evaluator does not implement but that hold schemas.
	Unevaluated bool
}

func (g *Gen) cov(k string) {
	if g.Cov != nil {
		g.Cov[k]++
	}
}

func (g *Gen) p(n int) bool { return g.R.Intn(n) == 0 }

var (
	propNames = []string{"a", "b", "c", "id", "x-y", "long name", "é"}
	patterns  = []string{"^a", "b$", "^[a-c]*$", "^.{2}$", "\\d", "x|y"}
	strPool   = []string{"", "a", "b", "ab", "abc", "x", "y1", "id", "éé", "a1b2c3", "long name", "zzzz"}
	numPool   = []interface{}{-2.0, -1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 6.0, 100.0}
	formats   = []string{"int32", "int64", "date", "date-time", "uuid", "byte", "double", "custom"}
)

// Schema generates a schema.
func (g *Gen) Schema(depth int) interface{} {
	r := g.R

	if len(g.Names) > 0 && (g.p(5) || depth <= 0 && g.p(3)) {
		g.cov("$ref")
		s := map[string]interface{}{"$ref": "#/components/schemas/" + g.Names[r.Intn(len(g.Names))]}

		if g.RefSiblings && g.p(2) {
			g.constraints(s, depth)
			g.cov("$ref sibling")
		}

		return s
	}

	if g.Dialect != OAS30 && g.p(14) {
		g.cov("boolean schema")

		return g.p(2)
	}

	s := map[string]interface{}{}
	if g.p(20) {
		g.cov("empty schema")

		return s
	}

	g.constraints(s, depth)
	g.annotations(s)

	return s
}

func (g *Gen) set(s map[string]interface{}, k string, v interface{}) {
	s[k] = v
	g.cov(k)
}

// Value generates any JSON value.
func (g *Gen) Value(depth int) interface{} {
	r := g.R

	n := 7
	if depth <= 0 {
		n = 5
	}

	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return g.p(2)
	case 2, 3:
		if g.p(2) {
			return numPool[r.Intn(len(numPool))]
		}

		return strPool[r.Intn(len(strPool))]
	case 4:
		return strPool[r.Intn(len(strPool))]
	case 5:
		a := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			a = append(a, g.Value(depth-1))
		}

		return a
	default:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[propNames[r.Intn(len(propNames))]] = g.Value(depth - 1)
		}

		return m
	}
}

func (g *Gen) constraints(s map[string]interface{}, depth int) {
	r := g.R
	types := []string{"string", "number", "integer", "boolean", "array", "object", "object", "array", "string", "number"}
	t := types[r.Intn(len(types))]

	switch {
	case g.p(5): // no type
	case g.p(5):
		if g.Dialect == OAS30 {
			g.set(s, "type", t)
			g.set(s, "nullable", true)
		} else {
			g.set(s, "type", []interface{}{t, "null"})
			if g.p(2) {
				s["type"] = []interface{}{"null", t}
			}

			g.cov("nullable type")
		}
	default:
		g.set(s, "type", t)

		if g.Dialect == OAS30 && g.p(10) {
			g.set(s, "nullable", false)
		}
	}

	if _, typed := s["type"]; !typed {
		t = types[r.Intn(len(types))]
	}

	if g.p(10) {
		e := []interface{}{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			v := g.Value(1)
			for _, x := range e {
				if reflect.DeepEqual(x, v) {
					v = fmt.Sprintf("e%d", i)
				}
			}

			e = append(e, v)
		}

		g.set(s, "enum", e)
	}

	if g.Dialect != OAS30 && g.p(20) {
		v := g.Value(1)
		if v != nil || g.Dialect == Draft7 {
			g.set(s, "const", v)
		}
	}

	switch t {
	case "number", "integer":
		g.numbers(s)
	case "string":
		if g.p(3) {
			g.set(s, "minLength", float64(r.Intn(3)))
		}

		if g.p(3) {
			g.set(s, "maxLength", float64(r.Intn(4)))
		}

		if g.p(4) {
			g.set(s, "pattern", patterns[r.Intn(len(patterns))])
		}
	case "array":
		if depth > 0 && !g.p(4) || g.Dialect == OAS30 && s["type"] == "array" {
			g.set(s, "items", g.Schema(depth-1))
		}

		if g.p(4) {
			g.set(s, "minItems", float64(r.Intn(3)))
		}

		if g.p(4) {
			g.set(s, "maxItems", float64(r.Intn(4)))
		}

		if g.p(5) {
			g.set(s, "uniqueItems", g.p(2))
		}

		if g.Dialect == Draft2020 && depth > 0 {
			if g.p(5) {
				g.set(s, "prefixItems", []interface{}{g.Schema(depth - 1), g.Schema(depth - 1)})
			}

			if s["prefixItems"] == nil && g.p(10) {
				g.set(s, "items", []interface{}{g.Schema(depth - 1), g.Schema(depth - 1)})

				if g.p(2) {
					g.set(s, "additionalItems", g.Schema(depth-1))
				}
			}

			if g.p(6) {
				g.set(s, "contains", g.Schema(depth-1))
			}
		}
	case "object":
		if depth > 0 && !g.p(4) {
			ps := map[string]interface{}{}
			for i := 1 + r.Intn(3); i > 0; i-- {
				ps[propNames[r.Intn(len(propNames))]] = g.Schema(depth - 1)
			}

			g.set(s, "properties", ps)
		}

		if g.p(3) {
			req := []interface{}{}
			used := map[string]bool{}

			for i := 1 + r.Intn(2); i > 0; i-- {
				n := propNames[r.Intn(len(propNames))]
				if !used[n] {
					used[n] = true
					req = append(req, n)
				}
			}

			g.set(s, "required", req)
		}

		if g.p(3) {
			if depth > 0 && g.p(2) {
				g.set(s, "additionalProperties", g.Schema(depth-1))
				g.cov("additionalProperties schema")
			} else {
				g.set(s, "additionalProperties", g.p(2))
				g.cov("additionalProperties boolean")
			}
		}

		if g.p(5) {
			g.set(s, "minProperties", float64(r.Intn(3)))
		}

		if g.p(5) {
			g.set(s, "maxProperties", float64(r.Intn(4)))
		}

		if g.Dialect == Draft2020 && depth > 0 {
			if g.p(6) {
				g.set(s, "patternProperties", map[string]interface{}{patterns[r.Intn(len(patterns))]: g.Schema(depth - 1)})
			}

			if g.p(8) {
				g.set(s, "propertyNames", g.Schema(depth-1))
			}

			if g.p(8) {
				g.set(s, "dependentSchemas", map[string]interface{}{propNames[r.Intn(3)]: g.Schema(depth - 1)})
			}

			// Keywords of earlier drafts.
			if g.p(12) {
				var dep interface{} = g.Schema(depth - 1)
				if g.p(3) {
					dep = []interface{}{propNames[r.Intn(3)]}
				}

				g.set(s, "dependencies", map[string]interface{}{propNames[r.Intn(3)]: dep})
			}

			if g.p(12) {
				g.set(s, "definitions", map[string]interface{}{propNames[r.Intn(3)]: g.Schema(depth - 1)})
			}

			if g.p(10) {
				g.set(s, "dependentRequired", map[string]interface{}{propNames[r.Intn(3)]: []interface{}{propNames[r.Intn(3)]}})
			}
		}
	}

	if depth <= 0 {
		return
	}

	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if g.p(8) {
			l := []interface{}{}
			for i := 1 + r.Intn(2); i > 0; i-- {
				l = append(l, g.Schema(depth-1))
			}

			g.set(s, k, l)
		}
	}

	if g.p(10) {
		g.set(s, "not", g.Schema(depth-1))
	}

	if g.Dialect == Draft2020 {
		if g.p(10) {
			g.set(s, "if", g.Schema(depth-1))

			if g.p(2) {
				g.set(s, "then", g.Schema(depth-1))
			}

			if g.p(2) {
				g.set(s, "else", g.Schema(depth-1))
			}
		}

		if g.Unevaluated {
			if g.p(12) {
				g.set(s, "contentSchema", g.Schema(depth-1))
			}

			if g.p(12) {
				g.set(s, "$defs", map[string]interface{}{"d": g.Schema(depth - 1)})
			}
		}
	}
}

func (g *Gen) numbers(s map[string]interface{}) {
	r := g.R

	bound := func() float64 { return numPool[r.Intn(len(numPool)-1)].(float64) }

	if g.p(3) {
		g.set(s, "minimum", bound())

		if g.Dialect == OAS30 && g.p(2) {
			g.set(s, "exclusiveMinimum", g.p(2))
		}
	}

	if g.p(3) {
		g.set(s, "maximum", bound())

		if g.Dialect == OAS30 && g.p(2) {
			g.set(s, "exclusiveMaximum", g.p(2))
		}
	}

	if g.Dialect != OAS30 {
		if g.p(4) {
			g.set(s, "exclusiveMinimum", bound())
		}

		if g.p(4) {
			g.set(s, "exclusiveMaximum", bound())
		}
	}

	if g.p(5) {
		g.set(s, "multipleOf", []interface{}{0.5, 1.0, 2.0, 3.0}[r.Intn(4)])
	}
}

func (g *Gen) annotations(s map[string]interface{}) {
	r := g.R

	if g.p(5) {
		g.set(s, "title", fmt.Sprintf("T%d", r.Intn(9)))
	}

	if g.p(5) {
		g.set(s, "description", fmt.Sprintf("d %d", r.Intn(9)))
	}

	if g.p(8) {
		v := g.Value(2)
		if v == nil {
			v = "d"
		}

		g.set(s, "default", v)
	}

	if g.p(6) {
		g.set(s, "format", formats[r.Intn(len(formats))])
	}

	if g.p(8) {
		v := g.Value(2)
		if v == nil {
			v = 0.0
		}

		if g.Dialect == OAS30 {
			g.set(s, "example", v)
		} else {
			g.set(s, "examples", []interface{}{v})
		}
	}

	for _, k := range []string{"deprecated", "readOnly", "writeOnly"} {
		if g.p(10) {
			g.set(s, k, g.p(3))
		}
	}

	if s["readOnly"] == true && s["writeOnly"] == true {
		delete(s, "readOnly")
	}

	if g.p(8) {
		g.set(s, fmt.Sprintf("x-ext%d", r.Intn(3)), g.Value(2))
	}
}

// Near generates a value that the schema may accept, following its keywords most of the time.
func (g *Gen) Near(schema interface{}, resolve func(string) (interface{}, bool), depth int) interface{} {
	r := g.R

	s, ok := schema.(map[string]interface{})
	if !ok || depth <= 0 || g.p(12) {
		return g.Value(2)
	}

	if ref, ok := s["$ref"].(string); ok && !g.p(4) {
		if t, ok := resolve(ref); ok {
			return g.Near(t, resolve, depth-1)
		}
	}

	if e, ok := s["enum"].([]interface{}); ok && len(e) > 0 && !g.p(3) {
		return e[r.Intn(len(e))]
	}

	if c, ok := s["const"]; ok && !g.p(3) {
		return c
	}

	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if l, ok := s[k].([]interface{}); ok && g.p(2) {
			return g.Near(l[r.Intn(len(l))], resolve, depth-1)
		}
	}

	for _, k := range []string{"if", "then", "else"} {
		if x, ok := s[k]; ok && g.p(3) {
			return g.Near(x, resolve, depth-1)
		}
	}

	t := ""

	switch x := s["type"].(type) {
	case string:
		t = x
	case []interface{}:
		t, _ = x[r.Intn(len(x))].(string)
	}

	if s["nullable"] == true && g.p(6) {
		return nil
	}

	if t == "" {
		switch {
		case s["properties"] != nil || s["required"] != nil || s["additionalProperties"] != nil || s["minProperties"] != nil || s["patternProperties"] != nil || s["maxProperties"] != nil:
			t = "object"
		case s["items"] != nil || s["minItems"] != nil || s["maxItems"] != nil || s["prefixItems"] != nil || s["contains"] != nil:
			t = "array"
		case s["pattern"] != nil || s["minLength"] != nil || s["maxLength"] != nil:
			t = "string"
		case s["minimum"] != nil || s["maximum"] != nil || s["multipleOf"] != nil || s["exclusiveMinimum"] != nil || s["exclusiveMaximum"] != nil:
			t = "number"
		}
	}

	switch t {
	case "null":
		return nil
	case "boolean":
		return g.p(2)
	case "number", "integer":
		for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			if f, ok := s[k].(float64); ok && g.p(2) {
				return f + []float64{0, -1, 1, 0.5, 0, 2}[r.Intn(6)]
			}
		}

		return numPool[r.Intn(len(numPool))]
	case "string":
		if g.p(3) {
			n := 0
			if f, ok := s["maxLength"].(float64); ok {
				n = int(f)
			} else if f, ok := s["minLength"].(float64); ok {
				n = int(f)
			}

			n += r.Intn(3) - 1
			if n >= 0 {
				return strings.Repeat([]string{"a", "b", "é", "1"}[r.Intn(4)], n)
			}
		}

		return strPool[r.Intn(len(strPool))]
	case "array":
		n := r.Intn(4)
		if f, ok := s["minItems"].(float64); ok && n < int(f) && g.p(2) {
			n = int(f)
		}

		a := []interface{}{}
		pre, _ := s["prefixItems"].([]interface{})

		for i := 0; i < n; i++ {
			switch {
			case i < len(pre):
				a = append(a, g.Near(pre[i], resolve, depth-1))
			case s["contains"] != nil && g.p(2):
				a = append(a, g.Near(s["contains"], resolve, depth-1))
			case s["items"] != nil:
				a = append(a, g.Near(s["items"], resolve, depth-1))
			default:
				a = append(a, g.Value(1))
			}
		}

		return a
	case "object":
		m := map[string]interface{}{}
		ps, _ := s["properties"].(map[string]interface{})

		// In a fixed order, for reproducible runs.
		for _, n := range propNames {
			x, ok := ps[n]
			if ok && !g.p(4) {
				m[n] = g.Near(x, resolve, depth-1)
			}
		}

		if req, ok := s["required"].([]interface{}); ok {
			for _, n := range req {
				if _, ok := m[n.(string)]; !ok && !g.p(5) {
					m[n.(string)] = g.Near(ps[n.(string)], resolve, depth-1)
				}
			}
		}

		if ap, ok := s["additionalProperties"]; ok && g.p(2) {
			m[propNames[r.Intn(len(propNames))]] = g.Near(ap, resolve, depth-1)
		} else if g.p(4) {
			m[propNames[r.Intn(len(propNames))]] = g.Value(1)
		}

		return m
	}

	return g.Value(2)
}
