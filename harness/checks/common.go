// Package checks has the workloads and oracles of all properties.
package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/mon"
	"verif/harness/oas"
)

// All checks.
var All []*mon.Check

func register(c *mon.Check) { All = append(All, c) }

// codec is implemented by documents and their components.
type codec interface {
	json.Marshaler
	json.Unmarshaler
}

type spec interface {
	codec
	UnmarshalYAML(b []byte) error
	MarshalYAML() ([]byte, error)
}

func newSpec(version string) spec {
	if version == "3.0" {
		return &openapi3.Spec{}
	}

	return &openapi31.Spec{}
}

var (
	gr30 = oas.V30()
	gr31 = oas.V31()
)

func grammar(version string) *oas.Grammar {
	if version == "3.0" {
		return gr30
	}

	return gr31
}

// members lists all Type.member of a grammar.
func members(gr *oas.Grammar) []string {
	var res []string

	add := func(n *oas.Node) {
		for _, f := range n.Fields {
			res = append(res, n.Name+"."+f.Name)
		}
	}

	add(gr.Root)

	for _, n := range gr.Named {
		if n.Kind == oas.KObj {
			add(n)
		}
	}

	sort.Strings(res)

	return res
}

var mem30, mem31 = members(gr30), members(gr31)

// genDoc generates a valid document.
func genDoc(r *rand.Rand, version string, idx int, cov map[string]int, plain bool) interface{} {
	gr, mem := gr30, mem30
	if version == "3.1" {
		gr, mem = gr31, mem31
	}

	for {
		g := &oas.Gen{R: r, Gr: gr, Cov: cov, Density: []float64{0.04, 0.12, 0.2, 0.3, 0.5}[r.Intn(5)], Budget: 60 + r.Intn(400), Plain: plain}
		if idx >= 0 && r.Intn(4) != 0 {
			g.Force = mem[idx%len(mem)]
		}

		doc := g.Gen(gr.Root)
		if !plain && cov != nil && r.Intn(60) == 0 {
			enlarge(r, version, asMap(doc))
			cov["enlarged"]++
		}

		if errs := gr.Validate(gr.Root, doc); len(errs) > 0 {
			panic(fmt.Sprintf("generator made an invalid document: %v", errs))
		}

		return doc
	}
}

// enlarge adds what small documents do not have: deep nesting, wide objects and long texts.
func enlarge(r *rand.Rand, version string, doc map[string]interface{}) {
	sub := func(m map[string]interface{}, k string) map[string]interface{} {
		if s := asMap(m[k]); s != nil {
			return s
		}

		m[k] = map[string]interface{}{}

		return asMap(m[k])
	}

	comps := sub(doc, "components")

	var deep interface{} = map[string]interface{}{"type": "string", "maxLength": json.Number("7")}

	wraps := []func(interface{}) map[string]interface{}{
		func(v interface{}) map[string]interface{} { return map[string]interface{}{"not": v} },
		func(v interface{}) map[string]interface{} { return map[string]interface{}{"type": "array", "items": v} },
		func(v interface{}) map[string]interface{} { return map[string]interface{}{"allOf": []interface{}{v}} },
		func(v interface{}) map[string]interface{} {
			return map[string]interface{}{"oneOf": []interface{}{map[string]interface{}{"type": "boolean"}, v}}
		},
		func(v interface{}) map[string]interface{} { return map[string]interface{}{"additionalProperties": v} },
		func(v interface{}) map[string]interface{} {
			return map[string]interface{}{"properties": map[string]interface{}{"a": v, "b": map[string]interface{}{"type": "integer"}}}
		},
		func(v interface{}) map[string]interface{} {
			return map[string]interface{}{"anyOf": []interface{}{v}, "x-deep": []interface{}{v}}
		},
	}

	size := 0
	for i, n := 0, 10+r.Intn(40); i < n; i++ {
		k := r.Intn(len(wraps))
		if k == len(wraps)-1 { // doubles the size
			if size++; size > 4 {
				k = 0
			}
		}

		deep = wraps[k](deep)
	}

	sub(comps, "schemas")["Deep"] = deep

	wide := map[string]interface{}{}
	for i, n := 0, 50+r.Intn(300); i < n; i++ {
		wide[fmt.Sprintf("p%d", i*7919%1009)] = map[string]interface{}{"type": "integer", "minimum": json.Number(fmt.Sprint(i))}
	}

	sub(comps, "schemas")["Wide"] = map[string]interface{}{"type": "object", "properties": wide}
	asMap(doc["info"])["description"] = strings.Repeat([]string{"long text ", "x", "line\n", "äö ", "a: b # "}[r.Intn(5)], 200+r.Intn(3000)) + "."

	var op interface{} = map[string]interface{}{"responses": map[string]interface{}{"200": map[string]interface{}{"description": "inner"}}}
	for i, n := 0, 2+r.Intn(8); i < n; i++ {
		op = map[string]interface{}{
			"responses": map[string]interface{}{"default": map[string]interface{}{"description": fmt.Sprint(i)}},
			"callbacks": map[string]interface{}{"c": map[string]interface{}{"{$request.body#/url}": map[string]interface{}{"post": op}}},
		}
	}

	for i, n := 0, r.Intn(30); i < n; i++ {
		doc[fmt.Sprintf("x-wide-%d", i)] = json.Number(fmt.Sprint(i))
	}

	paths := sub(doc, "paths")
	paths["/deep/callbacks"] = map[string]interface{}{"put": op}

	for i, n := 0, r.Intn(60); i < n; i++ {
		paths[fmt.Sprintf("/wide/%d", i)] = map[string]interface{}{"get": map[string]interface{}{"responses": map[string]interface{}{"204": map[string]interface{}{"description": ""}}}}
	}
}

func countCov(c *mon.Ctx, prefix string, cov map[string]int) {
	for k, v := range cov {
		c.Count(prefix+k, v)
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}

	return s
}

func typeName(v interface{}) string { return reflect.TypeOf(v).Elem().String() }

func sortStrs(s []string) { sort.Strings(s) }

func maxInt(a, b int) int {
	if a > b {
		return a
	}

	return b
}
