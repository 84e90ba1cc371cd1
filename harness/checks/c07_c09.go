package checks

import (
	"fmt"

	"github.com/swaggest/jsonschema-go"
	"verif/harness/corpus/special"
	"verif/harness/mon"
)

// modelCase adds random operations to one document and compares a part of each with the reference model.
func modelCase(c *mon.Ctx, kinds []string, part func(cmp *comparer, x *xOp, op map[string]interface{}), size func(x *xOp) (string, int)) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	s := setups[0]

	if c.Idx%3 == 2 {
		s = setups[r.Intn(len(setups))]
	}

	t := newTarget(ver, s)
	m := newModel(ver, s)
	own := newOwners()
	g := newOpGen(r)
	g.reject = m.roleClash
	g.g.Odd = r.Intn(2) == 0

	if len(kinds) > 0 && r.Intn(4) != 0 {
		g.kinds = kinds
	}

	c.Count("setup:"+s.name, 1)

	type pair struct {
		o opDef
		x *xOp
	}

	var added []pair

	n := 1 + r.Intn(8)
	for i := 0; i < n; i++ {
		o := g.op()
		if ver == "3.1" && r.Intn(8) == 0 {
			o.webhook = true
		}

		if r.Intn(6) == 0 {
			o.presets = g.somePresets(o)
			c.Count("operations_with_parameters_before", 1)
		}

		x := m.expect(o)
		det := map[string]interface{}{"version": ver, "setup": s.name, "operation": describeOp(o)}

		var err error

		if !c.Guard(ver+": adding an operation", det, func() { _, err = t.add(o) }) {
			return
		}

		if (err != nil) != (x.refused != "") {
			c.Violate(fmt.Sprintf("%s: adding an operation returned %v, expected refusal: %q", ver, err, x.refused), det)

			return
		}

		if err != nil {
			c.Count("refused_operations", 1)
			c.Eval(ver+" refused", true)

			continue
		}

		doc, err := t.tree()
		if err != nil {
			c.Violate(ver+": document can not be encoded: "+err.Error(), det)

			return
		}

		added = append(added, pair{o, x})

		check := func(p pair, when string) {
			op := findOp(doc, p.o)
			if op == nil {
				c.Violate(ver+": operation is not in the document", det)

				return
			}

			cmp := newComparer(doc, own, func(what string) {
				c.Violate(ver+": "+when+what, map[string]interface{}{"case": det, "checked": describeOp(p.o), "document": trim(mon.JSON(op), 4000)})
			})

			part(cmp, p.x, op)
			c.Count("schemas_compared", cmp.n)
			c.Count("references_followed", cmp.refs)
			c.Count("nullability_leaks", cmp.leaks)
		}

		check(pair{o, x}, "")

		sig, sz := size(x)
		c.Eval(ver+" "+sig, sz > 0)
		c.Count("operations", 1)

		if c.WantSample() && sz > 1 {
			c.Sample(map[string]interface{}{"version": ver, "operation": describeOp(o), "documented": trim(mon.JSON(findOp(doc, o)), 3000)})
		}
	}

	// Later operations did not change earlier ones.
	if len(added) > 1 {
		doc, _ := t.tree()

		for _, p := range added {
			cmp := newComparer(doc, own, func(what string) {
				c.Violate(ver+": after later operations: "+what, map[string]interface{}{"version": ver, "setup": s.name, "operation": describeOp(p.o)})
			})

			part(cmp, p.x, findOp(doc, p.o))
		}
	}
}

// recursiveHeaders documents headers of structures that are nested in themselves.
func recursiveHeaders(c *mon.Ctx) {
	for _, ver := range []string{"3.0", "3.1"} {
		for _, v := range special.RecursiveHeaders {
			o := opDef{method: "get", path: "/a", pattern: "/a", resps: []unit{{structure: v}}}
			t := newTarget(ver, setups[0])

			var err error

			if !c.Guard(ver+": adding an operation with recursive header", describeOp(o), func() { _, err = t.add(o) }) {
				continue
			}

			if err != nil {
				c.Violate(ver+": adding an operation with recursive header: "+err.Error(), describeOp(o))

				continue
			}

			doc, err := t.tree()
			if err != nil {
				c.Violate(ver+": document can not be encoded: "+err.Error(), describeOp(o))

				continue
			}

			hs := asMap(asMap(asMap(findOp(doc, o)["responses"])["200"])["headers"])
			fs, _ := locFields(v, []string{"header"}, nil)

			if len(hs) != len(fs) {
				c.Violate(fmt.Sprintf("%s: headers %v of %d fields", ver, keysOf(hs), len(fs)), describeOp(o))
			}

			for _, f := range fs {
				s := asMap(asMap(hs[f.name])["schema"])
				if s["type"] == nil {
					c.Violate(ver+": header "+f.name+" is "+short(hs[f.name]), describeOp(o))
				}

				c.Count("recursive_headers", 1)
			}
		}
	}
}

// pointing describes itself as a reference, which is a schema of 3.0 that has no members of its own.
type pointing struct{}

func (pointing) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"$ref":"#/components/schemas/X"}`), nil
}

type pointingText string

func (pointingText) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.WithRef("#/components/schemas/X")

	return s, nil
}

// referenceHeaders documents headers whose types describe themselves as references.
func referenceHeaders(c *mon.Ctx) {
	type raw struct {
		H pointing `header:"X-H" required:"true" description:"Pointing."`
		N int      `header:"X-N" deprecated:"true"`
	}

	type text struct {
		H pointingText `header:"X-H"`
		P *pointing    `header:"X-P"`
	}

	for _, ver := range []string{"3.0", "3.1"} {
		for _, v := range []interface{}{raw{}, text{}} {
			for _, method := range []string{"get", "head"} {
				o := opDef{method: method, path: "/a", pattern: "/a", resps: []unit{{structure: v}}}
				t := newTarget(ver, setups[0])

				var err error

				if !c.Guard(ver+": adding an operation with reference header", describeOp(o), func() { _, err = t.add(o) }) {
					continue
				}

				if err != nil {
					c.Violate(ver+": adding an operation with reference header: "+err.Error(), describeOp(o))

					continue
				}

				doc, err := t.tree()
				if err != nil {
					c.Violate(ver+": document can not be encoded: "+err.Error(), describeOp(o))

					continue
				}

				hs := asMap(asMap(asMap(findOp(doc, o)["responses"])["200"])["headers"])
				if len(hs) != 2 || asMap(asMap(hs["X-H"])["schema"])["$ref"] != "#/components/schemas/X" {
					c.Violate(ver+": reference headers are "+short(hs), describeOp(o))
				}

				c.Count("reference_headers", 1)
			}
		}
	}
}

func init() {
	register(&mon.Check{
		ID:    "C07",
		Rule:  "random request structures (dynamic and named, all field kinds, constraint tags, mappings, embedded, embedded pointers, reflector options); every documented parameter compared member by member and schema by schema (references followed) with an independent reference model, no parameter missing or extra, refusal of duplicates, marks of forbidden parameters",
		Level: "exploration",
		Quick: 7000, Thorough: 60000,
		Rare: nullLeaks,
		Case: func(c *mon.Ctx) {
			modelCase(c, []string{"params", "params", "formtag", "embedded", "mixed", "junk"}, (*comparer).params, func(x *xOp) (string, int) {
				sig := ""
				c.Count("referenced_parameters", len(x.paramRefs))

				for _, p := range x.params {
					if p.preset {
						c.Count("parameters_kept", 1)

						continue
					}

					c.Count("parameters_in_"+p.in, 1)

					if p.asJSON {
						c.Count("json_parameters", 1)
					}

					if p.members["style"] == "deepObject" {
						c.Count("deep_object_parameters", 1)
					}

					sig += p.in[:1] + p.field.Type.Kind().String()[:2]
				}

				c.Count("marks_of_forbidden", len(x.forbid))

				return trim(sig, 12), len(x.params)
			})
		},
		Need: map[string]int{"referenced_parameters": 50, "parameters_kept": 20, "parameters_in_query": 50, "parameters_in_path": 50, "parameters_in_header": 50, "parameters_in_cookie": 50, "json_parameters": 5, "deep_object_parameters": 5, "marks_of_forbidden": 5, "refused_operations": 5},
	})
	register(&mon.Check{
		ID:    "C08",
		Rule:  "random request structures and content units (forms, files, JSON, raw, enforced bodies, explicit content types, several units, all methods); the request body compared content type by content type and schema by schema (references followed) with an independent reference model",
		Level: "exploration",
		Quick: 7000, Thorough: 60000,
		Rare: nullLeaks,
		Case: func(c *mon.Ctx) {
			modelCase(c, nil, (*comparer).body, func(x *xOp) (string, int) {
				for ct := range x.body {
					c.Count("content:"+ct, 1)
				}

				return fmt.Sprint(contentKeys(x.body)), len(x.body)
			})
		},
		Need: map[string]int{"content:application/json": 50, "content:application/x-www-form-urlencoded": 50, "content:multipart/form-data": 20, "content:text/csv": 5, "content:image/png": 3},
	})
	register(&mon.Check{
		ID:    "C09",
		Rule:  "random response units (all statuses, families, default, several per status, headers, recursive and reference headers, content types with parameters, descriptions, HEAD); every response compared member by member with an independent reference model",
		Level: "exploration",
		Quick: 7000, Thorough: 60000,
		Fixed: func(c *mon.Ctx) {
			recursiveHeaders(c)
			referenceHeaders(c)
		},
		Rare: nullLeaks,
		Case: func(c *mon.Ctx) {
			modelCase(c, nil, (*comparer).responses, func(x *xOp) (string, int) {
				sig, n := "", 0

				for s, r := range x.responses {
					if r == nil {
						continue
					}

					c.Count("responses", 1)
					c.Count("response_headers", len(r.headers))
					c.Count("response_contents", len(r.content))

					if len(s) == 3 && s[1] == 'X' {
						c.Count("status_families", 1)
					}

					if s == "default" {
						c.Count("default_responses", 1)
					}

					n += len(r.headers) + len(r.content)
				}

				sig = fmt.Sprintf("%d responses %d parts", len(x.responses), n)

				return sig, n
			})
		},
		Need: map[string]int{"responses": 100, "response_headers": 50, "response_contents": 50, "status_families": 10, "default_responses": 10, "recursive_headers": 20, "reference_headers": 8},
	})
}
