package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verif/harness/mon"
	"verif/harness/oas"
)

var compNameRe = regexp.MustCompile(`^[a-zA-Z0-9._-]+$`)

// walkRefs calls f for every $ref that is a reference: examples, defaults, enumerations and names of properties are data.
func walkRefs(v interface{}, path string, f func(ref, path string)) {
	switch x := v.(type) {
	case map[string]interface{}:
		if r, ok := x["$ref"].(string); ok {
			f(r, path)
		}

		for k, e := range x {
			switch k {
			case "example", "examples", "default", "enum", "const":
				continue
			case "properties", "patternProperties", "$defs", "definitions", "dependentSchemas":
				for n, p := range asMap(e) {
					walkRefs(p, path+"/"+k+"/"+n, f)
				}

				continue
			}

			if strings.HasPrefix(k, "x-") {
				continue
			}

			walkRefs(e, path+"/"+k, f)
		}
	case []interface{}:
		for i, e := range x {
			walkRefs(e, fmt.Sprintf("%s/%d", path, i), f)
		}
	}
}

// validDocument tells what is wrong with a document.
func validDocument(ver string, b []byte) (problems []string, stats map[string]int) {
	stats = map[string]int{}

	v, dups, err := oas.Parse(b)
	if err != nil {
		return []string{"not JSON: " + err.Error()}, stats
	}

	for _, d := range dups {
		problems = append(problems, "member twice: "+d)
	}

	gr := grammar(ver)
	problems = append(problems, gr.Validate(gr.Root, v)...)

	doc := asMap(v)
	comps := asMap(asMap(doc["components"])["schemas"])
	stats["components"] = len(comps)

	for n := range comps {
		if !compNameRe.MatchString(n) {
			problems = append(problems, fmt.Sprintf("component name %q", n))
		}
	}

	walkRefs(doc, "", func(ref, path string) {
		stats["references"]++

		if n := strings.TrimPrefix(ref, compPrefix); n == ref || comps[n] == nil {
			problems = append(problems, "dangling reference "+ref+" at "+path)
		}
	})

	ops := func(section string, checkPath bool) {
		for path, pi := range asMap(doc[section]) {
			for method, o := range asMap(pi) {
				op := asMap(o)
				if op == nil || strings.HasPrefix(method, "x-") || method == "parameters" || method == "servers" {
					continue
				}

				stats["operations"]++

				at := section + " " + path + " " + method
				seen := map[string]bool{}
				inPath := map[string]bool{}
				ps, _ := op["parameters"].([]interface{})

				for _, p := range ps {
					m := asMap(p)
					k := fmt.Sprint(m["in"], " ", m["name"])

					if seen[k] {
						problems = append(problems, at+": parameter twice: "+k)
					}

					seen[k] = true
					stats["parameters"]++

					if m["in"] == "path" {
						inPath[fmt.Sprint(m["name"])] = true

						if m["required"] != true {
							problems = append(problems, at+": optional path parameter "+k)
						}
					}
				}

				if ph := placeholders(path); checkPath && fmt.Sprint(sortedSet(ph)) != fmt.Sprint(sortedSet(inPath)) {
					problems = append(problems, fmt.Sprintf("%s: path parameters %v", at, sortedSet(inPath)))
				}

				rs := asMap(op["responses"])
				if len(rs) == 0 {
					problems = append(problems, at+": no responses")
				}

				for s, r := range rs {
					stats["responses"]++

					if _, ok := asMap(r)["description"].(string); !ok && asMap(r)["$ref"] == nil {
						problems = append(problems, at+": no description of response "+s)
					}
				}
			}
		}
	}

	ops("paths", true)
	ops("webhooks", true)
	sort.Strings(problems)

	return problems, stats
}

func sortedSet(m map[string]bool) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}

	sort.Strings(res)

	return res
}

func init() {
	register(&mon.Check{
		ID:    "C06",
		Rule:  "random histories of operations and webhooks over random and hand-written structures, all content options and reflector options; after every call the whole encoded document is validated against the OpenAPI grammar (3.1 schemas: keyword shapes), every reference resolved, component names, parameters, placeholders and responses checked",
		Level: "exploration",
		Quick: 8000, Thorough: 60000,
		Case: func(c *mon.Ctx) {
			r := c.R
			ver := []string{"3.0", "3.1"}[c.Idx%2]
			s := setups[r.Intn(len(setups))]
			t := newTarget(ver, s)
			g := newOpGen(r)
			t.refl.SpecSchema().SetTitle("API")
			t.refl.SpecSchema().SetVersion("1")

			var log []interface{}

			n := 1 + r.Intn(7)
			for i := 0; i < n; i++ {
				o := g.op()
				if ver == "3.1" && r.Intn(8) == 0 {
					o.webhook = true
				}

				log = append(log, describeOp(o))
				det := map[string]interface{}{"version": ver, "setup": s.name, "operations": log}

				// Parameters that are there already are not to be listed again.
				if len(o.reqs) > 0 && r.Intn(8) == 0 {
					o.reqs = append(o.reqs, o.reqs[r.Intn(len(o.reqs))])
					c.Count("repeated_units", 1)
				}

				var err error

				if !c.Guard(ver+": adding an operation", det, func() { _, err = t.add(o) }) {
					return
				}

				if err != nil {
					c.Count("refused_operations", 1)
				}

				b, err := t.doc().MarshalJSON()
				if err != nil {
					c.Violate(ver+": document can not be encoded: "+err.Error(), det)

					return
				}

				problems, stats := validDocument(ver, b)
				for _, p := range problems {
					c.Violate(ver+": "+p, det)
				}

				c.Count("documents_validated", 1)
				c.Count("references_resolved", stats["references"])
				c.Max("max_components", stats["components"])
				c.Eval(fmt.Sprintf("%s %s %d components %d references %d parameters", ver, s.name, stats["components"], stats["references"], stats["parameters"]), stats["references"] > 0)

				if len(problems) > 0 {
					return
				}

				if c.WantSample() && stats["references"] > 10 {
					c.Sample(map[string]interface{}{"version": ver, "setup": s.name, "operations": log, "stats": stats})
				}
			}
		},
		Need: map[string]int{"references_resolved": 1000, "refused_operations": 10, "max_components": 20},
	})
}
