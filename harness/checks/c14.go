package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"

	"verif/harness/corpus/special"
	"verif/harness/mon"
)

// callback is one call of a walk, made or expected.
type callback struct {
	in, name string
	required bool
	schema   interface{} // nil for no schema
	defs     map[string]interface{}
}

func (c callback) key() string { return fmt.Sprintf("%s %s required=%v", c.in, c.name, c.required) }

// documentedCalls lists what a walk over the unit of a documented operation has to report.
func documentedCalls(op map[string]interface{}, response bool) (res []callback, err string) {
	if response {
		for _, r := range asMap(op["responses"]) {
			for n, h := range asMap(asMap(r)["headers"]) {
				if s, ok := asMap(h)["schema"]; ok {
					res = append(res, callback{in: "header", name: http.CanonicalHeaderKey(n), required: asMap(h)["required"] == true, schema: s})
				}
			}

			for _, ct := range asMap(asMap(r)["content"]) {
				if s, ok := asMap(ct)["schema"]; ok {
					res = append(res, callback{in: "body", name: "body", schema: s})
				}
			}
		}

		return res, ""
	}

	ps, _ := op["parameters"].([]interface{})
	for _, p := range ps {
		m := asMap(p)
		s := m["schema"]

		if s == nil {
			s = asMap(asMap(m["content"])[ctJSON])["schema"]
		}

		res = append(res, callback{in: fmt.Sprint(m["in"]), name: fmt.Sprint(m["name"]), required: m["required"] == true, schema: s})
	}

	for ct, c := range asMap(asMap(op["requestBody"])["content"]) {
		s := asMap(c)["schema"]

		switch ct {
		case ctJSON:
			res = append(res, callback{in: "body", name: "body", schema: s})
		case ctForm:
			res = append(res, callback{in: "formFields", schema: s})
		}
	}

	return res, ""
}

// formFields spreads form bodies into their fields.
func formFields(cs []callback, comps map[string]interface{}) (res []callback) {
	for _, c := range cs {
		if c.in != "formFields" {
			res = append(res, c)

			continue
		}

		s := c.schema
		if n, ok := refName(s); ok {
			s = comps[n]
		}

		req := map[string]bool{}

		l, _ := asMap(s)["required"].([]interface{})
		for _, n := range l {
			req[fmt.Sprint(n)] = true
		}

		for n, p := range asMap(asMap(s)["properties"]) {
			res = append(res, callback{in: "formData", name: n, required: req[n], schema: p})
		}
	}

	return res
}

// sameSchema compares a schema of the document with an exported one, references are followed on both sides.
func sameSchema(ver string, a interface{}, comps map[string]interface{}, b interface{}, defs map[string]interface{}) string {
	seen := map[[2]string]bool{}

	var cmp func(a, b interface{}, path string) string

	merge := func(m map[string]interface{}, all map[string]interface{}, side string) (interface{}, string, string) {
		n, ok := refName(m)
		if !ok {
			return m, "", ""
		}

		d, ok := all[n]
		if !ok {
			return nil, n, side + " has no definition " + n
		}

		return d, n, ""
	}

	isSchemaPos := func(m interface{}) bool { _, ok := m.(map[string]interface{}); return ok }

	cmp = func(a, b interface{}, path string) string {
		if !isSchemaPos(a) || !isSchemaPos(b) {
			if la, ok := a.([]interface{}); ok {
				lb, ok := b.([]interface{})
				if !ok || len(la) != len(lb) {
					return fmt.Sprintf("%s: %s and %s", path, short(a), short(b))
				}

				for i := range la {
					if d := cmp(la[i], lb[i], fmt.Sprintf("%s/%d", path, i)); d != "" {
						return d
					}
				}

				return ""
			}

			if !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("%s: %s and %s", path, short(a), short(b))
			}

			return ""
		}

		ma, na, e1 := merge(asMap(a), comps, "document")
		mb, nb, e2 := merge(asMap(b), defs, "exported schema")

		if e1 != "" || e2 != "" {
			return path + ": " + e1 + e2
		}

		if na != "" || nb != "" {
			if seen[[2]string{na + "\n" + path, nb}] || (na != "" && nb != "" && seen[[2]string{na, nb}]) {
				return ""
			}

			seen[[2]string{na + "\n" + path, nb}] = true

			if na != "" && nb != "" {
				seen[[2]string{na, nb}] = true

				if na != nb {
					return path + ": reference to " + na + " and to " + nb
				}
			}

			sa, sb := without(asMap(a), "$ref", "type"), without(asMap(b), "$ref", "type")
			if na != "" && nb != "" && !reflect.DeepEqual(sa, sb) {
				return fmt.Sprintf("%s: besides $ref %s and %s", path, short(sa), short(sb))
			}

			return cmp(ma, mb, path+"->"+na)
		}

		for _, k := range keysOf(asMap(a), asMap(b)) {
			va, okA := asMap(a)[k]
			vb, okB := asMap(b)[k]

			if okA != okB {
				return fmt.Sprintf("%s/%s: %s and %s", path, k, short(va), short(vb))
			}

			if d := cmp(va, vb, path+"/"+k); d != "" {
				return d
			}
		}

		return ""
	}

	return cmp(a, b, "")
}

func without(m map[string]interface{}, keys ...string) map[string]interface{} {
	res := map[string]interface{}{}
	for k, v := range m {
		res[k] = v
	}

	for _, k := range keys {
		delete(res, k)
	}

	return res
}

// walk runs a walk and records it.
func (t *target) walk(method string, cu openapi.ContentUnit, response bool, stopAt int, stop error) (calls []callback, done int, forbidden map[string]bool, err error) {
	forbidden = map[string]bool{}

	cb := func(in openapi.In, name string, js *jsonschema.SchemaOrBool, required bool) error {
		c := callback{in: string(in), name: name, required: required}

		if js != nil {
			c.schema, c.defs = exported(*js)

			if t.ver == "3.0" {
				c.schema = to30(c.schema)

				for n, d := range c.defs {
					c.defs[n] = to30(d)
				}
			}
		}

		calls = append(calls, c)

		if len(calls) == stopAt {
			return stop
		}

		return nil
	}

	fin := func(oc openapi.OperationContext) {
		done++

		for _, in := range []openapi.In{openapi.InQuery, openapi.InPath, openapi.InCookie, openapi.InHeader} {
			if oc.UnknownParamsAreForbidden(in) {
				forbidden["x-forbid-unknown-"+string(in)] = true
			}
		}
	}

	if response {
		err = t.refl.WalkResponseJSONSchemas(cu, cb, fin)
	} else {
		err = t.refl.WalkRequestJSONSchemas(method, cu, cb, fin)
	}

	return calls, done, forbidden, err
}

// matchCalls compares calls with expected ones.
func matchCalls(ver string, comps map[string]interface{}, exp, got []callback) string {
	byKey := func(cs []callback) map[string][]callback {
		m := map[string][]callback{}
		for _, c := range cs {
			m[c.key()] = append(m[c.key()], c)
		}

		return m
	}

	e, g := byKey(exp), byKey(got)
	keys := map[string]bool{}

	for k := range e {
		keys[k] = true
	}

	for k := range g {
		keys[k] = true
	}

	for _, k := range sortedSet(keys) {
		if len(e[k]) != len(g[k]) {
			return fmt.Sprintf("%d calls for %s, documented %d", len(g[k]), k, len(e[k]))
		}

		// Several contents have no names, try all matches.
		used := map[int]bool{}

		for _, x := range e[k] {
			found, why := false, ""

			for i, y := range g[k] {
				if used[i] {
					continue
				}

				if (x.schema == nil) != (y.schema == nil) {
					why = fmt.Sprintf("schema %s, documented %s", short(y.schema), short(x.schema))

					continue
				}

				if x.schema != nil {
					if why = sameSchema(ver, x.schema, comps, y.schema, y.defs); why != "" {
						continue
					}
				}

				used[i], found = true, true

				break
			}

			if !found {
				return "schema of " + k + " (documented and walked): " + why
			}
		}
	}

	return ""
}

func c14Unit(c *mon.Ctx, r *rand.Rand, ver string, s setup, before []opDef, u unit, method string, response bool) {
	det := map[string]interface{}{"version": ver, "setup": s.name, "method": method, "unit": describeUnit(u), "response": response}
	t := newTarget(ver, s)

	for _, o := range before {
		c.Guard(ver+": adding an operation", describeOp(o), func() { _, _ = t.add(o) })
	}

	// Reflector that has no document yet.
	if len(before) == 0 && r.Intn(4) == 0 {
		if t.r3 != nil {
			t.r3.Spec = nil
		} else {
			t.r31.Spec = nil
		}

		c.Count("walks_without_document", 1)
	}

	// The same unit documented.
	g := &opGen{r: r}
	o := opDef{method: method, resps: nil, reqs: nil}

	if response {
		o.method, o.path, o.pattern, o.resps = "GET", "/walked", "/walked", []unit{u}
	} else {
		o.reqs, o.path, o.pattern = []unit{u}, "/walked", "/walked"
		for _, n := range g.pathNames(o.reqs) {
			o.path += "/{" + n + "}"
			o.pattern += "/{" + n + "}"
		}
	}

	d := newTarget(ver, s)
	for _, b := range before {
		_, _ = d.add(b)
	}

	var (
		docErr error
		calls  []callback
		done   int
		forbid map[string]bool
		err    error
	)

	if !c.Guard(ver+": adding the operation", det, func() { _, docErr = d.add(o) }) {
		return
	}

	treeBefore := ""
	if len(before) > 0 {
		tr, _ := t.tree()
		treeBefore = mon.JSON(map[string]interface{}{"paths": tr["paths"], "webhooks": tr["webhooks"]})
	}

	if !c.Guard(ver+": walking", det, func() { calls, done, forbid, err = t.walk(method, u.content(), response, 0, nil) }) {
		return
	}

	what := "request"
	if response {
		what = "response"
	}

	if done != 1 {
		c.Violate(fmt.Sprintf("%s: walking a %s called the completion function %d times", ver, what, done), det)
	}

	if len(before) > 0 {
		tr, _ := t.tree()
		if after := mon.JSON(map[string]interface{}{"paths": tr["paths"], "webhooks": tr["webhooks"]}); after != treeBefore {
			c.Violate(ver+": walking changed the operations of the document", det)
		}
	}

	if docErr != nil {
		if err == nil && !strings.Contains(docErr.Error(), "path parameter") {
			c.Violate(ver+": walking a unit that can not be documented ("+docErr.Error()+") succeeded", det)
		}

		c.Count("refused_units", 1)
		c.Eval(ver+" refused "+what, true)

		return
	}

	if err != nil {
		c.Violate(ver+": walking failed: "+err.Error(), det)

		return
	}

	doc, e := d.tree()
	if e != nil {
		c.Violate(ver+": document can not be encoded: "+e.Error(), det)

		return
	}

	op := findOp(doc, o)
	if op == nil {
		c.Violate(ver+": operation is not in the document", det)

		return
	}

	comps := asMap(asMap(doc["components"])["schemas"])
	exp, _ := documentedCalls(op, response)
	exp = formFields(exp, comps)

	if why := matchCalls(ver, comps, exp, calls); why != "" {
		c.Violate(fmt.Sprintf("%s: walking a %s: %s", ver, what, why), map[string]interface{}{"case": det, "documented": trim(mon.JSON(op), 3000)})

		return
	}

	if !response {
		for _, in := range []string{"query", "path", "cookie", "header"} {
			if k := "x-forbid-unknown-" + in; (op[k] == true) != forbid[k] {
				c.Violate(fmt.Sprintf("%s: completion function saw %s=%v, documented %v", ver, k, forbid[k], op[k]), det)
			}
		}
	}

	sig := ver + " " + what

	var ins []string

	for _, x := range calls {
		c.Count("calls_"+what+"_"+x.in, 1)

		if len(x.defs) > 0 {
			c.Count("self_contained_schemas", 1)
		}

		ins = append(ins, x.in)
	}

	sort.Strings(ins)
	c.Eval(sig+fmt.Sprint(ins), len(ins) > 0)

	// Stops at the first error, the completion function is still called.
	if len(calls) > 0 {
		at := 1 + r.Intn(len(calls))
		stop := errors.New("stop here")
		part, done, _, err := t.walk(method, u.content(), response, at, stop)

		if len(part) != at || done != 1 || !errors.Is(err, stop) {
			c.Violate(fmt.Sprintf("%s: callback %d of %s failed: %d calls made, completion called %d times, returned %v", ver, at, what, len(part), done, err), det)
		}

		c.Count("stopped_walks", 1)
	}

	// Walking again reports the same.
	again, _, _, err := t.walk(method, u.content(), response, 0, nil)
	if err != nil {
		c.Violate(ver+": walking again: "+err.Error(), det)
	} else if why := matchCalls(ver, comps, exp, again); why != "" {
		c.Violate(ver+": walking again: "+why, det)
	}

	if c.WantSample() && len(calls) > 3 {
		c.Sample(map[string]interface{}{"walk": det, "calls": ins})
	}
}

// Structures that can not be reflected.
var (
	badUnits = []interface{}{
		struct {
			A int `query:"a" default:"abc"`
		}{},
		new(struct {
			A int `json:"a" minLength:"x"`
			B string
		}),
		struct {
			A int `formData:"a" required:"maybe"`
		}{},
		struct {
			A bool `header:"a" default:"{"`
		}{},
	}
	badResponses = []interface{}{
		struct {
			A int `json:"a" default:"abc"`
		}{},
		new(struct {
			A int    `header:"a" minLength:"x"`
			B string `json:"b"`
		}),
	}
)

func init() {
	register(&mon.Check{
		ID:    "C14",
		Rule:  "random request and response units, alone and after other operations; the calls of a walk are compared with what adding an operation with that unit documents (location, canonical name, required, schema with references followed on both sides), completion calls counted, a random callback made to fail; non-trivial with at least one call",
		Level: "exploration",
		Quick: 14000, Thorough: 120000,
		Case: func(c *mon.Ctx) {
			r := c.R
			ver := []string{"3.0", "3.1"}[c.Idx%2]
			s := setups[0]

			if c.Idx%3 == 2 {
				s = setups[r.Intn(len(setups))]
			}

			g := newOpGen(r)
			g.g.Odd = r.Intn(2) == 0
			m := newModel(ver, s)
			g.reject = m.roleClash

			var before []opDef

			method := httpMethods[r.Intn(len(httpMethods))]
			if r.Intn(2) == 0 {
				method = "POST"
			}

			if r.Intn(2) == 0 {
				for i := r.Intn(3); i > 0; i-- {
					before = append(before, g.op())
				}

				// Operations at the root, walking has no path of its own.
				if r.Intn(4) == 0 {
					for _, m := range []string{"GET", method} {
						before = append(before, opDef{method: m, path: "/", pattern: "/"})
					}

					c.Count("walks_with_root_operation", 1)
				}
			}

			u, response := g.request(), false
			if c.Idx%5 >= 3 {
				u, response = g.response(), true
			}

			if !response && r.Intn(12) == 0 {
				u = unit{structure: special.Forms[r.Intn(len(special.Forms))]}
				method = "POST"
				c.Count("forms_with_extensions", 1)
			}

			if response && r.Intn(20) == 0 {
				u = unit{structure: special.RecursiveHeaders[r.Intn(len(special.RecursiveHeaders))]}
			}

			u.viaPreparer = false

			if r.Intn(25) == 0 {
				bad := badUnits
				if response {
					bad = badResponses
				}

				u = unit{structure: bad[r.Intn(len(bad))]}
			}

			if r.Intn(30) == 0 {
				u.customize = func(cor openapi.ContentOrReference) { cor.SetReference("Shared") }
				c.Count("units_with_reference", 1)
			}

			c14Unit(c, r, ver, s, before, u, method, response)
		},
		Need: map[string]int{
			"calls_request_query": 100, "calls_request_path": 100, "calls_request_header": 100, "calls_request_cookie": 100, "calls_request_formData": 100, "calls_request_body": 100,
			"calls_response_header": 100, "calls_response_body": 100, "self_contained_schemas": 100, "stopped_walks": 1000, "refused_units": 5, "units_with_reference": 20, "walks_without_document": 100, "walks_with_root_operation": 200, "forms_with_extensions": 50,
		},
	})
}
