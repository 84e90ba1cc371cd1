package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/mon"
	"verif/harness/oas"
)

// failingSchema can not be reflected.
type failingSchema struct {
	A string `json:"a"`
}

func (failingSchema) JSONSchema() (jsonschema.Schema, error) {
	return jsonschema.Schema{}, errors.New("no schema")
}

// registry drives one document through every way of registering operations.
type registry struct {
	ver  string
	r3   *openapi3.Reflector
	r31  *openapi31.Reflector
	refl openapi.Reflector
}

func newRegistry(ver string) *registry {
	g := &registry{ver: ver}

	if ver == "3.0" {
		g.r3 = openapi3.NewReflector()
		g.refl = g.r3
	} else {
		g.r31 = openapi31.NewReflector()
		g.refl = g.r31
	}

	return g
}

func (g *registry) doc() spec {
	if g.r3 != nil {
		return g.r3.Spec
	}

	return g.r31.Spec
}

// entries encodes the paths and webhooks: "paths"/"webhooks" -> key -> path item.
func (g *registry) entries() (map[string]map[string]interface{}, error) {
	b, err := g.doc().MarshalJSON()
	if err != nil {
		return nil, err
	}

	var d map[string]interface{}
	if err := json.Unmarshal(b, &d); err != nil {
		return nil, err
	}

	res := map[string]map[string]interface{}{}

	for _, k := range []string{"paths", "webhooks"} {
		m, _ := d[k].(map[string]interface{})
		if m == nil {
			m = map[string]interface{}{}
		}

		res[k] = m
	}

	return res, nil
}

func (g *registry) specAdd(method, path, opJSON string) error {
	if g.r3 != nil {
		o := openapi3.Operation{}
		if err := o.UnmarshalJSON([]byte(opJSON)); err != nil {
			panic(err)
		}

		return g.r3.Spec.AddOperation(method, path, o)
	}

	o := openapi31.Operation{}
	if err := o.UnmarshalJSON([]byte(opJSON)); err != nil {
		panic(err)
	}

	return g.r31.Spec.AddOperation(method, path, o)
}

func (g *registry) webhookAdd(method, name, opJSON string) error {
	o := openapi31.Operation{}
	if err := o.UnmarshalJSON([]byte(opJSON)); err != nil {
		panic(err)
	}

	return g.r31.Spec.AddWebhook(method, name, o)
}

// itemSet puts an operation in a path item itself and tells if it had one for the method.
func (g *registry) itemSet(method, path, opJSON string) (bool, error) {
	if g.r3 != nil {
		o := openapi3.Operation{}
		if err := o.UnmarshalJSON([]byte(opJSON)); err != nil {
			panic(err)
		}

		pi := g.r3.Spec.Paths.MapOfPathItemValues[path]
		_, found := pi.MapOfOperationValues[strings.ToLower(method)]
		pi.WithOperation(method, o)
		g.r3.Spec.Paths.WithMapOfPathItemValuesItem(path, pi)

		return found, nil
	}

	o := openapi31.Operation{}
	if err := o.UnmarshalJSON([]byte(opJSON)); err != nil {
		panic(err)
	}

	if o.Responses != nil && len(o.Responses.MapOfResponseOrReferenceValues) == 0 {
		o.Responses = nil
	}

	pi := openapi31.PathItem{}
	if g.r31.Spec.Paths != nil {
		pi = g.r31.Spec.Paths.MapOfPathItemValues[path]
	}

	prev, errGet := pi.Operation(method)

	err := pi.SetOperation(method, &o)
	if (errGet != nil) != (err != nil) {
		return prev != nil, fmt.Errorf("Operation: %v, SetOperation: %v", errGet, err)
	}

	if err != nil {
		return false, err
	}

	if got, err := pi.Operation(method); err != nil || got != &o {
		panic("the operation set is not the operation returned")
	}

	g.r31.Spec.PathsEns().WithMapOfPathItemValuesItem(path, pi)

	return prev != nil, nil
}

// specSetup runs SetupOperation with a function that changes the operation and one that may fail.
func (g *registry) specSetup(method, path, summary, opJSON string, dupParam, fail bool, touch string, dupIn string, between int) error {
	errFail := errors.New("setup failed")

	if g.r3 != nil {
		return g.r3.Spec.SetupOperation(method, path, func(o *openapi3.Operation) error {
			if opJSON != "" {
				n := openapi3.Operation{}
				if err := n.UnmarshalJSON([]byte(opJSON)); err != nil {
					panic(err)
				}

				*o = n
			}

			o.WithSummary(summary)

			if touch != "" { // in place, of this operation alone
				for _, resp := range o.Responses.MapOfResponseOrRefValues {
					if resp.Response != nil {
						resp.Response.WithDescription(touch)
					}
				}
			}

			if dupParam {
				p := openapi3.Parameter{Name: "dup", In: openapi3.ParameterIn(dupIn)}
				ps := []openapi3.ParameterOrRef{p.ToParameterOrRef(), p.ToParameterOrRef()}

				for i := 0; i < between; i++ {
					other := openapi3.Parameter{Name: fmt.Sprintf("other%d", i), In: openapi3.ParameterIn(dupIn)}
					ps = append(ps[:1+i], other.ToParameterOrRef(), p.ToParameterOrRef())
				}

				o.Parameters = append(o.Parameters, ps...)
			}

			return nil
		}, func(o *openapi3.Operation) error {
			o.WithTags("setup")

			if fail {
				o.Deprecated = new(bool)

				return errFail
			}

			return nil
		})
	}

	return g.r31.Spec.SetupOperation(method, path, func(o *openapi31.Operation) error {
		if opJSON != "" {
			n := openapi31.Operation{}
			if err := n.UnmarshalJSON([]byte(opJSON)); err != nil {
				panic(err)
			}

			*o = n
		}

		o.WithSummary(summary)

		if touch != "" && o.Responses != nil {
			for _, resp := range o.Responses.MapOfResponseOrReferenceValues {
				if resp.Response != nil {
					resp.Response.WithDescription(touch)
				}
			}
		}

		if dupParam {
			p := openapi31.Parameter{Name: "dup", In: openapi31.ParameterIn(dupIn)}
			ps := []openapi31.ParameterOrReference{p.ToParameterOrRef(), p.ToParameterOrRef()}

			for i := 0; i < between; i++ {
				other := openapi31.Parameter{Name: fmt.Sprintf("other%d", i), In: openapi31.ParameterIn(dupIn)}
				ps = append(ps[:1+i], other.ToParameterOrRef(), p.ToParameterOrRef())
			}

			o.Parameters = append(o.Parameters, ps...)
		}

		return nil
	}, func(o *openapi31.Operation) error {
		o.WithTags("setup")

		if fail {
			o.Deprecated = new(bool)

			return errFail
		}

		return nil
	})
}

// paramStruct makes a structure with the given parameters.
func paramStruct(path []string, query ...string) interface{} {
	var fs []reflect.StructField

	for i, n := range path {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("P%d", i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(`path:"` + n + `"`)})
	}

	for i, n := range query {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Q%d", i), Type: reflect.TypeOf(0), Tag: reflect.StructTag(`query:"` + n + `"`)})
	}

	return reflect.New(reflect.StructOf(fs)).Interface()
}

var c10Paths = []struct {
	clean  string
	params []string
	raw    []string
}{
	{"/", nil, nil},
	{"/a", nil, nil},
	{"/a/", nil, nil},
	{"/A", nil, nil},
	{"/a/{id}", []string{"id"}, []string{`/a/{id:\d+}`, `/a/{id:[a-z]{2,3}}`, `/a/{id:.*}`}},
	{"/a/{name}", []string{"name"}, []string{`/a/{name:x|y}`}},
	{"/{id}/{name}", []string{"id", "name"}, []string{`/{id:\d+}/{name}`, `/{id}/{name:\w+}`, `/{id:\d{4}}/{name:\w+}`}},
	{"/{id}/{id}", []string{"id"}, []string{`/{id:\d+}/{id}`}},
}

var errNotOnce = "existing"

func c10OpJSON(params []string, query []string, summary string, withResp bool) string {
	o := map[string]interface{}{"summary": summary, "responses": map[string]interface{}{}}
	ps := []interface{}{}

	for _, p := range params {
		ps = append(ps, map[string]interface{}{"name": p, "in": "path", "required": true, "schema": map[string]interface{}{"type": "string"}})
	}

	for _, p := range query {
		ps = append(ps, map[string]interface{}{"name": p, "in": "query", "schema": map[string]interface{}{"type": "integer"}})
	}

	if len(ps) > 0 {
		o["parameters"] = ps
	}

	if withResp {
		o["responses"] = map[string]interface{}{"200": map[string]interface{}{"description": "fine"}}
	}

	b, _ := json.Marshal(o)

	return string(b)
}

type c10Ctx struct {
	oc           openapi.OperationContext
	method, path string
	valid        bool
	added        bool
	summary      string
}

func c10Case(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	g := newRegistry(ver)

	var (
		log  []string
		ctxs []*c10Ctx
	)

	// A document that is not empty.
	if r.Intn(2) == 0 {
		seedDoc := map[string]interface{}{
			"openapi": map[string]string{"3.0": "3.0.3", "3.1": "3.1.0"}[ver], "info": map[string]interface{}{"title": "t", "version": "v"},
			"paths": map[string]interface{}{
				"/a": map[string]interface{}{
					"summary": "item", "description": "d", "servers": []interface{}{map[string]interface{}{"url": "http://x"}},
					"parameters": []interface{}{map[string]interface{}{"name": "common", "in": "query", "schema": map[string]interface{}{"type": "string"}}},
					"post":       map[string]interface{}{"summary": "seed", "responses": map[string]interface{}{"200": map[string]interface{}{"description": "d"}}},
					"x-item":     "kept",
				},
				"/a/{id}": map[string]interface{}{"summary": "no operations yet", "x-e": 1.0},
			},
		}

		if ver == "3.1" && r.Intn(2) == 0 { // webhooks of all forms
			seedDoc["webhooks"] = map[string]interface{}{
				"hook0": map[string]interface{}{"$ref": "#/components/pathItems/Hook", "summary": "reference"},
				"hook1": map[string]interface{}{},
				"hook2": map[string]interface{}{"post": map[string]interface{}{"summary": "seed"}, "x-w": "kept"},
				"/a":    map[string]interface{}{"$ref": "#/components/pathItems/A"},
			}

			c.Count("seeded_webhooks", 1)
		}

		if r.Intn(3) == 0 {
			asMap(seedDoc["paths"])["/A"] = map[string]interface{}{"$ref": "#/x-items/A", "summary": "reference"}
		}

		if err := g.doc().UnmarshalJSON(oas.Encode(seedDoc, nil)); err != nil {
			panic(err)
		}

		log = append(log, "seeded document")
	}

	state, err := g.entries()
	if err != nil {
		c.Violate("encode: "+err.Error(), log)

		return
	}

	has := func(path, method string) bool {
		pi, _ := state["paths"][path].(map[string]interface{})
		_, ok := pi[strings.ToLower(method)]

		return ok
	}

	pick := func() (clean, raw string, params []string) {
		p := c10Paths[r.Intn(len(c10Paths))]
		raw = p.clean

		if len(p.raw) > 0 && r.Intn(2) == 0 {
			raw = p.raw[r.Intn(len(p.raw))]
		}

		return p.clean, raw, p.params
	}

	nOps := 0

	steps := 6 + r.Intn(30)
	for i := 0; i < steps; i++ {
		var (
			what               string
			err                error
			expectErr          bool
			clean, raw, method string
			params             []string
			summary            = fmt.Sprintf("op %d", i)
			where              = "paths"
			setupExisting      bool
			touch              string
		)

		clean, raw, params = pick()
		m := httpMethods[r.Intn(3)]

		if r.Intn(4) == 0 {
			m = httpMethods[r.Intn(8)]
		}

		method = randomCase(r, m)
		if r.Intn(20) == 0 {
			m, method = "connect", "CONNECT"
		}

		badMethod := m == "connect"

		// How parameters are declared.
		declared, query := append([]string{}, params...), []string{}
		badParams := false

		switch r.Intn(8) {
		case 0:
			declared = append(declared, "nosuch")
			badParams = true
		case 1:
			if len(declared) > 0 {
				declared = declared[1:]
				badParams = true
			}
		case 2:
			query = append(query, "q", "q")
			badParams = true
		case 3:
			query = append(query, "q", "p")
		case 4:
			query = append(query, "id") // same name in another location
		case 5:
			if len(declared) > 0 && r.Intn(2) == 0 { // almost the name of the placeholder
				j := r.Intn(len(declared))
				d := declared[j]
				declared[j] = []string{strings.ToUpper(d), strings.Title(d), d + " ", d + "s", d[:len(d)-1], "{" + d + "}", d + ":x", "_" + d}[r.Intn(8)]
				badParams = true
			} else {
				query = append(query, "q", "Q", "q ")
			}
		}

		kind := r.Intn(13)
		if ver == "3.0" && (kind == 8 || kind == 9) {
			kind = 7
		}

		switch kind {
		case 0, 1, 2: // a new context, perhaps added later
			what = fmt.Sprintf("NewOperationContext(%q, %q)", method, raw)
			expectErr = badMethod || has(clean, m)

			var oc openapi.OperationContext

			oc, err = g.refl.NewOperationContext(method, raw)
			if err == nil && oc != nil {
				oc.SetSummary(summary)

				valid := !badParams

				if badParams && len(query) == 2 && query[0] == query[1] && r.Intn(2) == 0 {
					// Twice in separate units.
					oc.AddReqStructure(paramStruct(declared, query[0]))
					oc.AddReqStructure(paramStruct(nil, query[1]))
				} else if len(declared)+len(query) > 0 {
					oc.AddReqStructure(paramStruct(declared, query...))
				}

				switch r.Intn(6) {
				case 0:
					oc.AddRespStructure(new(failingSchema))

					valid = false
				case 1:
					oc.AddRespStructure(new(struct {
						A string `json:"a"`
					}))
				}

				ctxs = append(ctxs, &c10Ctx{oc: oc, method: m, path: clean, valid: valid, summary: summary})
			}

			if expectErr != (err != nil) {
				c.Violate(fmt.Sprintf("%s: %s: error %v, expected error: %v", ver, what, err, expectErr), log)
			}

			c.Count("contexts", 1)

			err = errors.New(errNotOnce) // nothing may have changed
			expectErr = true
		case 3, 4, 5, 8: // add a context
			if len(ctxs) == 0 {
				continue
			}

			x := ctxs[r.Intn(len(ctxs))]
			clean, m, summary = x.path, x.method, x.summary

			if x.added && r.Intn(2) == 0 {
				// The same context again with more content.
				x.oc.AddRespStructure(nil, openapi.WithHTTPStatus(400+i), openapi.WithContentType("text/plain"))
				x.oc.AddReqStructure(nil, openapi.WithContentType("text/again"))
				x.oc.SetDescription("again")
				c.Count("context_reused", 1)
			}

			if kind == 8 {
				where = "webhooks"
				clean = x.oc.PathPattern()
				_, exists := state["webhooks"][clean]
				expectErr = exists || !x.valid || x.added
				what = fmt.Sprintf("AddWebhook(%s %s)", m, clean)

				if x.added {
					// A used context has its parameters already; whether its second use fails depends on them.
					if !exists {
						continue
					}
				}

				err = g.r31.AddWebhook(x.oc)
			} else {
				exists := has(clean, m)
				if x.added && !exists {
					continue
				}

				expectErr = exists || !x.valid
				what = fmt.Sprintf("AddOperation(%s %s)", m, clean)
				err = g.refl.AddOperation(x.oc)
			}

			x.added = true // even when refused it has been processed
		case 6, 10, 11: // SetupOperation
			dup, fail := r.Intn(5) == 0, r.Intn(4) == 0
			dupIn, between := []string{"query", "header", "cookie"}[r.Intn(3)], r.Intn(4)
			setupExisting = !badMethod && has(clean, m)
			opJSON := ""

			if !setupExisting || r.Intn(4) == 0 {
				opJSON = c10OpJSON(declared, query, summary, true)
			} else {
				badParams = false
			}

			expectErr = badMethod || badParams || dup || fail
			what = fmt.Sprintf("SetupOperation(%q, %q) params %v %v replace=%v dup=%v fail=%v", method, raw, declared, query, opJSON != "", dup, fail)

			touch = ""
			if !expectErr && setupExisting && r.Intn(3) == 0 {
				touch = fmt.Sprintf("touched %d", i)
				what += " touching responses"
				c.Count("responses_touched", 1)
			}

			err = g.specSetup(method, raw, summary, opJSON, dup, fail, touch, dupIn, between)
			c.Count("setups", 1)
		case 7: // Spec.AddOperation
			expectErr = badMethod || badParams || has(clean, m)
			what = fmt.Sprintf("Spec.AddOperation(%q, %q) params %v %v", method, raw, declared, query)
			err = g.specAdd(method, raw, c10OpJSON(declared, query, summary, r.Intn(2) == 0))
		case 12: // the path item itself, no validation is promised
			existed := has(clean, m)
			what = fmt.Sprintf("PathItem(%q).SetOperation(%q)", clean, method)

			// A 3.0 item takes any method, which its document does not show; nothing is said of it.
			if badMethod && g.r3 != nil {
				continue
			}

			expectErr = badMethod

			var found bool

			found, err = g.itemSet(method, clean, c10OpJSON(params, nil, summary, r.Intn(3) > 0))
			c.Count("item_set", 1)

			if found != existed {
				c.Violate(fmt.Sprintf("%s: %s: found a previous operation: %v, there was one: %v", ver, what, found, existed), log)

				return
			}
		case 9: // Spec.AddWebhook
			clean = fmt.Sprintf("hook%d", r.Intn(4))
			where = "webhooks"
			_, exists := state["webhooks"][clean]
			expectErr = badMethod || exists
			what = fmt.Sprintf("Spec.AddWebhook(%q, %q)", method, clean)
			err = g.webhookAdd(method, clean, c10OpJSON(nil, []string{"w"}, summary, r.Intn(2) == 0))
		}

		res := "ok"
		if err != nil {
			res = "refused: " + err.Error()
		}

		log = append(log, what+" -> "+res)

		after, encErr := g.entries()
		if encErr != nil {
			c.Violate(ver+": document does not encode after "+what+": "+encErr.Error(), log)

			return
		}

		if expectErr != (err != nil) {
			c.Violate(fmt.Sprintf("%s: %s: error %v, expected error: %v", ver, what, err, expectErr), log)

			return
		}

		if err != nil {
			if d := oas.Diff(anyMap(state), anyMap(after)); d != "" {
				c.Violate(ver+": refused "+what+" left a trace: "+d, log)

				return
			}

			if err.Error() != errNotOnce {
				c.Count("refused", 1)
			}

			continue
		}

		nOps++

		c.Count("accepted", 1)
		c.Count("accepted_"+where, 1)

		// Exactly the addressed operation is there with its content; everything else is as before.
		pi, _ := after[where][clean].(map[string]interface{})
		op, _ := pi[m].(map[string]interface{})

		if op == nil || op["summary"] != summary {
			c.Violate(fmt.Sprintf("%s: %s: no such operation under %s %s %s: %s", ver, what, where, clean, m, mon.JSON(pi)), log)

			return
		}

		if rs, _ := op["responses"].(map[string]interface{}); len(rs) == 0 && kind != 6 && kind < 10 {
			c.Violate(ver+": operation without responses", log)
		}

		exp := oas.Clone(anyMap(state)).(map[string]interface{})
		ew := exp[where].(map[string]interface{})

		ei, _ := ew[clean].(map[string]interface{})
		if ei == nil {
			ei = map[string]interface{}{}
			ew[clean] = ei
		}

		if setupExisting && strings.Contains(what, "replace=false") {
			// Only the changed members change.
			eo := ei[m].(map[string]interface{})
			eo["summary"], eo["tags"] = summary, []interface{}{"setup"}

			if touch != "" {
				for _, resp := range asMap(eo["responses"]) {
					if _, isRef := asMap(resp)["$ref"]; !isRef {
						asMap(resp)["description"] = touch
					}
				}
			}
		} else {
			ei[m] = op
		}

		if d := oas.Diff(exp, anyMap(after)); d != "" {
			c.Violate(ver+": "+what+" changed something else: "+d, log)

			return
		}

		state = after
	}

	c.Eval(strings.Join(log, ";"), nOps > 1)

	if c.WantSample() && nOps > 3 {
		c.Sample(log)
	}
}

func anyMap(m map[string]map[string]interface{}) interface{} {
	res := map[string]interface{}{}
	for k, v := range m {
		res[k] = oas.Clone(v)
	}

	return res
}

var _ = rand.Intn

func init() {
	register(&mon.Check{
		ID: "C10", Level: "exploration", Quick: 8000, Thorough: 150000,
		Rule: "random histories of NewOperationContext, AddOperation, AddWebhook, SetupOperation (succeeding, failing midway, with duplicate parameters, changing responses in place), Spec.AddOperation, Spec.AddWebhook and setting operations of path items over few paths in several spellings and methods, contexts added late, repeatedly or after being extended, on empty and populated documents; a registry state machine predicts acceptance and the encoded paths and webhooks are compared after every call; non-trivial when two operations were accepted",
		Need: map[string]int{"accepted": 5000, "refused": 5000, "accepted_webhooks": 500, "setups": 5000, "context_reused": 200, "responses_touched": 80, "item_set": 1000, "seeded_webhooks": 300},
		Case: c10Case,
	})
}
