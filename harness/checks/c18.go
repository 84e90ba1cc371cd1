package checks

import (
	"fmt"
	"reflect"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"github.com/swaggest/refl"

	"verif/harness/corpus/special"
	"verif/harness/mon"
)

// ctxMonitor watches interceptor calls online.
type ctxMonitor struct {
	report func(string)
	ver    string
	maps   [][2]interface{} // type mappings

	// What is done now.
	cur       openapi.OperationContext // nil outside of operation processing
	walkWhat  string                   // method of a walk, its context is not known before
	req, resp map[reflect.Type]bool    // structures of units

	roots map[*jsonschema.ReflectContext]reflect.Type
	outer string // state of last reflection of a unit's structure
	maybe string // state of a later reflection that may have been one

	n      map[string]int
	broken int
}

func opPointer(oc openapi.OperationContext) interface{} {
	switch e := oc.(type) {
	case openapi3.OperationExposer:
		return e.Operation()
	case openapi31.OperationExposer:
		return e.Operation()
	}

	return nil
}

func (m *ctxMonitor) say(f string, args ...interface{}) {
	if m.broken++; m.broken < 4 {
		m.report(fmt.Sprintf(f, args...))
	}
}

func rootType(v reflect.Value) reflect.Type {
	if !v.IsValid() {
		return nil
	}

	return refl.DeepIndirect(v.Type())
}

func (m *ctxMonitor) see(rc *jsonschema.ReflectContext, what string, root reflect.Type) {
	m.n["interceptor_calls"]++

	if root != nil {
		m.roots[rc] = root
	}

	root = m.roots[rc]
	oc, ok := openapi.OperationCtx(rc)

	if m.cur == nil && m.walkWhat == "" {
		m.n["calls_outside_of_operations"]++

		if ok {
			m.say("%s (root %v): an operation context is visible outside of operation processing: %s %s", what, root, oc.Method(), oc.PathPattern())
		}

		return
	}

	if !ok {
		m.say("%s (root %v): no operation context is visible", what, root)

		return
	}

	if m.cur != nil {
		if opPointer(oc) != opPointer(m.cur) || opPointer(oc) == nil || oc.Method() != m.cur.Method() || oc.PathPattern() != m.cur.PathPattern() {
			m.say("%s (root %v): context of another operation: %s %s", what, root, oc.Method(), oc.PathPattern())

			return
		}
	} else if oc.Method() != m.walkWhat {
		m.say("%s (root %v): context of a walk has method %s", what, root, oc.Method())
	}

	isResp, in := oc.IsProcessingResponse(), string(oc.ProcessingIn())
	state := fmt.Sprintf("response=%v in=%s", isResp, in)

	// What is reflected for a location is named with the tag of the location.
	exp := rc.PropertyNameTag

	switch exp {
	case "path", "query", "cookie", "header":
	default:
		exp = "body"
	}

	m.n["calls_in_"+map[bool]string{true: "response_", false: "request_"}[isResp]+in]++

	if root == nil {
		// Only properties are watched.
		if exp != "body" && exp != in {
			m.say("%s: property named with tag %q, context tells %s", what, rc.PropertyNameTag, in)
		}

		return
	}

	isReq, isRes := m.req[root], m.resp[root]
	ambiguous := (isReq || isRes) && (root.Kind() != reflect.Struct || m.nested(root))

	switch {
	case isReq && state == "response=false in="+exp, isRes && state == "response=true in="+exp:
		if ambiguous {
			m.maybe = state
		} else {
			m.outer, m.maybe = state, ""
			m.n["calls_about_structures"]++
		}
	case (isReq || isRes) && !ambiguous:
		m.say("%s: structure %v of request=%v response=%v is reflected for %s (tag %q), context tells %s", what, root, isReq, isRes, exp, rc.PropertyNameTag, state)
	default:
		// Type of a parameter, asked for while the parameter is processed.
		m.n["calls_about_parameter_types"]++

		if state != m.outer && state != m.maybe && !(root == reflect.TypeOf("") && state == "response=false in=body") {
			m.say("%s: type %v is reflected with %s while %q is processed", what, root, state, m.outer)
		}
	}
}

// nested tells that a type can occur as type of a parameter, too.
func (m *ctxMonitor) nested(t reflect.Type) bool {
	for _, set := range []map[reflect.Type]bool{m.req, m.resp} {
		for u := range set {
			if u.Kind() != reflect.Struct {
				continue
			}

			found := false

			refl.WalkFieldsRecursively(reflect.New(u), func(_ reflect.Value, sf reflect.StructField, _ []reflect.StructField) {
				ft := refl.DeepIndirect(sf.Type)
				found = found || ft == t

				for _, mp := range m.maps {
					found = found || ft == reflect.TypeOf(mp[0]) && t == reflect.TypeOf(mp[1])
				}
			})

			if found {
				return true
			}
		}
	}

	return false
}

func (m *ctxMonitor) watch(r *jsonschema.Reflector, schemas, props bool) {
	if schemas {
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			var root reflect.Type
			if len(p.Context.Path) == 1 && !p.Processed {
				root = rootType(p.Value)
			}

			m.see(p.Context, fmt.Sprintf("schema at %v, processed %v", p.Context.Path, p.Processed), root)

			return false, nil
		}))
	}

	if props {
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			m.see(p.Context, fmt.Sprintf("property %s, processed %v", p.Name, p.Processed), nil)

			return nil
		}))
	}
}

func (m *ctxMonitor) begin(oc openapi.OperationContext, walk string, o opDef) {
	m.cur, m.walkWhat, m.outer, m.maybe = oc, walk, "", ""
	m.roots = map[*jsonschema.ReflectContext]reflect.Type{}
	m.req, m.resp = m.unitTypes(o.reqs), m.unitTypes(o.resps)
}

func (m *ctxMonitor) end() {
	m.cur, m.walkWhat = nil, ""
	m.roots = map[*jsonschema.ReflectContext]reflect.Type{}
}

func (m *ctxMonitor) unitTypes(us []unit) map[reflect.Type]bool {
	res := map[reflect.Type]bool{}

	for _, u := range us {
		if u.structure != nil {
			t := refl.DeepIndirect(reflect.TypeOf(u.structure))
			res[t] = true

			for _, mp := range m.maps {
				if reflect.TypeOf(mp[0]) == t {
					res[reflect.TypeOf(mp[1])] = true
				}
			}
		}
	}

	return res
}

func init() {
	register(&mon.Check{
		ID:    "C18",
		Rule:  "several random operations are prepared, then added in random order, walked and mixed with direct reflection; every call of a schema or property interceptor is judged online: context visible and of the operation being added (by identity), request or response by the structure being reflected, location by the tag properties are named with; no context visible outside",
		Level: "exploration",
		Quick: 7000, Thorough: 50000,
		Case: func(c *mon.Ctx) {
			r := c.R
			ver := []string{"3.0", "3.1"}[c.Idx%2]
			s := setups[0]

			if c.Idx%3 == 2 {
				s = setups[r.Intn(len(setups))]
			}

			t := newTarget(ver, s)
			g := newOpGen(r)
			// All virtual structures have one type.
			g.reject = func(u unit) bool {
				_, ok := virtualStruct(u.structure)

				return ok
			}

			var log []interface{}

			det := func() interface{} {
				return map[string]interface{}{"version": ver, "setup": s.name, "history": log}
			}

			m := &ctxMonitor{ver: ver, maps: s.maps, n: map[string]int{}, roots: map[*jsonschema.ReflectContext]reflect.Type{}}
			m.report = func(w string) { c.Violate(ver+": "+w, det()) }
			both := r.Intn(4)
			m.watch(t.refl.JSONSchemaReflector(), both != 0, both != 1)

			if both == 1 {
				m.watch(t.refl.JSONSchemaReflector(), true, false)
			}

			type prepared struct {
				o  opDef
				oc openapi.OperationContext
			}

			var ps []prepared

			outside := func() {
				v := interface{}(special.Note{})

				switch r.Intn(3) {
				case 0:
					v = g.request().structure
				case 1:
					v = g.response().structure
				}

				log = append(log, fmt.Sprintf("reflect %T", v))
				_, _ = t.refl.JSONSchemaReflector().Reflect(v)
			}

			for i := 1 + r.Intn(4); i > 0; i-- {
				o := g.op()

				if r.Intn(20) == 0 {
					o.reqs = append(o.reqs, unit{structure: badUnits[r.Intn(len(badUnits))]})
				}

				if r.Intn(20) == 0 {
					o.resps = append(o.resps, unit{structure: special.RecursiveHeaders[r.Intn(len(special.RecursiveHeaders))]})
				}

				if ver == "3.1" && r.Intn(8) == 0 {
					o.webhook = true
				}

				oc, err := t.context(o)
				if err != nil {
					continue
				}

				// A context may come with any state.
				if r.Intn(3) == 0 {
					oc.SetIsProcessingResponse(r.Intn(2) == 0)
					oc.SetProcessingIn(openapi.InCookie)
				}

				ps = append(ps, prepared{o, oc})
			}

			for _, i := range r.Perm(len(ps)) {
				p := ps[i]

				if r.Intn(2) == 0 {
					outside()
				}

				if r.Intn(3) == 0 && len(p.o.resps) > 0 {
					u := p.o.resps[0]
					log = append(log, map[string]interface{}{"walk response": describeUnit(u)})
					m.begin(nil, "GET", opDef{resps: []unit{u}})
					c.Guard(ver+": walking", det(), func() { _, _, _, _ = t.walk("GET", u.content(), true, 0, nil) })
					m.end()
				}

				log = append(log, map[string]interface{}{"add": describeOp(p.o)})
				m.begin(p.oc, "", p.o)

				if !c.Guard(ver+": adding an operation", det(), func() {
					if p.o.webhook {
						_ = t.r31.AddWebhook(p.oc)
					} else {
						_ = t.refl.AddOperation(p.oc)
					}
				}) {
					return
				}

				m.end()

				if r.Intn(4) == 0 && len(p.o.reqs) > 0 {
					u := p.o.reqs[0]
					log = append(log, map[string]interface{}{"walk request": describeUnit(u)})
					m.begin(nil, "PUT", opDef{reqs: []unit{u}})
					c.Guard(ver+": walking", det(), func() { _, _, _, _ = t.walk("PUT", u.content(), false, 0, nil) })
					m.end()
				}
			}

			outside()

			ins := 0

			for k, v := range m.n {
				c.Count(k, v)
				ins++
			}

			c.Eval(fmt.Sprintf("%s %d kinds %d calls", ver, ins, m.n["interceptor_calls"]/20), m.n["interceptor_calls"] > 0)

			if c.WantSample() && ins > 8 {
				c.Sample(map[string]interface{}{"version": ver, "history": log, "seen": m.n})
			}
		},
		Need: map[string]int{
			"interceptor_calls": 10000, "calls_outside_of_operations": 1000, "calls_about_parameter_types": 500, "calls_about_structures": 5000,
			"calls_in_request_query": 500, "calls_in_request_path": 500, "calls_in_request_cookie": 500, "calls_in_request_header": 500, "calls_in_request_body": 500,
			"calls_in_response_header": 500, "calls_in_response_body": 500,
		},
	})
}
