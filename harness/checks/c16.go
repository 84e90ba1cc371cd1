package checks

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"

	"verif/harness/corpus/special"
	"verif/harness/mon"
)

// deprecatedAdd documents an operation with deprecated methods.
func deprecatedAdd(r *openapi3.Reflector, o opDef, pick func(n int) int, how map[string]int) (*openapi3.Operation, error) {
	op := &openapi3.Operation{}

	for _, u := range o.reqs {
		m := u.mapping

		if len(m) == 0 && pick(2) == 0 {
			how["SetRequest"]++

			if err := r.SetRequest(op, u.structure, o.method); err != nil {
				return op, err
			}

			continue
		}

		how["SetupRequest"]++

		if err := r.SetupRequest(openapi3.OperationContext{
			Operation: op, Input: u.structure, HTTPMethod: o.method,
			ReqQueryMapping: m[openapi.InQuery], ReqPathMapping: m[openapi.InPath], ReqCookieMapping: m[openapi.InCookie],
			ReqHeaderMapping: m[openapi.InHeader], ReqFormDataMapping: m[openapi.InFormData],
		}); err != nil {
			return op, err
		}
	}

	for _, u := range o.resps {
		head := strings.EqualFold(o.method, http.MethodHead) // Only full context has the method.

		switch {
		case !head && len(u.mapping) == 0 && u.contentType == "" && pick(2) == 0:
			how["SetJSONResponse"]++

			if err := r.SetJSONResponse(op, u.structure, u.status); err != nil {
				return op, err
			}
		case !head && len(u.mapping) == 0 && u.structure == nil && pick(2) == 0:
			how["SetStringResponse"]++

			if err := r.SetStringResponse(op, u.status, u.contentType); err != nil {
				return op, err
			}
		default:
			how["SetupResponse"]++

			oc := openapi3.OperationContext{
				Operation: op, Output: u.structure, HTTPMethod: o.method, HTTPStatus: u.status, RespContentType: u.contentType, RespHeaderMapping: u.mapping[openapi.InHeader],
			}

			if pick(3) == 0 {
				oc.ProcessingResponse, oc.ProcessingIn = true, "query" // Initial state has no influence.
			}

			if err := r.SetupResponse(oc); err != nil {
				return op, err
			}
		}
	}

	return op, r.SpecEns().AddOperation(o.method, o.path, *op)
}

// stateLog records what interceptors see.
type stateLog struct {
	events []string
	bad    []string
	ops    map[*openapi3.Operation]bool
}

func (l *stateLog) sawBad(f string, args ...interface{}) {
	if len(l.bad) < 3 {
		l.bad = append(l.bad, fmt.Sprintf(f, args...))
	}
}

func (l *stateLog) see(rc *jsonschema.ReflectContext, what string) {
	oc, ok := openapi.OperationCtx(rc)
	dc, okD := openapi3.OperationCtx(rc)

	if ok != okD {
		l.sawBad("%s: current context visible %v, deprecated %v", what, ok, okD)
	}

	if !ok || !okD {
		l.events = append(l.events, what+" no context")

		return
	}

	if dc.ProcessingResponse != oc.IsProcessingResponse() || dc.ProcessingIn != string(oc.ProcessingIn()) {
		l.sawBad("%s: deprecated state response=%v in=%s, current response=%v in=%s", what, dc.ProcessingResponse, dc.ProcessingIn, oc.IsProcessingResponse(), oc.ProcessingIn())
	}

	if dc.HTTPMethod != oc.Method() {
		l.sawBad("%s: deprecated method %s, current %s", what, dc.HTTPMethod, oc.Method())
	}

	if e, ok := oc.(openapi3.OperationExposer); !ok || e.Operation() == nil || dc.Operation != e.Operation() {
		l.sawBad("%s: deprecated context has another operation", what)
	} else {
		l.ops[dc.Operation] = true
	}

	same := func(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

	if us := oc.Request(); len(us) > 0 {
		u := us[0]
		if !same(dc.Input, u.Structure) || !same(dc.ReqQueryMapping, u.FieldMapping(openapi.InQuery)) || !same(dc.ReqPathMapping, u.FieldMapping(openapi.InPath)) ||
			!same(dc.ReqCookieMapping, u.FieldMapping(openapi.InCookie)) || !same(dc.ReqHeaderMapping, u.FieldMapping(openapi.InHeader)) ||
			!same(dc.ReqFormDataMapping, u.FieldMapping(openapi.InFormData)) {
			l.sawBad("%s: deprecated context has another input or mapping: %+v", what, dc)
		}
	}

	if us := oc.Response(); len(us) > 0 {
		u := us[0]
		if !same(dc.Output, u.Structure) || dc.HTTPStatus != u.HTTPStatus || dc.RespContentType != u.ContentType || !same(dc.RespHeaderMapping, u.FieldMapping(openapi.InHeader)) {
			l.sawBad("%s: deprecated context has another output, status or mapping: %+v", what, dc)
		}
	}

	l.events = append(l.events, fmt.Sprintf("%s response=%v in=%s", what, oc.IsProcessingResponse(), oc.ProcessingIn()))
}

func (l *stateLog) watch(r *jsonschema.Reflector) {
	l.ops = map[*openapi3.Operation]bool{}

	r.DefaultOptions = append(r.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			t := "nil"
			if p.Value.IsValid() {
				t = p.Value.Type().String()
			}

			l.see(p.Context, fmt.Sprintf("schema %s %v", t, p.Processed))

			return false, nil
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			l.see(p.Context, fmt.Sprintf("property %s %v", p.Name, p.Processed))

			return nil
		}))
}

func init() {
	register(&mon.Check{
		ID:    "C16",
		Rule:  "random operations are documented twice in 3.0: with deprecated setters (all five, chosen at random) and through an operation context; encoded documents compared byte by byte after every operation, refusals compared; logs of everything that interceptors see compared, deprecated context compared with the current one at every interceptor call",
		Level: "exploration",
		Quick: 7000, Thorough: 60000,
		Case: func(c *mon.Ctx) {
			r := c.R
			s := setups[0]

			if c.Idx%3 == 1 {
				s = setups[r.Intn(len(setups))]
			}

			a, b := newTarget("3.0", s), newTarget("3.0", s)
			la, lb := &stateLog{}, &stateLog{}
			watched := c.Idx%2 == 0

			if watched {
				la.watch(a.refl.JSONSchemaReflector())
				lb.watch(b.refl.JSONSchemaReflector())
			}

			g := newOpGen(r)
			g.g.Odd = r.Intn(2) == 0

			var log []interface{}

			for i := 1 + r.Intn(4); i > 0; i-- {
				o := g.op()

				if r.Intn(25) == 0 {
					o.method = "POST"
					o.reqs = []unit{{structure: special.Forms[r.Intn(len(special.Forms))]}}
				}

				if r.Intn(25) == 0 {
					o.resps = append(o.resps, unit{status: 299, structure: special.RecursiveHeaders[r.Intn(len(special.RecursiveHeaders))]})
				}

				if r.Intn(30) == 0 {
					o.reqs = append(o.reqs, unit{structure: badUnits[r.Intn(len(badUnits))]})
				}

				if r.Intn(30) == 0 {
					o.resps = append(o.resps, unit{structure: badResponses[r.Intn(len(badResponses))]})
				}

				// What the deprecated context can express.
				for k := range o.reqs {
					u := &o.reqs[k]
					u.contentType, u.format, u.description, u.viaPreparer = "", "", "", false
				}

				for k := range o.resps {
					u := &o.resps[k]
					u.format, u.description, u.isDefault, u.viaPreparer = "", "", false, false
				}

				if r.Intn(4) == 0 {
					o.method = strings.ToUpper(o.method)
				}

				o.pattern = o.path
				log = append(log, describeOp(o))
				det := map[string]interface{}{"setup": s.name, "operations": log}
				how := map[string]int{}

				var (
					errA, errB error
					op         *openapi3.Operation
				)

				if !c.Guard("deprecated methods", det, func() { op, errA = deprecatedAdd(a.r3, o, r.Intn, how) }) || !c.Guard("operation context", det, func() { _, errB = b.add(o) }) {
					return
				}

				if (errA == nil) != (errB == nil) {
					c.Violate(fmt.Sprintf("deprecated methods return %v, operation context %v", errA, errB), det)

					return
				}

				ja, errA1 := a.doc().MarshalJSON()
				jb, errB1 := b.doc().MarshalJSON()

				if errA1 != nil || errB1 != nil {
					c.Violate(fmt.Sprintf("document can not be encoded: deprecated %v, context %v", errA1, errB1), det)

					return
				}

				if errA != nil {
					// Deprecated setters know nothing of the path, they register components before the operation is refused.
					ta, _ := a.tree()
					tb, _ := b.tree()

					if !reflect.DeepEqual(ta["paths"], tb["paths"]) {
						c.Violate("paths differ after a refused operation: "+firstDiff(ta["paths"], tb["paths"], ""), det)
					}

					c.Count("refused_by_both", 1)
					c.Eval("refused", true)

					return
				}

				if string(ja) != string(jb) {
					ta, _ := a.tree()
					tb, _ := b.tree()
					at := strings.NewReplacer("(3.0)", "(deprecated)", "(3.1)", "(context)").Replace(firstDiff(ta, tb, ""))
					c.Violate("documents differ at "+at, det)

					return
				}

				if watched {
					for _, l := range []*stateLog{la, lb} {
						for _, w := range l.bad {
							c.Violate("interceptor: "+w, det)
						}
					}

					for k := 0; k < len(la.events) || k < len(lb.events); k++ {
						if k >= len(la.events) || k >= len(lb.events) || la.events[k] != lb.events[k] {
							get := func(l []string) string {
								if k < len(l) {
									return l[k]
								}

								return "nothing"
							}

							c.Violate(fmt.Sprintf("interceptor call %d: %s with deprecated methods, %s with operation context", k, get(la.events), get(lb.events)), det)

							return
						}
					}

					if errA == nil && len(la.events) > 0 {
						for p := range la.ops {
							if p != op {
								c.Violate("interceptor: context of another operation", det)
							}
						}
					}

					c.Count("interceptor_calls_compared", len(la.events))
					la.events, lb.events = nil, nil
					la.ops, lb.ops = map[*openapi3.Operation]bool{}, map[*openapi3.Operation]bool{}
				}

				for k, n := range how {
					c.Count("calls_"+k, n)
				}

				c.Count("documents_compared", 1)
				c.Eval(fmt.Sprintf("%s %v %d", s.name, how, len(ja)/400), len(how) > 0)

				if c.WantSample() && len(how) > 2 {
					c.Sample(map[string]interface{}{"operation": describeOp(o), "deprecated calls": how, "bytes": len(ja)})
				}
			}
		},
		Need: map[string]int{
			"calls_SetRequest": 100, "calls_SetupRequest": 100, "calls_SetJSONResponse": 100, "calls_SetStringResponse": 50, "calls_SetupResponse": 100,
			"interceptor_calls_compared": 10000, "refused_by_both": 50,
		},
	})
}
