package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"

	"verif/harness/corpus/special"
	"verif/harness/mon"
)

// pairDiff compares a 3.0 document with its 3.1 counterpart.
type pairDiff struct {
	report  func(string)
	schemas int
	members int
	limit   int
}

func (d *pairDiff) say(f string, args ...interface{}) {
	if d.limit++; d.limit < 6 {
		d.report(fmt.Sprintf(f, args...))
	}
}

// Members that are schemas.
var schemaMember = map[string]bool{"schema": true}

func (d *pairDiff) any(a, b interface{}, path string) {
	ma, okA := a.(map[string]interface{})
	mb, okB := b.(map[string]interface{})

	if okA && okB {
		for _, k := range keysOf(ma, mb) {
			va, okA := ma[k]
			vb, okB := mb[k]

			d.members++

			switch {
			case !okB:
				d.say("%s: 3.0 has %s: %s, 3.1 has not", path, k, short(va))
			case !okA:
				d.say("%s: 3.1 has %s: %s, 3.0 has not", path, k, short(vb))
			case schemaMember[k] || strings.HasSuffix(path, "/components/schemas"):
				d.schema(va, vb, path+"/"+k, !strings.HasSuffix(path, "/components/schemas"))
			default:
				d.any(va, vb, path+"/"+k)
			}
		}

		return
	}

	la, okA := a.([]interface{})
	lb, okB := b.([]interface{})

	if okA && okB && len(la) == len(lb) {
		for i := range la {
			d.any(la[i], lb[i], fmt.Sprintf("%s/%d", path, i))
		}

		return
	}

	if !reflect.DeepEqual(a, b) {
		d.say("%s: 3.0 has %s, 3.1 has %s", path, short(a), short(b))
	}
}

// schema compares in the notation of 3.0, root tells that nullability is not important: it is not kept there in 3.0.
func (d *pairDiff) schema(a, b interface{}, path string, root bool) {
	d.schemas++

	x, y := a, to30(b)

	if root {
		x, y = without(asMap(x), "nullable"), without(asMap(y), "nullable")
	}

	if !reflect.DeepEqual(x, y) {
		at := firstDiff(x, y, "")
		d.say("%s: schemas differ at %s", path, at)
	}
}

func firstDiff(a, b interface{}, path string) string {
	if ma, ok := a.(map[string]interface{}); ok {
		if mb, ok := b.(map[string]interface{}); ok {
			for _, k := range keysOf(ma, mb) {
				if !reflect.DeepEqual(ma[k], mb[k]) {
					return firstDiff(ma[k], mb[k], path+"/"+k)
				}
			}
		}
	}

	if la, ok := a.([]interface{}); ok {
		if lb, ok := b.([]interface{}); ok && len(la) == len(lb) {
			for i := range la {
				if !reflect.DeepEqual(la[i], lb[i]) {
					return firstDiff(la[i], lb[i], fmt.Sprintf("%s/%d", path, i))
				}
			}
		}
	}

	return fmt.Sprintf("%s: %s (3.0) and %s (3.1)", path, short(a), short(b))
}

// details decorate a document and operations the same way in both versions.
func decorateDoc(r *rand.Rand) func(ss openapi.SpecSchema) {
	var fs []func(ss openapi.SpecSchema)

	for i := r.Intn(4); i > 0; i-- {
		n, d := fmt.Sprintf("sec%d", r.Intn(4)), []string{"", "Security."}[r.Intn(2)]

		switch r.Intn(3) {
		case 0:
			fs = append(fs, func(ss openapi.SpecSchema) { ss.SetHTTPBasicSecurity(n, d) })
		case 1:
			f := []string{"", "JWT"}[r.Intn(2)]
			fs = append(fs, func(ss openapi.SpecSchema) { ss.SetHTTPBearerTokenSecurity(n, f, d) })
		case 2:
			in := []openapi.In{openapi.InQuery, openapi.InHeader, openapi.InCookie}[r.Intn(3)]
			fs = append(fs, func(ss openapi.SpecSchema) { ss.SetAPIKeySecurity(n, "key", in, d) })
		}
	}

	title, desc := fmt.Sprintf("API %d", r.Intn(9)), []string{"", "Of *this* <b>\nservice</b>."}[r.Intn(2)]

	return func(ss openapi.SpecSchema) {
		ss.SetTitle(title)
		ss.SetVersion("v1.2.3")

		if desc != "" {
			ss.SetDescription(desc)
		}

		for _, f := range fs {
			f(ss)
		}
	}
}

func decorateOp(r *rand.Rand) func(oc openapi.OperationContext) {
	x := r.Intn(64)
	id, tags, scopes := fmt.Sprintf("id%d", r.Intn(1000)), []string{"a", "b", "c"}[:r.Intn(4)], []string{"read", "write"}[:r.Intn(3)]
	sec := fmt.Sprintf("sec%d", r.Intn(4))

	return func(oc openapi.OperationContext) {
		if x&1 != 0 {
			oc.SetID(id)
		}

		if x&2 != 0 {
			oc.SetTags(tags...)
		}

		if x&4 != 0 {
			oc.AddSecurity(sec, scopes...)
		}

		if x&8 != 0 {
			oc.SetSummary("Summary of " + id)
		}

		if x&16 != 0 {
			oc.SetDescription("Description of " + id)
		}

		if x&32 != 0 {
			oc.SetIsDeprecated(true)
			oc.AddSecurity("other")
		}
	}
}

func init() {
	register(&mon.Check{
		ID:    "C15",
		Rule:  "the same random calls (documents details, operations with all content options, reflector options, refused ones) are made on a 3.0 and a 3.1 reflector in lock-step: outcomes compared after every call, whole documents compared after every operation (schemas in the notation of 3.0); non-trivial with schemas compared",
		Level: "exploration",
		Quick: 7000, Thorough: 60000,
		Case: func(c *mon.Ctx) {
			r := c.R
			s := setups[0]

			if c.Idx%2 == 1 {
				s = setups[r.Intn(len(setups))]
			}

			a, b := newTarget("3.0", s), newTarget("3.1", s)
			g := newOpGen(r)
			g.g.Odd = r.Intn(2) == 0

			dd := decorateDoc(r)
			dd(a.refl.SpecSchema())
			dd(b.refl.SpecSchema())

			var log []interface{}

			n := 1 + r.Intn(5)
			for i := 0; i < n; i++ {
				o := g.op()

				switch {
				case i > 0 && r.Intn(12) == 0:
					g.n-- // The same path, may be the same method.
					o = g.op()
				case r.Intn(30) == 0:
					o.reqs = append(o.reqs, unit{structure: badUnits[r.Intn(len(badUnits))]})
				case r.Intn(30) == 0:
					o.resps = append(o.resps, unit{structure: badResponses[r.Intn(len(badResponses))]})
				case r.Intn(25) == 0:
					o.method = "POST"
					o.reqs = []unit{{structure: special.Forms[r.Intn(len(special.Forms))]}}
				case r.Intn(30) == 0:
					o.resps = append(o.resps, unit{status: 300 + i, structure: special.RecursiveHeaders[r.Intn(len(special.RecursiveHeaders))]})
				case r.Intn(30) == 0:
					o.pattern = []string{"", "/{", "/}{", "/{a", "/a}/{b:", "a b", "/é/{ü}"}[r.Intn(7)]
				case r.Intn(40) == 0:
					o.method = "PURGE"
				}

				log = append(log, describeOp(o))
				det := map[string]interface{}{"setup": s.name, "operations": log}
				do := decorateOp(r)

				add := func(t *target) error {
					oc, err := t.context(o)
					if err != nil {
						return fmt.Errorf("context: %w", err)
					}

					do(oc)

					return t.refl.AddOperation(oc)
				}

				var errA, errB error

				if !c.Guard("3.0: adding an operation", det, func() { errA = add(a) }) || !c.Guard("3.1: adding an operation", det, func() { errB = add(b) }) {
					return
				}

				if (errA == nil) != (errB == nil) || (errA != nil && strings.HasPrefix(errA.Error(), "context:") != strings.HasPrefix(errB.Error(), "context:")) {
					c.Violate(fmt.Sprintf("adding an operation: 3.0 returns %v, 3.1 returns %v", errA, errB), det)

					return
				}

				if errA != nil {
					c.Count("refused_by_both", 1)
				}

				ta, errA := a.tree()
				tb, errB := b.tree()

				if errA != nil || errB != nil {
					c.Violate(fmt.Sprintf("document can not be encoded: 3.0 %v, 3.1 %v", errA, errB), det)

					return
				}

				d := &pairDiff{report: func(w string) { c.Violate(w, det) }}

				// 3.0 documents have to have paths.
				if len(asMap(ta["paths"])) == 0 && len(asMap(tb["paths"])) == 0 {
					delete(ta, "paths")
					delete(tb, "paths")
				}

				if i == n-1 {
					d.any(without(ta, "openapi"), without(tb, "openapi"), "")
				} else {
					p := "/" + strings.TrimPrefix(o.path, "/")
					d.any(asMap(asMap(ta["paths"])[p]), asMap(asMap(tb["paths"])[p]), p)
				}

				c.Count("schemas_compared", d.schemas)
				c.Count("members_compared", d.members)
				c.Count("documents_compared", 1)
				c.Eval(fmt.Sprintf("%s %d schemas %d members", s.name, d.schemas, d.members/4), d.schemas > 0)

				if d.limit > 0 {
					return
				}

				if c.WantSample() && d.schemas > 10 {
					c.Sample(map[string]interface{}{"operations": log, "schemas": d.schemas, "members": d.members})
				}
			}
		},
		Need: map[string]int{"schemas_compared": 10000, "refused_by_both": 50},
	})
}
