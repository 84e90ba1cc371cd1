package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"

	adto "verif/harness/corpus/a/dto"
	bdto "verif/harness/corpus/b/dto"
	"verif/harness/corpus/special"
	"verif/harness/mon"
)

// Types with coinciding names.
func clashing() (ts []reflect.Type) {
	for _, l := range [][]interface{}{special.Clash, special.JSON, adto.JSON, bdto.JSON} {
		for _, v := range l {
			ts = append(ts, reflect.TypeOf(v))
		}
	}

	return ts
}

// namePool are types that are used in a document again and again.
func (g *opGen) namePool(all []reflect.Type) []reflect.Type {
	var res []reflect.Type

	n := 2 + g.r.Intn(6)
	for i := 0; i < n; i++ {
		if g.p(.15) {
			res = append(res, reflect.TypeOf(special.ItemID{}), reflect.TypeOf(special.ItemId{}), reflect.TypeOf(special.Itemid{}))
		} else if g.p(.5) {
			k := g.r.Intn(len(adto.JSON))
			res = append(res, reflect.TypeOf(adto.JSON[k]), reflect.TypeOf(bdto.JSON[k]))
		} else if g.p(.6) {
			res = append(res, reflect.TypeOf(special.Clash[g.r.Intn(len(special.Clash))]))
		} else {
			res = append(res, all[g.r.Intn(len(all))])
		}
	}

	return res
}

func (g *opGen) wrapped(t reflect.Type) reflect.Type {
	switch g.r.Intn(9) {
	case 0:
		return reflect.SliceOf(t)
	case 1:
		return reflect.MapOf(reflect.TypeOf(""), t)
	case 2:
		return reflect.StructOf([]reflect.StructField{{Name: "Data", Type: t, Tag: `json:"data"`}, {Name: "More", Type: reflect.SliceOf(t), Tag: `json:"more" required:"true"`}})
	case 3:
		return reflect.StructOf([]reflect.StructField{{Name: "Opt", Type: reflect.PtrTo(t), Tag: `json:"opt,omitempty"`}, {Name: "Any", Type: reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(t)), Tag: `json:"any"`}})
	case 4:
		return reflect.StructOf([]reflect.StructField{{Name: "Part", Type: t, Tag: reflect.StructTag(g.formTag())}, {Name: "N", Type: reflect.TypeOf(0), Tag: `formData:"n"`}})
	case 5:
		return reflect.SliceOf(reflect.SliceOf(t))
	}

	return t
}

func (g *opGen) formTag() string {
	return []string{`formData:"part"`, `form:"part"`}[g.r.Intn(2)]
}

func isForm(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && t.NumField() > 0 && strings.Contains(string(t.Field(0).Tag), "form")
}

// paramAndBody has the type in a JSON parameter and in the JSON body.
func paramAndBody(g *opGen, t reflect.Type) reflect.Type {
	in := []string{"query", "header", "cookie"}[g.r.Intn(3)]

	if g.p(.5) { // A name that has to be sanitized.
		for {
			if t = reflect.TypeOf(special.Clash[g.r.Intn(len(special.Clash))]); strings.Contains(t.Name(), "[") {
				break
			}
		}
	}
	fields := []reflect.StructField{{Name: "Param", Type: t, Tag: reflect.StructTag(in + `:"param"`)}}

	if g.p(.6) {
		fields = append(fields, reflect.StructField{Name: "Body", Type: t, Tag: `json:"body"`})
	}

	return reflect.StructOf(fields)
}

// historyOp uses types of the pool.
func (g *opGen) historyOp(pool []reflect.Type) opDef {
	if g.p(.25) {
		return g.op()
	}

	g.n++

	o := opDef{method: []string{"POST", "PUT", "PATCH", "POST", "GET"}[g.r.Intn(5)], path: fmt.Sprintf("/op%d", g.n), pattern: fmt.Sprintf("/op%d", g.n)}

	for i := g.r.Intn(3); i > 0; i-- {
		t := g.wrapped(pool[g.r.Intn(len(pool))])
		if g.p(.15) {
			t = reflect.TypeOf(special.Forms[g.r.Intn(len(special.Forms))])
			if t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
		}

		if g.p(.15) {
			t = paramAndBody(g, pool[g.r.Intn(len(pool))])
		}

		u := unit{structure: g.value(t)}
		if !g.reject(u) {
			o.reqs = append(o.reqs, u)
		}
	}

	for i := g.r.Intn(4); i > 0; i-- {
		t := g.wrapped(pool[g.r.Intn(len(pool))])
		if isForm(t) {
			continue
		}

		u := unit{structure: g.value(t), status: statuses[g.r.Intn(len(statuses))]}
		if g.p(.2) {
			u.contentType = []string{"application/problem+json", "text/csv"}[g.r.Intn(2)]
		}

		o.resps = append(o.resps, u)
	}

	return o
}

// historyCase follows one document through a history of operations.
func historyCase(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	s := setups[0]

	if r.Intn(4) != 0 {
		s = setups[r.Intn(len(setups))]
	}

	t := newTarget(ver, s)
	m := newModel(ver, s)
	own := newOwners()
	g := newOpGen(r)
	g.reject = m.roleClash
	pool := g.namePool(clashing())

	c.Count("setup:"+s.name, 1)

	type pair struct {
		o opDef
		x *xOp
	}

	var (
		added   []pair
		history []interface{}
		comps   map[string]interface{}
		shared  int
	)

	whole := func(cmp *comparer, x *xOp, op map[string]interface{}) {
		cmp.params(x, op)
		cmp.body(x, op)
		cmp.responses(x, op)
		c.Count("schemas_compared", cmp.n)
		c.Count("references_followed", cmp.refs)
		c.Count("nullability_leaks", cmp.leaks)

		shared += cmp.refs
	}

	n := 2 + r.Intn([]int{4, 8, 14}[r.Intn(3)])
	for i := 0; i < n; i++ {
		o := g.historyOp(pool)
		if ver == "3.1" && r.Intn(10) == 0 {
			o.webhook = true
		}

		x := m.expect(o)
		history = append(history, describeOp(o))
		det := map[string]interface{}{"version": ver, "setup": s.name, "history": history}

		var err error

		if !c.Guard(ver+": adding an operation", det, func() { _, err = t.add(o) }) {
			return
		}

		if err != nil {
			if x.refused == "" {
				c.Violate(fmt.Sprintf("%s: adding an operation returned %v", ver, err), det)

				return
			}
		}

		doc, err := t.tree()
		if err != nil {
			c.Violate(ver+": document can not be encoded: "+err.Error(), det)

			return
		}

		if x.refused == "" {
			added = append(added, pair{o, x})

			whole(newComparer(doc, own, func(what string) { c.Violate(ver+": "+what, det) }), x, findOp(doc, o))
			c.Count("operations", 1)
		} else {
			c.Count("refused_operations", 1)
		}

		// Components of earlier operations are as they were.
		now := asMap(asMap(doc["components"])["schemas"])

		for name, was := range comps {
			c.Count("components_watched", 1)

			if is, ok := now[name]; !ok {
				c.Violate(ver+": component "+name+" is gone after a later operation", det)
			} else if !reflect.DeepEqual(stableComp(was), stableComp(is)) {
				c.Violate(fmt.Sprintf("%s: component %s changed after a later operation: %s", ver, name, firstDiff(was, is, "")), det)
			}
		}

		comps = now
	}

	doc, _ := t.tree()

	for _, p := range added {
		whole(newComparer(doc, own, func(what string) {
			c.Violate(ver+": after later operations: "+what, map[string]interface{}{"version": ver, "setup": s.name, "history": history, "operation": describeOp(p.o)})
		}), p.x, findOp(doc, p.o))
	}

	// Coinciding names that this history really had.
	base := map[string]bool{}

	for _, ty := range own.typeOf {
		rt := m.types[ty]
		if rt == nil {
			continue
		}

		if base[rt.String()] {
			c.Count("types_with_the_same_name", 1)
		}

		base[rt.String()] = true
	}

	for name := range own.typeOf {
		if l := name[len(name)-1]; strings.Contains(name, "Type") && l >= '0' && l <= '9' {
			c.Count("suffixed_components", 1)
		}
	}

	c.Count("components_owned", len(own.typeOf))
	c.Max("components_of_a_document", len(comps))
	c.Eval(fmt.Sprintf("%s %s %d components", ver, s.name, len(comps)), shared > 1)

	if c.WantSample() && len(own.typeOf) > 2 {
		c.Sample(map[string]interface{}{"version": ver, "setup": s.name, "history": history, "component_owners": len(own.typeOf)})
	}
}

type paramRole struct {
	Text string `json:"text" minLength:"3" required:"true"`
}

// paramRoles follows a type that is used as a parameter before it is used in a JSON body.
func paramRoles(c *mon.Ctx) {
	type withList struct {
		Items []paramRole `query:"items"`
	}

	for _, ver := range []string{"3.0", "3.1"} {
		t := newTarget(ver, setups[0])

		for _, o := range []opDef{
			{method: "get", path: "/a", pattern: "/a", reqs: []unit{{structure: withList{}}}},
			{method: "get", path: "/b", pattern: "/b", resps: []unit{{structure: paramRole{}}}},
		} {
			if _, err := t.add(o); err != nil {
				c.Violate(ver+": "+err.Error(), describeOp(o))

				return
			}
		}

		doc, err := t.tree()
		if err != nil {
			c.Violate(ver+": "+err.Error(), nil)

			return
		}

		comps := asMap(asMap(doc["components"])["schemas"])
		ref, _ := refName(asMap(asMap(asMap(asMap(asMap(findOp(doc, opDef{method: "get", path: "/b"})["responses"])["200"])["content"])[ctJSON])["schema"]))
		props := asMap(asMap(comps[ref])["properties"])

		c.Known("param-role-component", props["text"] == nil, ver+": a type that was a parameter first is described in JSON bodies by the component of the parameter", doc)
	}

	// A nested type is followed through wrappers of the same kind of use.
	for _, ver := range []string{"3.0", "3.1"} {
		t := newTarget(ver, setups[0])
		if _, err := t.add(opDef{method: "post", pattern: "/a", resps: []unit{{structure: jsonschema.OneOf(special.Cat{}, special.Dog{})}, {structure: []special.Animal{}, status: 201}},
			reqs: []unit{{structure: special.Animal{}, customize: func(openapi.ContentOrReference) {}}}}); err != nil {
			c.Violate(ver+": "+err.Error(), nil)

			continue
		}

		doc, _ := t.tree()
		if got := keysOf(asMap(asMap(doc["components"])["schemas"])); !reflect.DeepEqual(got, []string{"SpecialAnimal", "SpecialCat", "SpecialDog"}) {
			c.Violate(fmt.Sprintf("%s: components %v of one composed type and its two parts", ver, got), nil)
		}
	}
}

// editedCase lets the user edit components, and adds more operations that use them.
func editedCase(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	s := setups[r.Intn(len(setups))]
	t := newTarget(ver, s)
	g := newOpGen(r)
	g.reject = newModel(ver, s).roleClash
	pool := g.namePool(clashing())

	edited := map[string]string{} // component -> as it was after the edit

	var history []interface{}

	comps := func() map[string]interface{} {
		doc, err := t.tree()
		if err != nil {
			return nil
		}

		return asMap(asMap(doc["components"])["schemas"])
	}

	for i, n := 0, 2+r.Intn(8); i < n; i++ {
		o := g.historyOp(pool)
		o.method = []string{"get", "delete", "trace"}[r.Intn(3)]

		// Definitions of request bodies are always stored.
		for _, u := range o.reqs {
			if _, ok := u.structure.(openapi.RequestBodyEnforcer); ok {
				o.reqs = nil

				break
			}
		}

		history = append(history, describeOp(o))
		det := map[string]interface{}{"version": ver, "setup": s.name, "history": history}

		if !c.Guard(ver+": adding an operation", det, func() { _, _ = t.add(o) }) {
			return
		}

		now := comps()

		for name, was := range edited {
			if is := mon.JSON(now[name]); is != was {
				c.Violate(ver+": component "+name+" that the user edited is altered by a later operation: "+diffText(json.RawMessage(was), json.RawMessage(is)), det)

				return
			}

			c.Count("edited_components_watched", 1)
		}

		// Another edit of some.
		for _, name := range keysOf(now) {
			if r.Intn(2) == 0 {
				continue
			}

			if t.r3 != nil {
				if x := t.r3.Spec.Components.Schemas.MapOfSchemaOrRefValues[name].Schema; x != nil {
					x.WithMapOfAnythingItem("x-edited", i)

					if r.Intn(2) == 0 {
						x.WithDescription(fmt.Sprintf("Edited %d.", i))
					}
				}
			} else {
				x := t.r31.Spec.Components.Schemas[name]
				x["x-edited"] = i

				if r.Intn(2) == 0 {
					x["description"] = fmt.Sprintf("Edited %d.", i)
				}
			}
		}

		for name, v := range comps() {
			edited[name] = mon.JSON(v)
		}
	}

	c.Eval(fmt.Sprintf("%s edited %d", ver, len(edited)), len(edited) > 1)
}

func init() {
	register(&mon.Check{
		ID:    "C21",
		Rule:  "histories of up to 17 operations in one document over a small pool of types whose names coincide (same package name and type name, generic instances, names that look like prefixed ones, all names intercepted to one) in bodies, forms, responses, nested fields, lists, maps and parameters; after every operation everything it documents is compared with the reference model following references, types and components are matched one to one over the whole history, and every component of earlier operations has to be as it was, edits of the user included",
		Level: "exploration",
		Quick: 5000, Thorough: 40000,
		Fixed: paramRoles,
		Case: func(c *mon.Ctx) {
			if c.R.Intn(5) == 0 {
				editedCase(c)
			} else {
				historyCase(c)
			}
		},
		Rare: nullLeaks,
		Need: map[string]int{"references_followed": 5000, "types_with_the_same_name": 200, "suffixed_components": 200, "components_watched": 5000, "edited_components_watched": 1000},
	})
}
