package checks

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/mon"
	"verif/harness/oas"
)

// custom tells what a customize function does.
type custom struct {
	mark     string // extension to add
	desc     string // description to set
	ref      string // reference to set
	refFirst bool   // set another reference before
}

// custCall is a recorded call of a customize function.
type custCall struct {
	resp bool
	unit int
	kind string
	tree map[string]interface{} // the entity at the time of the call
}

func (cu custom) apply(cor openapi.ContentOrReference) {
	if cu.refFirst {
		cor.SetReference("#/components/other")
	}

	if cu.ref != "" {
		cor.SetReference(cu.ref)

		return
	}

	switch e := cor.(type) {
	case *openapi3.RequestBodyOrRef:
		if e.RequestBody == nil {
			return
		}

		if cu.mark != "" {
			e.RequestBody.WithMapOfAnythingItem(cu.mark, true)
		}

		if cu.desc != "" {
			e.RequestBody.WithDescription(cu.desc)
		}
	case *openapi31.RequestBodyOrReference:
		if e.RequestBody == nil {
			return
		}

		if cu.mark != "" {
			e.RequestBody.WithMapOfAnythingItem(cu.mark, true)
		}

		if cu.desc != "" {
			e.RequestBody.WithDescription(cu.desc)
		}
	case *openapi3.ResponseOrRef:
		if e.Response == nil {
			return
		}

		if cu.mark != "" {
			e.Response.WithMapOfAnythingItem(cu.mark, true)
		}

		if cu.desc != "" {
			e.Response.WithDescription(cu.desc)
		}
	case *openapi31.ResponseOrReference:
		if e.Response == nil {
			return
		}

		if cu.mark != "" {
			e.Response.WithMapOfAnythingItem(cu.mark, true)
		}

		if cu.desc != "" {
			e.Response.WithDescription(cu.desc)
		}
	}
}

// part is a request body or a response in the making.
type part struct {
	marks map[string]interface{}
	over  string // description set by a customize function that still counts
	ref   string
}

func statusOf(u unit) string {
	switch {
	case u.isDefault:
		return "default"
	case u.status == 0:
		return "200"
	case u.status < 6:
		return fmt.Sprint(u.status, "XX")
	}

	return fmt.Sprint(u.status)
}

func (p *part) apply(cu custom) {
	if cu.ref != "" {
		*p = part{ref: cu.ref, marks: map[string]interface{}{}}

		return
	}

	if cu.mark != "" {
		p.marks[cu.mark] = true
	}

	if cu.desc != "" {
		p.over = cu.desc
	}
}

// strip takes marks off an entity and tells if they were the expected ones.
func (p *part) strip(tree map[string]interface{}) (map[string]interface{}, bool) {
	res, got := map[string]interface{}{}, map[string]interface{}{}

	for k, v := range tree {
		if len(k) > 8 && k[:8] == "x-custom" {
			got[k] = v
		} else {
			res[k] = v
		}
	}

	return res, reflect.DeepEqual(got, p.marks)
}

// customized is an operation with customize functions of its units.
type customized struct {
	o           opDef
	reqs, resps []custom
	none        map[string]bool // units without customize function
	calls       []custCall
	afterRef    bool // a described unit without body follows the one that set a reference
}

func (g *opGen) custom(allowRef bool) custom {
	cu := custom{}

	switch x := g.r.Float64(); {
	case x < .25 && allowRef:
		cu.ref = fmt.Sprintf("#/components/x/%d", g.r.Intn(100))
		cu.refFirst = g.p(.3)
	case x < .55:
		cu.mark = fmt.Sprintf("x-custom-%d", g.r.Intn(1000))
	case x < .7:
		cu.desc = fmt.Sprintf("Custom %d.", g.r.Intn(1000))
	case x < .85:
		cu.mark, cu.desc = fmt.Sprintf("x-custom-%d", g.r.Intn(1000)), fmt.Sprintf("Custom %d.", g.r.Intn(1000))
	}

	return cu
}

func (g *opGen) customized() *customized {
	g.n++

	cz := &customized{o: opDef{method: httpMethods[g.r.Intn(len(httpMethods))]}}
	o := &cz.o

	if g.p(.5) {
		o.method = []string{"POST", "PUT", "PATCH"}[g.r.Intn(3)]
	}

	for i := g.r.Intn(4); i > 0; i-- {
		o.reqs = append(o.reqs, g.request())
	}

	for i := g.r.Intn(5); i > 0; i-- {
		u := g.response()
		if g.p(.4) && len(o.resps) > 0 {
			u.status, u.isDefault = o.resps[0].status, o.resps[0].isDefault
		}

		o.resps = append(o.resps, u)
	}

	g.paths(o)

	hook := func(isResp bool, i int, cu custom) func(cor openapi.ContentOrReference) {
		return func(cor openapi.ContentOrReference) {
			call := custCall{resp: isResp, unit: i, kind: fmt.Sprintf("%T", cor)}

			// A request body without content can not be encoded, it is still recorded.
			if b, err := json.Marshal(cor); err == nil {
				_ = json.Unmarshal(b, &call.tree)
			}

			cz.calls = append(cz.calls, call)
			cu.apply(cor)
		}
	}

	cz.none = map[string]bool{}
	last := map[string]int{}

	for i, u := range o.resps {
		last[statusOf(u)] = i
	}

	for i := range o.reqs {
		cu := g.custom(i == len(o.reqs)-1)

		if g.p(.2) {
			cu = custom{}
			cz.none[fmt.Sprint(false, i)] = true
		} else {
			o.reqs[i].customize = hook(false, i, cu)
		}

		cz.reqs = append(cz.reqs, cu)
	}

	// A request body that became a reference remains one when a unit without body follows.
	if n := len(o.reqs); n > 0 && cz.reqs[n-1].ref != "" && !g.tagless && g.p(.6) {
		u := unit{structure: new(struct {
			After int `query:"after_ref"`
		})}

		if g.p(.7) {
			u.description = fmt.Sprintf("After %d.", g.r.Intn(100))
		}

		cu := custom{}

		if g.p(.5) {
			cz.none[fmt.Sprint(false, n)] = true
		} else {
			cu = g.custom(false)
			u.customize = hook(false, n, cu)
		}

		o.reqs, cz.reqs = append(o.reqs, u), append(cz.reqs, cu)
		cz.afterRef = u.description != ""
	}

	for i, u := range o.resps {
		cu := g.custom(last[statusOf(u)] == i)

		if g.p(.2) {
			cu = custom{}
			cz.none[fmt.Sprint(true, i)] = true
		} else {
			o.resps[i].customize = hook(true, i, cu)
		}

		cz.resps = append(cz.resps, cu)
	}

	return cz
}

// entity compares a body or response with what the model expects after the units so far.
func (cz *customized) entity(cmp *comparer, x *xOp, status string, p *part, tree map[string]interface{}, when string) {
	if p.ref != "" {
		if !reflect.DeepEqual(tree, map[string]interface{}{"$ref": p.ref}) {
			cmp.report(when + "expected only a reference to " + p.ref + ", got " + short(tree))
		}

		return
	}

	rest, ok := p.strip(tree)
	if !ok {
		cmp.report(fmt.Sprintf("%sexpected marks %s in %s", when, short(p.marks), short(tree)))
	}

	report := cmp.report
	cmp.report = func(s string) { report(when + s) }

	if status == "" {
		x1 := *x
		if p.over != "" {
			x1.bodyDesc = p.over
		}

		cmp.body(&x1, map[string]interface{}{"requestBody": rest})
	} else {
		r := *x.responses[status]
		if p.over != "" {
			r.description = p.over
		}

		cmp.responses(&xOp{responses: map[string]*xResp{status: &r}}, map[string]interface{}{"responses": map[string]interface{}{status: rest}})
	}

	cmp.report = report
}

// letters tell what customize functions do.
func letters(cs []custom) (res string) {
	for _, cu := range cs {
		switch {
		case cu.ref != "":
			res += "r"
		case cu.mark != "" && cu.desc != "":
			res += "b"
		case cu.mark != "":
			res += "m"
		case cu.desc != "":
			res += "d"
		default:
			res += "-"
		}
	}

	return res
}

func customizeCase(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	s := setups[0]

	if c.Idx%5 == 4 {
		s = setups[r.Intn(len(setups))]
	}

	t := newTarget(ver, s)
	m := newModel(ver, s)
	own := newOwners()
	g := newOpGen(r)
	g.reject = m.roleClash
	g.tagless = s.name == "without-tags"

	for i := 1 + r.Intn(4); i > 0; i-- {
		cz := g.customized()
		o := cz.o

		if ver == "3.1" && r.Intn(8) == 0 {
			o.webhook = true
		}

		det := map[string]interface{}{"version": ver, "setup": s.name, "operation": describeOp(o), "requestCustomize": fmt.Sprintf("%+v", cz.reqs), "responseCustomize": fmt.Sprintf("%+v", cz.resps)}

		var err error

		if !c.Guard(ver+": adding an operation", det, func() { _, err = t.add(o) }) {
			return
		}

		x := m.expect(o)
		if (err != nil) != (x.refused != "") {
			c.Violate(fmt.Sprintf("%s: adding an operation returned %v, expected refusal: %q", ver, err, x.refused), det)

			return
		}

		if err != nil {
			continue
		}

		doc, err := t.tree()
		if err != nil {
			c.Violate(ver+": document can not be encoded: "+err.Error(), det)

			return
		}

		op := findOp(doc, o)
		cmp := newComparer(doc, own, func(what string) { c.Violate(ver+": "+what, det) })

		// Calls are expected in the order of units.
		var want []custCall

		body := &part{marks: map[string]interface{}{}}
		parts := map[string]*part{}
		calls := cz.calls
		next := func(isResp bool, k int) *custCall {
			if !cz.none[fmt.Sprint(isResp, k)] {
				want = append(want, custCall{resp: isResp, unit: k})
			}

			for i := range calls {
				if calls[i].resp == isResp && calls[i].unit == k {
					return &calls[i]
				}
			}

			return nil
		}

		for k, u := range o.reqs {
			part := o
			part.reqs, part.resps = o.reqs[:k+1], nil

			xk := m.expect(part)
			if !xk.hasBody {
				continue
			}

			if u.description != "" {
				body.over = ""
			}

			if call := next(false, k); call != nil && call.tree != nil {
				if want := map[string]string{"3.0": "*openapi3.RequestBodyOrRef", "3.1": "*openapi31.RequestBodyOrReference"}[ver]; call.kind != want {
					c.Violate(ver+": request unit is customized with "+call.kind, det)
				}

				cz.entity(cmp, xk, "", body, call.tree, fmt.Sprintf("entity given to customize of request unit %d: ", k))
			}

			body.apply(cz.reqs[k])
		}

		for k, u := range o.resps {
			partial := o
			partial.resps = o.resps[:k+1]

			xk := m.expect(partial)
			st := statusOf(u)

			if parts[st] == nil {
				parts[st] = &part{marks: map[string]interface{}{}}
			}

			if u.description != "" {
				parts[st].over = ""
			}

			if call := next(true, k); call != nil {
				if want := map[string]string{"3.0": "*openapi3.ResponseOrRef", "3.1": "*openapi31.ResponseOrReference"}[ver]; call.kind != want {
					c.Violate(ver+": response unit is customized with "+call.kind, det)
				}

				cz.entity(cmp, xk, st, parts[st], call.tree, fmt.Sprintf("entity given to customize of response unit %d: ", k))
			}

			parts[st].apply(cz.resps[k])
		}

		var got, exp []string

		for _, w := range want {
			exp = append(exp, fmt.Sprint(w.resp, w.unit))
		}

		for _, w := range calls {
			got = append(got, fmt.Sprint(w.resp, w.unit))
		}

		sortStrs(got)
		sortStrs(exp)

		if !reflect.DeepEqual(got, exp) {
			c.Violate(fmt.Sprintf("%s: customize functions called %v, expected %v (is response, unit)", ver, got, exp), det)
		}

		// The document has all changes and nothing else changed.
		if x.hasBody {
			cz.entity(cmp, x, "", body, asMap(op["requestBody"]), "document: ")
		} else if op["requestBody"] != nil {
			c.Violate(ver+": unexpected request body "+short(op["requestBody"]), det)
		}

		for st := range x.responses {
			p := parts[st]
			if p == nil {
				p = &part{marks: map[string]interface{}{}}
			}

			cz.entity(cmp, x, st, p, asMap(asMap(op["responses"])[st]), "document: ")

			if p.ref != "" {
				c.Count("references_set", 1)
			}
		}

		for st := range asMap(op["responses"]) {
			if x.responses[st] == nil {
				c.Violate(ver+": unexpected response "+st, det)
			}
		}

		if body.ref != "" {
			c.Count("references_set", 1)

			if cz.afterRef {
				c.Count("described_after_reference", 1)
			}
		}

		for _, l := range [][]unit{o.reqs, o.resps} {
			for _, u := range l {
				if u.description != "" {
					c.Count("unit_descriptions", 1)
				}

				if u.viaPreparer {
					c.Count("prepared_units", 1)
				}
			}
		}

		c.Count("customize_calls", len(calls))
		c.Count("units_without_customize", len(cz.none))
		c.Count("schemas_compared", cmp.n)
		c.Count("nullability_leaks", cmp.leaks)
		c.Eval(fmt.Sprintf("%s %s/%s %v", ver, letters(cz.reqs), letters(cz.resps), len(calls)), len(calls) > 0)

		if c.WantSample() && len(calls) > 2 {
			c.Sample(map[string]interface{}{"case": det, "calls": len(calls), "documented": trim(mon.JSON(op), 2000)})
		}

		// Self-describing units give the same document as units with the options.
		prepared(c, ver, s, o, det)
	}
}

// prepared compares units that are given as options with ones that set up themselves.
func prepared(c *mon.Ctx, ver string, s setup, o opDef, det interface{}) {
	var docs [2][]byte

	for i := range docs {
		o2 := o
		o2.reqs, o2.resps = append([]unit{}, o.reqs...), append([]unit{}, o.resps...)

		for k := range o2.reqs {
			o2.reqs[k].viaPreparer = i == 1
			o2.reqs[k].customize = nil
		}

		for k := range o2.resps {
			o2.resps[k].viaPreparer = i == 1
			o2.resps[k].customize = nil
		}

		t := newTarget(ver, s)
		if _, err := t.add(o2); err != nil {
			c.Violate(ver+": "+err.Error(), det)

			return
		}

		b, err := t.doc().MarshalJSON()
		if err != nil {
			c.Violate(ver+": "+err.Error(), det)

			return
		}

		docs[i] = b
	}

	c.Count("documents_of_preparers", 1)

	if string(docs[0]) != string(docs[1]) {
		c.Violate(ver+": self-describing units are documented differently than units with the same options: "+firstDiff(treeOf(docs[0]), treeOf(docs[1]), ""), det)
	}
}

func treeOf(b []byte) interface{} {
	var v interface{}

	_ = json.Unmarshal(b, &v)

	return v
}

// Preparers that are structures of content themselves.

type ownPrep struct {
	Name string `json:"name" query:"q" header:"X-Name"`
}

func (p ownPrep) SetupContentUnit(cu *openapi.ContentUnit) {
	cu.Structure = p
	cu.Description = "Own description."
	cu.HTTPStatus = 203
	cu.SetFieldMapping(openapi.InCookie, map[string]string{"Name": "cookie"})
}

type ptrPrep struct {
	Name string `json:"name"`
}

func (p *ptrPrep) SetupContentUnit(cu *openapi.ContentUnit) {
	cu.Structure = new(ptrPrep)
	cu.ContentType = "text/css"
	cu.Format = "binary"
	cu.IsDefault = true
	cu.Customize = func(cor openapi.ContentOrReference) { custom{mark: "x-custom-self"}.apply(cor) }
}

type emptyPrep struct {
	Name string `json:"name" query:"q"`
}

func (emptyPrep) SetupContentUnit(*openapi.ContentUnit) {}

// preparers compares hand-written self-describing structures with the options they use.
func preparers(c *mon.Ctx) {
	type with struct {
		prep interface{}
		same func(cu *openapi.ContentUnit)
	}

	for _, ver := range []string{"3.0", "3.1"} {
		for _, w := range []with{
			{ownPrep{}, ownPrep{}.SetupContentUnit}, {&ownPrep{}, ownPrep{}.SetupContentUnit},
			{&ptrPrep{}, (&ptrPrep{}).SetupContentUnit}, {(*ptrPrep)(nil), (&ptrPrep{}).SetupContentUnit},
			{emptyPrep{}, func(*openapi.ContentUnit) {}},
		} {
			for _, extra := range [][]openapi.ContentOption{nil, {openapi.WithHTTPStatus(418)}, {openapi.WithContentType("text/csv"), openapi.WithReference("#/components/x")}, {func(cu *openapi.ContentUnit) { cu.Description = "Other." }}} {
				var docs [2][]byte

				for i := range docs {
					t := newTarget(ver, setups[0])

					oc, err := t.refl.NewOperationContext("post", "/a")
					if err != nil {
						c.Violate(ver+": "+err.Error(), nil)

						continue
					}

					if i == 0 {
						oc.AddReqStructure(w.prep, extra...)
						oc.AddRespStructure(w.prep, extra...)
					} else {
						opts := append([]openapi.ContentOption{w.same}, extra...)
						oc.AddReqStructure(nil, opts...)
						oc.AddRespStructure(nil, opts...)
					}

					if err := t.refl.AddOperation(oc); err != nil {
						c.Violate(ver+": "+err.Error(), fmt.Sprintf("%T", w.prep))

						continue
					}

					docs[i], _ = t.doc().MarshalJSON()
				}

				c.Count("hand_written_preparers", 1)

				if string(docs[0]) != string(docs[1]) {
					c.Violate(fmt.Sprintf("%s: %T is documented differently than the options it uses: %s", ver, w.prep, firstDiff(treeOf(docs[0]), treeOf(docs[1]), "")), nil)
				}
			}
		}
	}
}

// lastOption gives several customizing options to a unit: the last one of them counts.
func lastOption(c *mon.Ctx) {
	const ref = "#/components/x/last"

	for _, ver := range []string{"3.0", "3.1"} {
		for n := 0; n < 64; n++ {
			for _, isResp := range []bool{false, true} {
				var (
					opts  []openapi.ContentOption
					kinds []string
				)

				calls := map[int]int{}

				for i, k := 0, n; i < 3; i, k = i+1, k/4 {
					i := i

					kinds = append(kinds, []string{"none", "customize", "reference", "other reference"}[k%4])

					switch k % 4 {
					case 1:
						opts = append(opts, openapi.WithCustomize(func(cor openapi.ContentOrReference) {
							calls[i]++

							custom{mark: fmt.Sprintf("x-custom-%d", i)}.apply(cor)
						}))
					case 2:
						opts = append(opts, openapi.WithReference(ref))
					case 3:
						opts = append(opts, openapi.WithReference("#/components/x/other"))
					}

					opts = append(opts, openapi.WithContentType("text/csv"))
				}

				last, lastKind := -1, "none"

				for i, k := range kinds {
					if k != "none" {
						last, lastKind = i, k
					}
				}

				t := newTarget(ver, setups[0])

				oc, err := t.refl.NewOperationContext("post", "/a")
				if err != nil {
					panic(err)
				}

				if isResp {
					oc.AddRespStructure(nil, opts...)
				} else {
					oc.AddReqStructure(nil, opts...)
				}

				if err := t.refl.AddOperation(oc); err != nil {
					panic(err)
				}

				d, _ := t.tree()
				e, _ := oas.At(d, "paths", "/a", "post", "requestBody").(map[string]interface{})
				what := "request body"

				if isResp {
					e, _ = oas.At(d, "paths", "/a", "post", "responses", "200").(map[string]interface{})
					what = "response"
				}

				report := func(s string) {
					c.Violate(fmt.Sprintf("%s: %s with several customizing options: %s", ver, what, s), map[string]interface{}{"options": kinds, "entity": e, "calls": fmt.Sprint(calls)})
				}

				c.Count("option_sequences", 1)

				for i := range kinds {
					want := 0
					if i == last && lastKind == "customize" {
						want = 1
					}

					if calls[i] != want {
						report(fmt.Sprintf("function %d was called %d times instead of %d", i, calls[i], want))
					}

					if (e[fmt.Sprintf("x-custom-%d", i)] != nil) != (want == 1) {
						report("extensions are not those of the last customize function")
					}
				}

				switch lastKind {
				case "reference", "other reference":
					want := ref
					if lastKind != "reference" {
						want = "#/components/x/other"
					}

					if !reflect.DeepEqual(e, map[string]interface{}{"$ref": want}) {
						report("expected a reference to " + want)
					}
				default:
					if e["$ref"] != nil || oas.At(e, "content", "text/csv") == nil {
						report("expected content")
					}
				}
			}
		}
	}
}

func init() {
	register(&mon.Check{
		ID:    "C23",
		Rule:  "random operations whose units all have customize functions that log their calls with the entity they were given and then change it (extension, description, reference, reference twice); calls have to be exactly one per unit, the entity of every call and the final document are compared with the reference model after that unit (descriptions, content, headers, earlier changes), referenced parts have nothing but the reference; documents of self-describing units are compared byte by byte with those of the same options",
		Level: "exploration",
		Quick: 7000, Thorough: 40000,
		Fixed: func(c *mon.Ctx) {
			preparers(c)
			lastOption(c)
		},
		Rare: nullLeaks,
		Case: customizeCase,
		Need: map[string]int{"customize_calls": 2000, "references_set": 200, "unit_descriptions": 300, "prepared_units": 100, "documents_of_preparers": 500, "hand_written_preparers": 40, "option_sequences": 256, "described_after_reference": 30},
	})
}
