package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/jsch"
	"verif/harness/mon"
	"verif/harness/oas"
)

const refPrefix = "#/components/schemas/"

func tree(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	var t interface{}
	if err := json.Unmarshal(b, &t); err != nil {
		panic(err)
	}

	return t
}

// parsed encodes a value and parses it with exact numbers.
func parsed(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	t, _, err := oas.Parse(b)
	if err != nil {
		panic(err)
	}

	return t
}

func inComponents(comp map[string]interface{}) func(string) (interface{}, bool) {
	return func(ref string) (interface{}, bool) {
		n, ok := jsch.ComponentRef(ref)
		if !ok {
			return nil, false
		}

		s, ok := comp[n]

		return s, ok
	}
}

// exported splits an exported schema into itself and the definitions it carries.
func exported(js jsonschema.SchemaOrBool) (root interface{}, defs map[string]interface{}) {
	root = tree(js)
	defs = map[string]interface{}{}

	if m, ok := root.(map[string]interface{}); ok {
		if c, ok := m["components"].(map[string]interface{}); ok {
			if d, ok := c["schemas"].(map[string]interface{}); ok {
				defs = d
			}

			delete(m, "components")
		}
	}

	return root, defs
}

// sameVerdicts evaluates two schemas on values made for either; it reports a value on which they differ.
func sameVerdicts(c *mon.Ctx, g *jsch.Gen, n int, d1 jsch.Dialect, s1 interface{}, r1 func(string) (interface{}, bool), d2 jsch.Dialect, s2 interface{}, r2 func(string) (interface{}, bool)) (v interface{}, verdicts [2]bool, ok bool) {
	for i := 0; i < n; i++ {
		var v interface{}

		switch {
		case i < n/6:
			v = g.Value(3)
		case i%5 == 4:
			v = g.Near(s2, r2, 8)
		default:
			v = g.Near(s1, r1, 8)
		}

		e1, e2 := &jsch.Env{Dialect: d1, Resolve: r1}, &jsch.Env{Dialect: d2, Resolve: r2}
		v1, v2 := e1.Valid(s1, v), e2.Valid(s2, v)

		if e1.Cycle || e2.Cycle {
			c.Count("undecidable_values", 1)

			continue
		}

		if len(e2.Unresolved) > 0 && len(e1.Unresolved) == 0 {
			return v, [2]bool{v1, v2}, false
		}

		if v1 {
			c.Count("accepted_values", 1)
		} else {
			c.Count("rejected_values", 1)
		}

		if v1 != v2 {
			return v, [2]bool{v1, v2}, false
		}
	}

	return nil, verdicts, true
}

// annotationsKept walks a JSON Schema and its OpenAPI 3.0 form in parallel.
func annotationsKept(js, os interface{}, path string, report func(string)) {
	m, ok := js.(map[string]interface{})
	if !ok {
		return // a boolean schema
	}

	o, ok := os.(map[string]interface{})
	if !ok {
		report(fmt.Sprintf("%s: schema became %s", path, mon.JSON(os)))

		return
	}

	if ref, ok := m["$ref"]; ok {
		if m["deprecated"] == true {
			found, dep := false, false

			if l, ok := o["allOf"].([]interface{}); ok {
				for _, x := range l {
					if xm, ok := x.(map[string]interface{}); ok {
						found = found || xm["$ref"] == ref
						dep = dep || xm["deprecated"] == true
					}
				}
			}

			dep = dep || o["deprecated"] == true

			if !found || !dep {
				report(fmt.Sprintf("%s: deprecated reference %v became %s", path, ref, mon.JSON(o)))
			}
		} else if o["$ref"] != ref {
			report(fmt.Sprintf("%s: reference %v became %s", path, ref, mon.JSON(o)))
		}

		return
	}

	for k, v := range m {
		switch {
		case k == "title" || k == "description" || k == "default" || k == "format" || k == "deprecated" || k == "readOnly" || k == "writeOnly" || strings.HasPrefix(k, "x-"):
			if !reflect.DeepEqual(o[k], v) {
				report(fmt.Sprintf("%s: %s is %s instead of %s", path, k, mon.JSON(o[k]), mon.JSON(v)))
			}
		case k == "examples":
			if l := v.([]interface{}); len(l) > 0 && !reflect.DeepEqual(o["example"], l[0]) {
				report(fmt.Sprintf("%s: example is %s instead of %s", path, mon.JSON(o["example"]), mon.JSON(l[0])))
			}
		}
	}

	for _, k := range []string{"title", "description", "default", "format", "example", "deprecated", "readOnly", "writeOnly"} {
		_, was := m[k]
		if k == "example" {
			_, was = m["examples"]
		}

		if _, is := o[k]; is && !was {
			report(path + ": " + k + " appeared")
		}
	}

	for k := range o {
		if _, was := m[k]; !was && strings.HasPrefix(k, "x-") {
			report(path + ": " + k + " appeared")
		}
	}

	for _, k := range []string{"not", "items", "additionalProperties"} {
		if x, ok := m[k]; ok {
			annotationsKept(x, o[k], path+"/"+k, report)
		}
	}

	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if x, ok := m[k].([]interface{}); ok {
			y, _ := o[k].([]interface{})
			_, hasConst := m["const"] // can be expressed by another schema

			if len(x) != len(y) && !(hasConst && k == "allOf" && len(x) < len(y)) {
				report(path + ": another number of schemas in " + k)

				continue
			}

			for i := range x {
				annotationsKept(x[i], y[i], fmt.Sprintf("%s/%s/%d", path, k, i), report)
			}
		}
	}

	if x, ok := m["properties"].(map[string]interface{}); ok {
		y, _ := o["properties"].(map[string]interface{})
		for n := range x {
			annotationsKept(x[n], y[n], path+"/properties/"+n, report)
		}

		if len(x) != len(y) {
			report(path + ": another number of properties")
		}
	}
}

var compNames = []string{"A", "B", "C.d", "E-f", "G_1", "AB", "pet", "schemas", "components", "a", "s.t", "-x", "Pet", "components.schemas", "_"}

// stripDefaults of a tree that jsonschema-go can not carry (zero lengths are the absence of a constraint).
func genSchemaSet(r *rand.Rand, d jsch.Dialect, cov map[string]int, depth int) (g *jsch.Gen, start interface{}, comp map[string]interface{}) {
	g = &jsch.Gen{R: r, Dialect: d, Cov: cov, RefSiblings: d == jsch.Draft2020, Unevaluated: d == jsch.Draft2020}

	n := r.Intn(5)
	if r.Intn(12) == 0 {
		n = 6
	}

	names := append([]string{}, compNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	g.Names = names[:n]

	comp = map[string]interface{}{}

	for _, nm := range g.Names {
		s := g.Schema(1 + r.Intn(depth))
		if _, ok := s.(bool); ok && d == jsch.Draft2020 {
			s = map[string]interface{}{"type": "object"}
		}

		comp[nm] = s
	}

	start = g.Schema(1 + r.Intn(depth))

	return g, start, comp
}

// withoutObject removes objects of empty schemas: the zero value of SchemaOrBool is an empty schema, too.
func withoutObject(v reflect.Value) (n int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return 0
		}

		if s, ok := v.Interface().(*jsonschema.SchemaOrBool); ok && s.TypeObject != nil && s.TypeBoolean == nil {
			if b, err := json.Marshal(s); err == nil && string(b) == "{}" {
				s.TypeObject = nil

				return 1
			}
		}

		return withoutObject(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n += withoutObject(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.CanAddr() && e.Kind() == reflect.Struct {
				n += withoutObject(e.Addr())
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if e := v.MapIndex(k); e.Kind() == reflect.Struct {
				p := reflect.New(e.Type())
				p.Elem().Set(e)

				n += withoutObject(p)
				v.SetMapIndex(k, p.Elem())
			}
		}
	}

	return n
}

func c12Case(c *mon.Ctx) {
	r := c.R
	cov := map[string]int{}
	g, start, comp := genSchemaSet(r, jsch.Draft7, cov, 3)

	// Deprecated references, the way tagged fields make them.
	var all []interface{}
	for _, nm := range g.Names {
		all = append(all, comp[nm])
	}

	for _, s := range append(all, start) {
		jsch.Walk(s, "", func(_ string, m map[string]interface{}) {
			if _, ok := m["$ref"]; ok && g.R.Intn(6) == 0 {
				m["deprecated"] = true

				c.Count("deprecated_refs", 1)
			}
		})
	}

	countCov(c, "keyword:", cov)

	det := map[string]interface{}{"schema": start, "components": comp}

	if c.WantSample() && len(comp) > 1 {
		c.Sample(oas.Clone(det))
	}

	emptied := r.Intn(4) == 0

	load := func(t interface{}) jsonschema.SchemaOrBool {
		b, _ := json.Marshal(t)

		var s jsonschema.SchemaOrBool
		if err := json.Unmarshal(b, &s); err != nil {
			panic(fmt.Sprintf("%s: %v", b, err))
		}

		return s
	}

	empty := func(s jsonschema.SchemaOrBool) jsonschema.SchemaOrBool {
		if emptied {
			c.Count("empty_schemas_without_object", withoutObject(reflect.ValueOf(&s)))
		}

		return s
	}

	c.Guard("conversion", det, func() {
		spec := &openapi3.Spec{}
		oasComp := map[string]interface{}{}

		for nm, t := range comp {
			s := openapi3.SchemaOrRef{}
			s.FromJSONSchema(empty(load(t)))
			spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem(nm, s)
			oasComp[nm] = tree(s)
		}

		all := map[string]interface{}{"": start}
		for nm, t := range comp {
			all[nm] = t
		}

		order := []string{}
		for nm := range all {
			order = append(order, nm)
		}

		sort.Strings(order)

		for _, nm := range order {
			t := all[nm]
			src := load(t)
			before := tree(src)
			s := openapi3.SchemaOrRef{}
			s.FromJSONSchema(src)

			// Not in place: such schemas can not be encoded.
			if emptied {
				s = openapi3.SchemaOrRef{}
				s.FromJSONSchema(empty(load(t)))
			}

			if d := oas.Diff(before, tree(src)); d != "" {
				c.Violate("conversion changed its input: "+d, det)
			}

			o := tree(s)
			d2 := map[string]interface{}{"schema": t, "components": comp, "converted": o}

			annotationsKept(t, o, "", func(msg string) { c.Violate("to OpenAPI: "+msg, d2) })

			if v, vs, ok := sameVerdicts(c, g, 24, jsch.Draft7, t, inComponents(comp), jsch.OAS30, o, inComponents(oasComp)); !ok {
				d2["value"] = v
				c.Violate(fmt.Sprintf("to OpenAPI: JSON Schema says %v and OpenAPI schema says %v on %s", vs[0], vs[1], mon.JSON(v)), d2)
			}

			// It is a valid OpenAPI schema and survives encoding.
			if errs := gr30.Validate(gr30.Named["SchemaOrRef"], parsed(s)); len(errs) > 0 {
				c.Violate("converted schema is not a valid OpenAPI 3.0 schema: "+errs[0], d2)
			}

			back := s.ToJSONSchema(spec)
			root, defs := exported(back)
			d2["back"] = root

			if v, vs, ok := sameVerdicts(c, g, 24, jsch.Draft7, t, inComponents(comp), jsch.Draft7, root, inComponents(defs)); !ok {
				d2["value"] = v
				c.Violate(fmt.Sprintf("and back: source says %v and result says %v on %s", vs[0], vs[1], mon.JSON(v)), d2)
			}

			// References in the same places, annotations kept.
			if m, ok := t.(map[string]interface{}); !ok || m["$ref"] == nil {
				refsBack(t, root, "", func(msg string) { c.Violate("and back: "+msg, d2) })
			}

			if d := oas.Diff(o, tree(s)); d != "" {
				c.Violate("conversion to JSON Schema changed the OpenAPI schema: "+d, d2)
			}

			c.Count("conversions", 1)
		}
	})

	c.Eval(mon.JSON(det), len(cov) > 3)
}

// refsBack compares references and annotations of a schema with those of its round trip.
func refsBack(a, b interface{}, path string, report func(string)) {
	m, ok := a.(map[string]interface{})
	if !ok {
		return
	}

	o, ok := b.(map[string]interface{})
	if !ok {
		report(fmt.Sprintf("%s: schema became %s", path, mon.JSON(b)))

		return
	}

	if ref, ok := m["$ref"]; ok {
		if m["deprecated"] == true {
			if refs := jsch.Refs(o); !refs[ref.(string)] || len(refs) != 1 {
				report(fmt.Sprintf("%s: deprecated reference %v became %s", path, ref, mon.JSON(o)))
			}
		} else if o["$ref"] != ref {
			report(fmt.Sprintf("%s: reference %v became %s", path, ref, mon.JSON(o)))
		}

		return
	}

	for k, v := range m {
		switch {
		case k == "title" || k == "description" || k == "default" || k == "format" || k == "deprecated" || k == "readOnly" || k == "writeOnly" || k == "examples" || strings.HasPrefix(k, "x-"):
			if !reflect.DeepEqual(o[k], v) {
				report(fmt.Sprintf("%s: %s is %s instead of %s", path, k, mon.JSON(o[k]), mon.JSON(v)))
			}
		}
	}

	for _, k := range []string{"not", "items", "additionalProperties"} {
		if x, ok := m[k]; ok {
			refsBack(x, o[k], path+"/"+k, report)
		}
	}

	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if x, ok := m[k].([]interface{}); ok {
			y, _ := o[k].([]interface{})
			for i := range x {
				if i < len(y) {
					refsBack(x[i], y[i], fmt.Sprintf("%s/%s/%d", path, k, i), report)
				}
			}
		}
	}

	if x, ok := m["properties"].(map[string]interface{}); ok {
		y, _ := o["properties"].(map[string]interface{})
		for n := range x {
			refsBack(x[n], y[n], path+"/properties/"+n, report)
		}
	}
}

// withoutZeroBounds leaves out bounds that bound nothing.
func withoutZeroBounds(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		res := map[string]interface{}{}

		for k, x := range v {
			switch k {
			case "minLength", "minItems", "minProperties":
				if fmt.Sprint(x) == "0" {
					continue
				}
			}

			res[k] = withoutZeroBounds(x)
		}

		return res
	case []interface{}:
		var res []interface{}
		for _, x := range v {
			res = append(res, withoutZeroBounds(x))
		}

		return res
	}

	return v
}

// chainSet makes component graphs of a certain shape: chains, cycles, references under one keyword.
func chainSet(r *rand.Rand, d jsch.Dialect, kw string) (start interface{}, comp map[string]interface{}) {
	names := append([]string{}, compNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })

	n := 2 + r.Intn(4)
	if r.Intn(8) == 0 { // a long one
		n = 10 + r.Intn(40)

		for i := len(names); i < n; i++ {
			names = append(names, fmt.Sprintf("L%d", r.Intn(10)*100+i))
		}
	}

	comp = map[string]interface{}{}

	hold := func(to string, i int) map[string]interface{} {
		ref := map[string]interface{}{"$ref": refPrefix + to}
		s := map[string]interface{}{"type": []string{"object", "array", "string", "number"}[i%4], "title": fmt.Sprint("c", i)}

		switch kw {
		case "properties", "patternProperties", "dependentSchemas", "$defs", "definitions", "dependencies":
			k := "a"
			if kw == "patternProperties" {
				k = "^a"
			}

			s[kw] = map[string]interface{}{k: ref}
			s["type"] = "object"
		case "allOf", "anyOf", "oneOf", "prefixItems":
			s[kw] = []interface{}{ref}
			if kw == "prefixItems" {
				s["type"] = "array"
			} else {
				delete(s, "type")
			}
		case "":
			return ref
		case "tuple":
			s["items"] = []interface{}{map[string]interface{}{"type": "string"}, ref}
			s["type"] = "array"
		case "additionalItems":
			s["items"] = []interface{}{map[string]interface{}{"type": "string"}}
			s[kw] = ref
			s["type"] = "array"
		default:
			s[kw] = ref

			switch kw {
			case "items", "contains", "unevaluatedItems":
				s["type"] = "array"
			case "additionalProperties", "propertyNames", "unevaluatedProperties":
				s["type"] = "object"
			case "then", "else":
				s["if"] = map[string]interface{}{"type": "object"}
			}
		}

		if d == jsch.OAS30 && s["type"] == "array" && s["items"] == nil {
			s["items"] = map[string]interface{}{}
		}

		return s
	}

	for i := 0; i < n; i++ {
		to := names[(i+1)%n]
		if i == n-1 && r.Intn(2) == 0 {
			// The chain ends.
			comp[names[i]] = map[string]interface{}{"type": "string", "enum": []interface{}{"a", "b"}}

			continue
		}

		if kw == "" && i == n-1 {
			to = names[0] // may be a pure reference cycle
		}

		comp[names[i]] = hold(to, i)
	}

	// One component that is not reachable.
	comp["Unused"] = map[string]interface{}{"type": "boolean"}

	return hold(names[0], 0), comp
}

var (
	holders30 = []string{"properties", "items", "additionalProperties", "not", "allOf", "anyOf", "oneOf", ""}
	holders31 = []string{
		"properties", "items", "additionalProperties", "not", "allOf", "anyOf", "oneOf", "patternProperties", "dependentSchemas", "prefixItems",
		"contains", "propertyNames", "if", "then", "else", "unevaluatedProperties", "unevaluatedItems", "contentSchema", "$defs", "definitions", "dependencies", "tuple", "additionalItems", "",
	}
)

func c13Case(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	d := jsch.OAS30
	hs := holders30

	if ver == "3.1" {
		d, hs = jsch.Draft2020, holders31
	}

	var (
		g     *jsch.Gen
		start interface{}
		comp  map[string]interface{}
		cov   = map[string]int{}
	)

	g, start, comp = genSchemaSet(r, d, cov, 3)

	if r.Intn(3) == 0 {
		kw := hs[(c.Idx/2)%len(hs)]
		start, comp = chainSet(r, d, kw)
		c.Count("holder:"+ver+":"+kw, 1)
	} else if r.Intn(8) == 0 && len(comp) > 0 {
		// A dangling reference.
		delete(comp, g.Names[0])
	}

	if _, ok := start.(bool); ok {
		start = map[string]interface{}{}
	}

	countCov(c, ver+":keyword:", cov)

	det := map[string]interface{}{"version": ver, "schema": start, "components": comp}

	if c.WantSample() && len(comp) > 2 {
		c.Sample(oas.Clone(det))
	}

	doc := map[string]interface{}{
		"openapi": map[string]string{"3.0": "3.0.3", "3.1": "3.1.0"}[ver], "info": map[string]interface{}{"title": "t", "version": "v"},
		"paths": map[string]interface{}{}, "components": map[string]interface{}{"schemas": comp},
	}

	if len(comp) == 0 {
		switch r.Intn(3) {
		case 0:
			delete(doc, "components")
		case 1:
			doc["components"] = map[string]interface{}{"x-a": "b"}
		}

		c.Count("documents_without_schemas", 1)
	}

	sp := newSpec(ver)
	if err := sp.UnmarshalJSON(oas.Encode(doc, nil)); err != nil {
		c.Violate("document refused: "+err.Error(), det)

		return
	}

	docBefore, err := sp.MarshalJSON()
	if err != nil {
		c.Violate("document does not encode: "+err.Error(), det)

		return
	}

	var resolve func(ref string) (jsonschema.SchemaOrBool, bool)

	export := func(s interface{}) jsonschema.SchemaOrBool {
		switch x := sp.(type) {
		case *openapi3.Spec:
			resolve = (&openapi3.Reflector{Spec: x}).ResolveJSONSchemaRef

			sr := openapi3.SchemaOrRef{}
			if err := sr.UnmarshalJSON(oas.Encode(s, nil)); err != nil {
				panic(err)
			}

			return sr.ToJSONSchema(x)
		case *openapi31.Spec:
			resolve = (&openapi31.Reflector{Spec: x}).ResolveJSONSchemaRef

			return openapi31.ToJSONSchema(oas.Clone(s).(map[string]interface{}), x)
		}

		panic("unreachable")
	}

	c.Guard("export", det, func() {
		starts := map[string]interface{}{"inline": start}
		order := []string{"inline"}

		for n := range comp {
			starts[n] = map[string]interface{}{"$ref": refPrefix + n}
			order = append(order, n)
		}

		sort.Strings(order)

		target := jsch.Draft7
		if ver == "3.1" {
			target = jsch.Draft2020
		}

		for _, n := range order {
			s := starts[n]
			reach, dangling := jsch.Reachable(s, comp)
			js := export(s)
			root, defs := exported(js)
			d2 := map[string]interface{}{"version": ver, "schema": s, "components": comp, "exported": root, "definitions": defs}

			c.Count("exports", 1)
			c.Count("definitions", len(defs))

			if len(reach) > 1 {
				c.Count("deep_exports", 1)
			}

			// Definitions: of nothing that is not reachable, and wherever a reference points.
			for dn := range defs {
				if !reach[dn] {
					c.Violate("definition of an unreachable component "+dn, d2)
				}
			}

			need := jsch.Refs(root)
			for _, def := range defs {
				for ref := range jsch.Refs(def) {
					need[ref] = true
				}
			}

			for ref := range need {
				if dn, ok := jsch.ComponentRef(ref); ok {
					if _, ok := defs[dn]; !ok {
						c.Violate("no definition for reference "+ref, d2)
					}
				}
			}

			// Nothing but the notation changes.
			same := func(what string, src, exp interface{}) {
				if m, ok := src.(map[string]interface{}); ok && ver == "3.1" {
					if m["$ref"] != nil && len(m) > 1 { // siblings of a reference
						return
					}

					if diff := oas.Diff(withoutZeroBounds(src), withoutZeroBounds(exp)); diff != "" {
						c.Violate("exported "+what+" differs: "+diff, d2)
					}
				} else if ver == "3.0" {
					annotationsKept(exp, src, what, func(w string) { c.Violate("annotations of exported "+w, d2) })
				}

				c.Count("compared_in_full", 1)
			}

			for dn, def := range defs {
				if _, ok := comp[dn]; ok {
					same("component "+dn, comp[dn], def)
				}
			}

			if m, ok := s.(map[string]interface{}); ok {
				if rm, ok := root.(map[string]interface{}); !ok || m["$ref"] == nil || rm["$ref"] == m["$ref"] {
					same("schema", s, root)
				} else if dn, ok := jsch.ComponentRef(fmt.Sprint(m["$ref"])); ok && comp[dn] != nil {
					same("component in place of reference", comp[dn], root)
				}
			}

			if dangling {
				c.Count("dangling", 1)

				continue
			}

			if v, vs, ok := sameVerdicts(c, g, 20, d, s, inComponents(comp), target, root, inComponents(defs)); !ok {
				d2["value"] = v
				c.Violate(fmt.Sprintf("source says %v and exported schema says %v on %s", vs[0], vs[1], mon.JSON(v)), d2)

				continue
			}

			dns := []string{}
			for dn := range defs {
				dns = append(dns, dn)
			}

			sort.Strings(dns)

			for _, dn := range dns {
				if v, vs, ok := sameVerdicts(c, g, 10, d, comp[dn], inComponents(comp), target, defs[dn], inComponents(defs)); !ok {
					d2["value"] = v
					c.Violate(fmt.Sprintf("component %s says %v and its definition says %v on %s", dn, vs[0], vs[1], mon.JSON(v)), d2)

					break
				}
			}
		}

		// Resolving references of components.
		for n := range comp {
			js, found := resolve(refPrefix + n)
			if !found {
				c.Violate("ResolveJSONSchemaRef does not find "+n, det)

				continue
			}

			root, defs := exported(js)
			if ver == "3.1" {
				defs = comp
			}

			if _, dangling := jsch.Reachable(comp[n], comp); dangling {
				continue
			}

			if v, vs, ok := sameVerdicts(c, g, 10, d, comp[n], inComponents(comp), target, root, inComponents(defs)); !ok {
				c.Violate(fmt.Sprintf("component %s says %v and resolved schema says %v on %s", n, vs[0], vs[1], mon.JSON(v)), det)
			}

			c.Count("resolved", 1)
		}

		refs := []string{"#/components/schemas/NoSuch", "#/components/responses/A", "A", ""}
		for n := range comp {
			refs = append(refs, n, "#/definitions/"+n, "#/components/responses/"+n, "other.json"+refPrefix+n, refPrefix, refPrefix+n+"/items", refPrefix+n+"/", refPrefix+"/"+n, refPrefix+refPrefix+n)
		}

		for _, ref := range refs {
			if _, found := resolve(ref); found {
				c.Violate("ResolveJSONSchemaRef finds "+ref, det)
			}
		}
	})

	docAfter, err := sp.MarshalJSON()
	if err != nil || string(docBefore) != string(docAfter) {
		c.Violate("exporting modified the document", det)
	}

	c.Eval(mon.JSON(det), len(comp) > 1)
}

// c12Fixed converts const in all its relations to enum, and reproduces listed findings.
func c12Fixed(c *mon.Ctx) {
	values := []interface{}{nil, "a", "b", 1.0, 0.0, true, false, []interface{}{}, []interface{}{"a"}, map[string]interface{}{}, map[string]interface{}{"a": nil}}

	for i, v := range values {
		for j, enum := range [][]interface{}{nil, {v}, {"b", v}, {"other"}} {
			src := map[string]interface{}{"const": v}
			if enum != nil {
				src["enum"] = enum
			}

			if (i+j)%2 == 0 {
				src["allOf"] = []interface{}{map[string]interface{}{"title": "x"}}
			}

			var js jsonschema.SchemaOrBool
			if err := json.Unmarshal([]byte(mon.JSON(src)), &js); err != nil {
				panic(err)
			}

			var s openapi3.SchemaOrRef

			s.FromJSONSchema(js)

			o := tree(s)
			back, _ := exported(s.ToJSONSchema(nil))

			for _, x := range values {
				want := (&jsch.Env{Dialect: jsch.Draft7}).Valid(src, x)

				if got := (&jsch.Env{Dialect: jsch.OAS30}).Valid(o, x); got != want {
					c.Violate(fmt.Sprintf("to OpenAPI: const schema says %v and OpenAPI schema says %v on %s", want, got, mon.JSON(x)), []interface{}{src, o})
				}

				if got := (&jsch.Env{Dialect: jsch.Draft7}).Valid(back, x); got != want {
					c.Violate(fmt.Sprintf("and back: const schema says %v and result says %v on %s", want, got, mon.JSON(x)), []interface{}{src, o, back})
				}

				c.Count("const_verdicts", 1)
			}
		}
	}

	var js jsonschema.SchemaOrBool
	if err := json.Unmarshal([]byte(`{"type":["string","integer"]}`), &js); err != nil {
		panic(err)
	}

	var s openapi3.SchemaOrRef

	s.FromJSONSchema(js)

	e := &jsch.Env{Dialect: jsch.OAS30}
	c.Known("several-types", !e.Valid(tree(s), "text") || !e.Valid(tree(s), 1.0), "a JSON Schema with types string and integer becomes an OpenAPI schema that refuses one of them", tree(s))
}

// exportedAlone checks an export without any component: it keeps saying what the source says.
func exportedAlone(c *mon.Ctx, what string, src map[string]interface{}, js jsonschema.SchemaOrBool) {
	root, _ := exported(js)
	m, _ := root.(map[string]interface{})

	c.Count("exported_without_components", 1)

	if src["$ref"] != nil {
		return // to be encoded is enough
	}

	if diff := oas.Diff(oas.Clone(src), withoutComponents(m)); diff != "" {
		c.Violate(what+": exported schema differs: "+diff, map[string]interface{}{"schema": src, "exported": root})
	}
}

func withoutComponents(m map[string]interface{}) interface{} {
	res := map[string]interface{}{}

	for k, v := range m {
		if k != "components" {
			res[k] = v
		}
	}

	return res
}

// c13Fixed reproduces listed findings and resolves references in documents without components.
func c13Fixed(c *mon.Ctx) {
	for what, f := range map[string]func(string) (jsonschema.SchemaOrBool, bool){
		"3.0 without document":   (&openapi3.Reflector{}).ResolveJSONSchemaRef,
		"3.0 without components": (&openapi3.Reflector{Spec: &openapi3.Spec{}}).ResolveJSONSchemaRef,
		"3.0 without schemas":    (&openapi3.Reflector{Spec: (&openapi3.Spec{}).WithComponents(openapi3.Components{})}).ResolveJSONSchemaRef,
		"3.1 without document":   (&openapi31.Reflector{}).ResolveJSONSchemaRef,
		"3.1 without components": (&openapi31.Reflector{Spec: &openapi31.Spec{}}).ResolveJSONSchemaRef,
		"3.1 without schemas":    (&openapi31.Reflector{Spec: (&openapi31.Spec{}).WithComponents(openapi31.Components{})}).ResolveJSONSchemaRef,
	} {
		what, f := what, f
		c.Guard("ResolveJSONSchemaRef "+what, nil, func() {
			for _, ref := range []string{refPrefix + "A", "A", ""} {
				if _, found := f(ref); found {
					c.Violate("ResolveJSONSchemaRef "+what+" finds "+ref, nil)
				}
			}
		})
	}

	// Exporting schemas with references to nowhere in documents without components.
	dangling := map[string]interface{}{
		"$ref": refPrefix + "A",
	}
	nested := map[string]interface{}{
		"type": "object", "properties": map[string]interface{}{"a": oas.Clone(dangling), "b": map[string]interface{}{"type": "string", "maxLength": 3.0}},
	}

	for _, src := range []map[string]interface{}{dangling, nested, {"type": "integer", "minimum": 2.0}} {
		b := oas.Encode(src, nil)

		for what, sp := range map[string]*openapi3.Spec{
			"no document": nil, "no components": {}, "no schemas": (&openapi3.Spec{}).WithComponents(openapi3.Components{}),
			"empty schemas": (&openapi3.Spec{}).WithComponents(openapi3.Components{Schemas: &openapi3.ComponentsSchemas{}}),
		} {
			sp := sp
			c.Guard("3.0 export with "+what, src, func() {
				before := mon.JSON(sp)

				var sr openapi3.SchemaOrRef
				if err := sr.UnmarshalJSON(b); err != nil {
					panic(err)
				}

				exportedAlone(c, "3.0 "+what, src, sr.ToJSONSchema(sp))

				if after := mon.JSON(sp); after != before {
					c.Violate("3.0 export with "+what+" modified the document", []string{before, after})
				}
			})
		}

		for what, sp := range map[string]*openapi31.Spec{
			"no document": nil, "no components": {}, "no schemas": (&openapi31.Spec{}).WithComponents(openapi31.Components{}),
			"empty schemas": (&openapi31.Spec{}).WithComponents(openapi31.Components{Schemas: map[string]map[string]interface{}{}}),
		} {
			sp, src := sp, src
			c.Guard("3.1 export with "+what, src, func() {
				before := mon.JSON(sp)
				exportedAlone(c, "3.1 "+what, src, openapi31.ToJSONSchema(oas.Clone(src).(map[string]interface{}), sp))

				if after := mon.JSON(sp); after != before {
					c.Violate("3.1 export with "+what+" modified the document", []string{before, after})
				}
			})
		}
	}

	// OpenAPI 3.0: nullable without type has no effect, and in older reading allows null additionally.
	spec := &openapi3.Spec{}
	str := openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithType(openapi3.SchemaTypeString)}
	spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem("A", str)

	ref := openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: refPrefix + "A"}}
	s := openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithNullable(true).WithAllOf(ref)}
	root, defs := exported(s.ToJSONSchema(spec))
	e := &jsch.Env{Dialect: jsch.Draft7, Resolve: inComponents(defs)}

	c.Known("nullable-without-type", !e.Valid(root, "text"), "a 3.0 schema {nullable: true, allOf: [$ref to a string]} is exported as a schema that refuses strings", root)
}

func init() {
	need := map[string]int{"conversions": 3000, "accepted_values": 10000, "rejected_values": 10000, "deprecated_refs": 50}
	for _, k := range []string{
		"enum", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "pattern", "items", "minItems", "maxItems",
		"uniqueItems", "properties", "required", "additionalProperties schema", "additionalProperties boolean", "minProperties", "maxProperties", "allOf", "anyOf",
		"oneOf", "not", "nullable type", "boolean schema", "title", "description", "default", "format", "examples", "deprecated", "readOnly", "writeOnly",
	} {
		need["keyword:"+k] = 50
	}

	register(&mon.Check{
		ID: "C12", Level: "exploration", Quick: 9000, Thorough: 120000,
		Rule: "random sets of JSON Schemas made of the keywords OpenAPI 3.0 has (boolean schemas, nullable types, exclusive bounds, combinators, references incl. deprecated ones, annotations, x- members) are converted to OpenAPI and back; a schema evaluator written from the specifications gives the verdicts of source, conversion and round trip on values made for them; annotations and references are compared place by place; non-trivial with more than 3 keywords",
		Need: need, Case: c12Case, Fixed: c12Fixed,
	})

	need = map[string]int{"exports": 5000, "deep_exports": 1000, "definitions": 3000, "accepted_values": 10000, "rejected_values": 10000, "dangling": 50, "resolved": 2000, "compared_in_full": 5000}
	for _, h := range holders30 {
		need["holder:3.0:"+h] = 10
	}

	for _, h := range holders31 {
		need["holder:3.1:"+h] = 10
	}

	register(&mon.Check{
		ID: "C13", Level: "exploration", Quick: 9000, Thorough: 120000,
		Rule: "random component graphs (chains, cycles, self references, references under every schema keyword, dangling references) of 3.0 and 3.1 documents are exported from every component and from inline schemas; monitors compare definitions with reachability computed independently all members of 3.1 schemas, annotations of 3.0 schemas, and verdicts of a schema evaluator on values made for either side, and the encoded document before and after; non-trivial with 2 or more components",
		Need: need, Case: c13Case, Fixed: c13Fixed,
	})
}
