package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"

	"verif/harness/corpus/special"
	"verif/harness/mon"
	"verif/harness/oas"
)

// faults makes interceptors of a reflector fail: every call with the key that is armed returns an error.
type faults struct {
	armed string
	err   error
	fired int
	seen  map[string]bool
}

func (f *faults) visit(key string) error {
	if f.seen != nil {
		f.seen[key] = true
	}

	if key == f.armed {
		f.fired++

		return f.err
	}

	return nil
}

func (f *faults) install(r *jsonschema.Reflector) {
	r.DefaultOptions = append(r.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			return false, f.visit(fmt.Sprintf("schema %v processed=%v tag=%s depth=%d", p.Value.Type(), p.Processed, p.Context.PropertyNameTag, len(p.Context.Path)))
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			return f.visit(fmt.Sprintf("property %s processed=%v tag=%s depth=%d", p.Field.Name, p.Processed, p.Context.PropertyNameTag, len(p.Path)))
		}),
		jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {}),
	)
}

// failingInterceptor lets interceptors fail at any place of an operation.
func failingInterceptor(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	s := setups[0]

	if r.Intn(3) == 0 {
		s = setups[r.Intn(len(setups))]
	}

	g := newOpGen(r)
	g.reject = newModel(ver, s).roleClash

	var history []opDef

	for i := r.Intn(3); i > 0; i-- {
		history = append(history, g.op())
	}

	o := g.op()
	if ver == "3.1" && r.Intn(6) == 0 {
		o.webhook = true
	}

	prepare := func(f *faults) *target {
		t := newTarget(ver, s)
		f.install(t.refl.JSONSchemaReflector())

		for _, h := range history {
			_, _ = t.add(h)
		}

		return t
	}

	// What is visited without faults.
	clean := &faults{}
	t0 := prepare(clean)
	clean.seen = map[string]bool{}

	if _, err := t0.add(o); err != nil {
		return
	}

	want, err := t0.tree()
	if err != nil {
		return
	}

	visited := keysOfBool(clean.seen)
	if len(visited) == 0 {
		return
	}

	for n := 0; n < 4; n++ {
		f := &faults{}
		t := prepare(f)
		before := pathsOf(t)
		key := visited[r.Intn(len(visited))]
		f.armed, f.err = key, fmt.Errorf("fault %d: %w", n, errFault)
		det := map[string]interface{}{"version": ver, "setup": s.name, "operation": describeOp(o), "fault": key}

		var addErr error

		if !c.Guard(ver+": adding an operation with a failing interceptor", det, func() { _, addErr = t.add(o) }) {
			return
		}

		if f.fired == 0 {
			c.Count("faults_not_reached", 1)

			continue
		}

		c.Count("failing_"+strings.Fields(key)[0]+"_interceptors", 1)
		c.Count("faults_fired", f.fired)
		c.Eval(ver+" "+key, true)

		if addErr == nil {
			c.Violate(ver+": an interceptor returned an error, adding the operation did not", det)

			return
		}

		if !strings.Contains(addErr.Error(), f.err.Error()) {
			c.Violate(ver+": error of an interceptor is lost, adding the operation returned "+trim(addErr.Error(), 200), det)

			return
		}

		if after := pathsOf(t); after != before {
			c.Violate(ver+": operation whose adding failed is in the document", det)

			return
		}

		// The same operation can be added once nothing fails.
		f.armed = ""

		if _, err := t.add(o); err != nil {
			c.Violate(ver+": adding an operation again after it failed: "+err.Error(), det)

			return
		}

		got, err := t.tree()
		withoutNull(got)
		withoutNull(want)

		// Names with numbers depend on what was named before.
		if err != nil || !reflect.DeepEqual(got, want) && (s.name != "same-names" && !numbered(want) && !numbered(got) || !sameUpToNames(want, got)) {
			c.Violate(ver+": adding an operation after it failed before gives another document than adding it once: "+diffText(want, got), det)

			return
		}

		c.Count("repeated_operations", 1)

		// Walking reports it, too.
		walkFaults(c, ver, s, o, key, n)
	}

	if c.WantSample() {
		c.Sample(map[string]interface{}{"version": ver, "operation": describeOp(o), "visited": visited})
	}
}

var errFault = errors.New("interceptor fails")

func walkFaults(c *mon.Ctx, ver string, s setup, o opDef, key string, n int) {
	f := &faults{}
	t := newTarget(ver, s)
	f.install(t.refl.JSONSchemaReflector())
	f.armed, f.err = key, fmt.Errorf("walk fault %d: %w", n, errFault)

	cb := func(openapi.In, string, *jsonschema.SchemaOrBool, bool) error { return nil }

	walk := func(what string, u unit, w func() error) {
		f.fired = 0
		det := map[string]interface{}{"version": ver, "setup": s.name, "method": o.method, "unit": describeUnit(u), "fault": key}

		var err error

		if !c.Guard(ver+": walking with a failing interceptor", det, func() { err = w() }) || f.fired == 0 {
			return
		}

		c.Count("failing_walks", 1)

		if err == nil || !strings.Contains(err.Error(), f.err.Error()) {
			c.Violate(fmt.Sprintf("%s: an interceptor returned an error, walking a %s returned %v", ver, what, err), det)
		}
	}

	for _, u := range o.reqs {
		u := u
		walk("request", u, func() error { return t.refl.WalkRequestJSONSchemas(o.method, u.content(), cb, nil) })
	}

	for _, u := range o.resps {
		u := u
		walk("response", u, func() error { return t.refl.WalkResponseJSONSchemas(u.content(), cb, nil) })
	}
}

func keysOfBool(m map[string]bool) (res []string) {
	for k := range m {
		res = append(res, k)
	}

	sort.Strings(res)

	return res
}

// pathsOf tells operations and webhooks of a document.
func pathsOf(t *target) string {
	d, err := t.tree()

	paths, _ := d["paths"].(map[string]interface{})
	webhooks, _ := d["webhooks"].(map[string]interface{})

	// An empty object is as good as no member.
	return fmt.Sprint(len(paths), len(webhooks)) + emptyOr(paths) + emptyOr(webhooks) + fmt.Sprint(err)
}

// withoutNull removes null from schemas: jsonschema-go shares types of schemas, what was seen through a pointer first has null.
func withoutNull(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		if _, ok := x["nullable"].(bool); ok {
			delete(x, "nullable")
		}

		if ts, ok := x["type"].([]interface{}); ok {
			rest := []interface{}{}

			for _, t := range ts {
				if t != "null" {
					rest = append(rest, t)
				}
			}

			x["type"] = rest
			if len(rest) == 1 {
				x["type"] = rest[0]
			}
		}

		for _, e := range x {
			withoutNull(e)
		}
	case []interface{}:
		for _, e := range x {
			withoutNull(e)
		}
	}
}

// sameUpToNames compares all members but components of two documents, references are followed to definitions of possibly other names.
func sameUpToNames(a, b map[string]interface{}) bool {
	names := map[string]string{}
	back := map[string]string{}

	var same func(x, y interface{}) bool

	same = func(x, y interface{}) bool {
		switch x := x.(type) {
		case map[string]interface{}:
			y, ok := y.(map[string]interface{})
			if !ok || len(x) != len(y) {
				return false
			}

			for k, v := range x {
				w, ok := y[k]
				if !ok {
					return false
				}

				r1, ok1 := v.(string)
				r2, ok2 := w.(string)

				if prefix := "#/components/schemas/"; k == "$ref" && ok1 && ok2 && strings.HasPrefix(r1, prefix) && strings.HasPrefix(r2, prefix) {
					n, seen := names[r1]
					m, seenBack := back[r2]

					if seen != seenBack || seen && (n != r2 || m != r1) {
						return false
					}

					if !seen {
						names[r1], back[r2] = r2, r1

						d1 := oas.At(a, "components", "schemas", strings.TrimPrefix(r1, prefix))
						d2 := oas.At(b, "components", "schemas", strings.TrimPrefix(r2, prefix))

						if d1 == nil || d2 == nil || !same(d1, d2) {
							return false
						}
					}

					continue
				}

				if !same(v, w) {
					return false
				}
			}

			return true
		case []interface{}:
			y, ok := y.([]interface{})
			if !ok || len(x) != len(y) {
				return false
			}

			for i := range x {
				if !same(x[i], y[i]) {
					return false
				}
			}

			return true
		}

		return reflect.DeepEqual(x, y)
	}

	without := func(d map[string]interface{}) map[string]interface{} {
		res := map[string]interface{}{}

		for k, v := range d {
			if k != "components" {
				res[k] = v
			}
		}

		return res
	}

	return same(without(a), without(b))
}

func emptyOr(m map[string]interface{}) string {
	if len(m) == 0 {
		return "{}"
	}

	return mon.JSON(m)
}

func diffText(a, b interface{}) string {
	x, y := mon.JSON(a), mon.JSON(b)
	i := 0

	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}

	if i > 120 {
		i -= 120
	} else {
		i = 0
	}

	return trim(x[i:], 400) + " / " + trim(y[i:], 400)
}

// places of a field in an operation.
var places = []struct {
	name, tag string
	resp      bool
}{
	{"query", "query", false},
	{"path", "path", false},
	{"header", "header", false},
	{"cookie", "cookie", false},
	{"form as query", "form", false},
	{"JSON body", "json", false},
	{"form body", "formData", false},
	{"response header", "header", true},
	{"response body", "json", true},
}

// badTags have values that can not be read.
var badTags = []struct {
	name  string
	typ   interface{}
	value string
	param bool // of parameters and headers only
	only3 bool // not known in headers of 3.1
}{
	{"required", "", "maybe", false, false},
	{"deprecated", 0, "maybe", false, false},
	{"nullable", "", "maybe", false, false},
	{"readOnly", "", "7", false, false},
	{"writeOnly", 0, "maybe", false, false},
	{"uniqueItems", []int{}, "maybe", false, false},
	{"minimum", 0, "low", false, false},
	{"maximum", 1.5, "high", false, false},
	{"exclusiveMinimum", 0, "true", false, false},
	{"exclusiveMaximum", 0, "1x", false, false},
	{"multipleOf", 0, "two", false, false},
	{"minLength", "", "-x", false, false},
	{"maxLength", "", "1.5", false, false},
	{"minItems", []string{}, "few", false, false},
	{"maxItems", []string{}, "many", false, false},
	{"minProperties", map[string]int{}, "few", false, false},
	{"default", 0, "zero", false, false},
	{"example", 0, "zero", false, false},
	{"examples", "", "[\\\"a\\\"", false, false},
	{"const", 0, "zero", false, false},
	{"explode", "", "maybe", true, false},
	{"explode", []int{}, "maybe", true, false},
	{"allowEmptyValue", "", "maybe", true, true},
	{"allowReserved", "", "maybe", true, true},
}

// numbered tells if there are types in the document that have numbers to tell them apart.
func numbered(doc map[string]interface{}) bool {
	for name := range asMap(asMap(doc["components"])["schemas"]) {
		if suffixRe.MatchString(name) {
			return true
		}
	}

	return false
}

// failingField puts a field that can not be described into a structure of an operation that is fine otherwise.
func failingField(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	pl := places[r.Intn(len(places))]
	g := newOpGen(r)

	var (
		f    reflect.StructField
		what string
		text string
	)

	lazy := false // Refused when added or when encoded.

	if r.Intn(5) == 0 {
		tag := []string{"default", "example", "minimum", "maximum", "const"}[r.Intn(5)]
		lazy = true
		f = reflect.StructField{Name: "Bad", Type: reflect.TypeOf(0.0), Tag: reflect.StructTag(fmt.Sprintf(`%s:"bad" %s:"%s"`, pl.tag, tag, []string{"NaN", "Inf", "-inf", "+Infinity"}[r.Intn(4)]))}
		what = "not a number as " + tag

		if r.Intn(3) == 0 {
			v := special.NotANumber{}
			f.Type = reflect.TypeOf(v)
			f.Tag = reflect.StructTag(pl.tag + `:"bad"`)
			what = "not a number in a named type"
		}
	} else if r.Intn(2) == 0 {
		b := badTags[r.Intn(len(badTags))]
		if b.only3 && ver == "3.1" && pl.resp || b.param && pl.tag != "query" && pl.tag != "path" && pl.tag != "header" && pl.tag != "cookie" {
			return
		}

		f = reflect.StructField{Name: "Bad", Type: reflect.TypeOf(b.typ), Tag: reflect.StructTag(fmt.Sprintf(`%s:"bad" %s:"%s"`, pl.tag, b.name, b.value))}
		what = "malformed tag " + b.name
	} else {
		v := special.Failing[r.Intn(len(special.Failing))]
		t := reflect.TypeOf(v)
		what = fmt.Sprintf("failing type %v", t)
		text = special.ErrDescribe.Error()

		if t == reflect.TypeOf(special.FailRaw{}) {
			text = "JSON" // Of the decoder.
		}

		f = reflect.StructField{Name: "Bad", Type: t, Tag: reflect.StructTag(pl.tag + `:"bad"`)}

		switch r.Intn(4) {
		case 0:
			f.Type = reflect.PtrTo(t)
		case 1:
			if pl.tag == "json" {
				f.Type = reflect.SliceOf(t)
			}
		case 2:
			if pl.tag == "json" {
				f.Type = reflect.MapOf(reflect.TypeOf(""), t)
			}
		}
	}

	// Nested in bodies.
	depth := 0

	if pl.tag == "json" {
		for depth = r.Intn(3); depth > 0; depth-- {
			t := reflect.StructOf([]reflect.StructField{{Name: "Fine", Type: reflect.TypeOf(0), Tag: `json:"fine"`}, f})
			if r.Intn(2) == 0 {
				t = reflect.SliceOf(t)
			}

			f = reflect.StructField{Name: "Outer", Type: t, Tag: `json:"outer"`}
			what += " nested"
		}
	}

	fields := []reflect.StructField{f}
	for i, n := 0, r.Intn(3); i < n; i++ {
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("Fine%d", i), Type: reflect.TypeOf([]interface{}{0, "", []string{}}[r.Intn(3)]), Tag: reflect.StructTag(fmt.Sprintf(`%s:"fine%d"`, []string{"query", "header", pl.tag}[r.Intn(3)], i))})
	}

	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })

	st := reflect.StructOf(fields)
	bad := unit{structure: g.value(st)}
	o := g.op()

	// Without parameters of the path.
	for len(g.pathNames(o.reqs)) > 0 || strings.Contains(o.path, "{") {
		o = g.op()
	}

	if pl.tag == "path" {
		o.path += "/{bad}"
		o.pattern += "/{bad:[a-z]+}"
		for _, f := range fields {
			if f.Name != "Bad" && strings.HasPrefix(string(f.Tag), "path") {
				o.path += "/{" + f.Tag.Get("path") + "}"
				o.pattern += "/{" + f.Tag.Get("path") + "}"
			}
		}
	}

	if o.method = "post"; pl.tag == "header" || pl.tag == "query" {
		o.method = []string{"get", "post", "DELETE", "head"}[r.Intn(4)]
	}

	if lazy {
		o.reqs, o.resps = nil, nil // Other units may replace it.
	}

	insert := func(us []unit) []unit {
		i := r.Intn(len(us) + 1)

		return append(append(append([]unit{}, us[:i]...), bad), us[i:]...)
	}

	if pl.resp {
		bad.status = statuses[r.Intn(len(statuses))]
		o.resps = insert(o.resps)
	} else {
		o.reqs = insert(o.reqs)
	}

	t := newTarget(ver, setups[0])
	before := pathsOf(t)
	det := map[string]interface{}{"version": ver, "what": what, "place": pl.name, "structure": st.String(), "operation": describeOp(o)}

	var err error

	if !c.Guard(ver+": adding an operation with "+what, det, func() { _, err = t.add(o) }) {
		return
	}

	c.Count("place:"+pl.name, 1)
	c.Count(strings.TrimSpace(strings.ReplaceAll(what, " nested", "")), 1)
	c.Eval(ver+" "+what+" "+pl.name, true)

	if err == nil && lazy {
		c.Guard(ver+": encoding an operation with "+what, det, func() {
			if b, err := t.doc().MarshalJSON(); err == nil {
				c.Violate(fmt.Sprintf("%s: %s in %s is accepted and encoded", ver, what, pl.name), map[string]interface{}{"case": det, "encoded": string(b)})
			}
		})

		c.Count("refused_when_encoded", 1)

		return
	}

	if err == nil {
		c.Violate(fmt.Sprintf("%s: %s in %s is accepted", ver, what, pl.name), det)

		return
	}

	// Another unit may be refused first.
	if text != "" && len(o.reqs)+len(o.resps) == 1 && !strings.Contains(err.Error(), text) {
		c.Violate(fmt.Sprintf("%s: %s in %s: error does not tell what failed: %v", ver, what, pl.name, err), det)
	}

	if after := pathsOf(t); after != before {
		c.Violate(ver+": operation whose adding failed is in the document", det)
	}
}

// foreignContext gives operation contexts to reflectors that did not make them.
func foreignContext(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	g := newOpGen(r)
	t := newTarget(ver, setups[0])

	for i := r.Intn(3); i > 0; i-- {
		_, _ = t.add(g.op())
	}

	o := g.op()
	if len(o.reqs) == 0 && len(o.resps) == 0 {
		return
	}

	other := newTarget(map[string]string{"3.0": "3.1", "3.1": "3.0"}[ver], setups[0])

	oc, err := other.context(o)
	if err != nil {
		return
	}

	what := "of the other version"

	if r.Intn(2) == 0 {
		what, oc = "of another type", wrapped{oc}
		if r.Intn(2) == 0 {
			what = "wrapped"

			if oc, err = t.context(o); err != nil {
				return
			}

			oc = wrapped{oc}
		}
	}

	before, err := t.tree()
	if err != nil {
		return
	}

	det := map[string]interface{}{"version": ver, "context": what, "operation": describeOp(o)}

	for _, webhook := range []bool{false, true} {
		if webhook && ver == "3.0" {
			continue
		}

		var err error

		c.Guard(ver+": adding an operation context "+what, det, func() {
			if webhook {
				err = t.r31.AddWebhook(oc)
			} else {
				err = t.refl.AddOperation(oc)
			}
		})

		c.Count("foreign_contexts", 1)
		c.Eval(ver+" context "+what, true)

		if err == nil {
			c.Violate(fmt.Sprintf("%s: an operation context %s is accepted (webhook: %v)", ver, what, webhook), det)

			return
		}

		after, err := t.tree()
		if err != nil || !reflect.DeepEqual(before, after) {
			c.Violate(ver+": refused operation context changes the document: "+diffText(before, after), det)

			return
		}
	}
}

// wrapped is an operation context of another type.
type wrapped struct{ openapi.OperationContext }

// unencodable can not be encoded.
type unencodable struct{}

// MarshalJSON fails.
func (unencodable) MarshalJSON() ([]byte, error) { return nil, errors.New("value fails to encode") }

// anySlots finds places of a document that hold values of any type.
func anySlots(v reflect.Value, path string, add func(path string, set func(x interface{}))) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			if v.Elem().Kind() == reflect.Interface {
				e := v.Elem()
				add(path, func(x interface{}) { e.Set(reflect.ValueOf(x)) })

				return
			}

			anySlots(v.Elem(), path, add)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" {
				anySlots(v.Field(i), path+"."+f.Name, add)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Interface {
				add(path+"[]", func(x interface{}) { e.Set(reflect.ValueOf(x)) })
				anySlots(e.Elem(), path+"[]", add)
			} else {
				anySlots(e, path+"[]", add)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			k := k
			e := v.MapIndex(k)

			if e.Kind() == reflect.Interface {
				add(path+"{}", func(x interface{}) { v.SetMapIndex(k, reflect.ValueOf(x)) })
				anySlots(e.Elem(), path+"{}", add)

				continue
			}

			// Entries of maps can not be changed in place.
			cp := reflect.New(e.Type()).Elem()
			cp.Set(e)
			anySlots(cp, path+"{}", func(path string, set func(x interface{})) {
				add(path, func(x interface{}) {
					set(x)
					v.SetMapIndex(k, cp)
				})
			})
		}
	}
}

// failingValue puts a value that can not be encoded into a document.
func failingValue(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]
	js := oas.Encode(genDoc(r, ver, c.Idx, map[string]int{}, true), nil)
	d := newSpec(ver)

	if d.UnmarshalJSON(js) != nil {
		return
	}

	type slot struct {
		path string
		set  func(x interface{})
	}

	var slots []slot

	anySlots(reflect.ValueOf(d), "", func(path string, set func(x interface{})) { slots = append(slots, slot{path, set}) })

	if len(slots) == 0 {
		return
	}

	s := slots[r.Intn(len(slots))]
	x := []interface{}{unencodable{}, make(chan int), math.NaN(), func() {}, []interface{}{unencodable{}}, map[string]interface{}{"a": math.Inf(1)}}[r.Intn(6)]
	det := map[string]interface{}{"version": ver, "value": fmt.Sprintf("%T", x), "at": s.path, "document": trim(string(js), 3000)}

	s.set(x)
	c.Count("values_that_fail_to_encode", 1)
	c.Eval(ver+" "+s.path, true)

	c.Guard(ver+": encoding a document with a value that can not be encoded", det, func() {
		b, err := d.MarshalJSON()
		if err == nil {
			c.Violate(ver+": a document with a value that can not be encoded is encoded to JSON (at "+s.path+")", map[string]interface{}{"case": det, "encoded": trim(string(b), 3000)})
		}

		b, err = d.MarshalYAML()
		if err == nil {
			c.Violate(ver+": a document with a value that can not be encoded is encoded to YAML (at "+s.path+")", map[string]interface{}{"case": det, "encoded": trim(string(b), 3000)})
		}

		if _, err := json.Marshal(d); err == nil {
			c.Violate(ver+": json.Marshal encodes a document with a value that can not be encoded (at "+s.path+")", det)
		}
	})
}

func init() {
	register(&mon.Check{
		ID:    "C24",
		Rule:  "faults are injected: interceptors that fail for one of the types, fields and locations that are visited when a random operation (after random others) is added or walked; types that fail to expose or prepare their schema, and tags with malformed values, at every location, nested and behind pointers, slices and maps, among fine units; values that can not be encoded at random places of random documents; a monitor counts the faults that fired, any fired fault has to come back as error, with its text, leave no operation, and the same call without fault has to give the document that it gives without history of failure",
		Level: "exploration",
		Quick: 8000, Thorough: 80000,
		Case: func(c *mon.Ctx) {
			switch c.R.Intn(9) {
			case 8:
				foreignContext(c)
			case 0, 1, 2, 3:
				failingInterceptor(c)
			case 4, 5:
				failingField(c)
			default:
				failingValue(c)
			}
		},
		Need: map[string]int{"foreign_contexts": 100,
			"failing_schema_interceptors": 100, "failing_property_interceptors": 100, "failing_walks": 100, "repeated_operations": 100, "values_that_fail_to_encode": 100,
			"place:query": 10, "place:path": 10, "place:header": 10, "place:cookie": 10, "place:JSON body": 10, "place:form body": 10, "place:response header": 10, "place:response body": 10,
			"malformed tag required": 3, "malformed tag minimum": 3, "malformed tag default": 3, "failing type special.FailExposer": 10, "failing type special.FailPreparer": 10, "failing type special.FailRaw": 10,
		},
	})
}
