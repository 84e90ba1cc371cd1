package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"mime/multipart"
	"net/http"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"github.com/swaggest/refl"

	adto "verif/harness/corpus/a/dto"
	"verif/harness/corpus/api"
	bdto "verif/harness/corpus/b/dto"
	"verif/harness/corpus/desc"
	"verif/harness/corpus/special"
	"verif/harness/mon"
)

var setups = []setup{
	{name: "default"},
	{name: "strip-prefix", opts: []func(*jsonschema.ReflectContext){jsonschema.StripDefinitionNamePrefix("Special", "Dto", "Api")}},
	{name: "without-tags", opts: []func(*jsonschema.ReflectContext){jsonschema.ProcessWithoutTags}},
	{name: "type-mapping", maps: [][2]interface{}{{special.Note{}, special.Cat{}}, {special.Plain(""), special.Color("")}, {special.Token{}, ""}}},
	{name: "inline", inline: []interface{}{special.Note{}, special.Base{}, special.Closed{}}},
	{name: "odd-names", opts: []func(*jsonschema.ReflectContext){jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return "x/" + n + "<é ~>"
	})}},
	{name: "same-names", opts: []func(*jsonschema.ReflectContext){jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return "Same" + strings.Repeat("+", len(n)%3)
	})}},
	{name: "root-nullable", opts: []func(*jsonschema.ReflectContext){jsonschema.RootNullable}},
	{name: "intercepted", opts: []func(*jsonschema.ReflectContext){
		jsonschema.InterceptType(func(v reflect.Value, s *jsonschema.Schema) (bool, error) {
			k := refl.DeepIndirect(v.Type()).Kind()
			if k == reflect.Struct || k == reflect.Uint16 {
				s.WithExtraPropertiesItem("x-kind", k.String())
			}

			return k == reflect.Uint32, nil // nothing more is said about these
		}),
		jsonschema.InterceptProperty(func(name string, f reflect.StructField, s *jsonschema.Schema) error {
			if len(name)%3 == 0 {
				s.WithExtraPropertiesItem("x-field", f.Name)
			}

			return nil
		}),
		jsonschema.InterceptNullability(func(params jsonschema.InterceptNullabilityParams) {
			if params.Type.Kind() == reflect.Ptr && params.Type.Elem().Kind() == reflect.Int {
				params.Schema.RemoveType(jsonschema.Null)
			}
		}),
	}},
	{name: "zero-reflector", start: "zero"},
	{name: "bare-document", start: "bare"},
	{name: "loaded-document", start: "loaded"},
	{name: "second-document", start: "second"},
	{name: "enveloped-null", opts: []func(*jsonschema.ReflectContext){func(rc *jsonschema.ReflectContext) { rc.EnvelopNullability = true }}},
}

// target is a reflector of either version.
type target struct {
	ver  string
	r3   *openapi3.Reflector
	r31  *openapi31.Reflector
	refl openapi.Reflector

	opts []func(*jsonschema.ReflectContext) // options of the caller
	ptrs []uintptr
}

func newTarget(ver string, s setup) *target {
	t := &target{ver: ver}

	if ver == "3.0" {
		t.r3 = openapi3.NewReflector()

		switch s.start {
		case "zero":
			t.r3 = &openapi3.Reflector{}
		case "bare":
			t.r3 = &openapi3.Reflector{Spec: &openapi3.Spec{Openapi: "3.0.3"}}
		case "loaded":
			if err := t.r3.Spec.UnmarshalJSON([]byte(loadedDoc("3.0.3"))); err != nil {
				panic(err)
			}
		}

		t.refl = t.r3
	} else {
		t.r31 = openapi31.NewReflector()

		switch s.start {
		case "zero":
			t.r31 = &openapi31.Reflector{}
		case "bare":
			t.r31 = &openapi31.Reflector{Spec: &openapi31.Spec{Openapi: "3.1.0"}}
		case "loaded":
			if err := t.r31.Spec.UnmarshalJSON([]byte(loadedDoc("3.1.0"))); err != nil {
				panic(err)
			}
		}

		t.refl = t.r31
	}

	s.apply(t.refl.JSONSchemaReflector())

	if s.start == "second" {
		t.anotherDocument()
	}

	return t
}

// anotherDocument describes an API of a few operations, and gives the reflector a new document then.
func (t *target) anotherDocument() {
	for i, u := range []interface{}{special.Note{}, special.FormTree{}, adto.JSON[0], bdto.JSON[0], special.HeaderTree{}, special.Clash[0], special.Clash[1], special.FormMarked{}} {
		oc, err := t.refl.NewOperationContext(http.MethodPost, fmt.Sprintf("/before/%d", i))
		if err != nil {
			panic(err)
		}

		oc.AddReqStructure(u)
		oc.AddRespStructure(u)
		oc.AddRespStructure(nil, openapi.WithHTTPStatus(i*100), openapi.WithContentType("text/plain"))

		if err := t.refl.AddOperation(oc); err != nil {
			panic(err)
		}
	}

	if t.r3 != nil {
		t.r3.Spec = nil
	} else {
		t.r31.Spec = nil
	}
}

func (t *target) doc() spec {
	if t.r3 != nil {
		return t.r3.SpecEns()
	}

	return t.r31.SpecEns()
}

// loadedDoc is a document that has content before the first operation is added.
func loadedDoc(version string) string {
	return `{"openapi":"` + version + `","info":{"title":"loaded","version":"v","x-i":1},"servers":[{"url":"http://x"}],` +
		`"tags":[{"name":"t"}],"security":[{"k":[]}],"x-doc":{"a":1},` +
		`"components":{"responses":{"Loaded":{"description":"l"}},"parameters":{"Loaded":{"name":"l","in":"query","schema":{"type":"string"}}},` +
		`"headers":{"Loaded":{"schema":{"type":"string"}}},"requestBodies":{"Loaded":{"content":{"text/plain":{}}}},` +
		`"securitySchemes":{"k":{"type":"apiKey","in":"header","name":"K"}}},` +
		`"paths":{}}`
}

// tree is the encoded document.
func (t *target) tree() (map[string]interface{}, error) {
	b, err := t.doc().MarshalJSON()
	if err != nil {
		return nil, err
	}

	var d map[string]interface{}

	return d, json.Unmarshal(b, &d)
}

// preparer is a structure that sets up its unit by itself.
type preparer struct{ set func(cu *openapi.ContentUnit) }

func (p preparer) SetupContentUnit(cu *openapi.ContentUnit) { p.set(cu) }

func (u unit) options() []openapi.ContentOption {
	opts := []openapi.ContentOption{}

	if u.contentType != "" {
		opts = append(opts, openapi.WithContentType(u.contentType))
	}

	if u.status != 0 {
		opts = append(opts, openapi.WithHTTPStatus(u.status))
	}

	if u.customize != nil {
		opts = append(opts, openapi.WithCustomize(u.customize))
	}

	opts = append(opts, func(cu *openapi.ContentUnit) {
		if u.format != "" {
			cu.Format = u.format
		}

		if u.description != "" {
			cu.Description = u.description
		}

		cu.IsDefault = u.isDefault

		ins := []openapi.In{openapi.InPath, openapi.InQuery, openapi.InCookie, openapi.InHeader, openapi.InFormData}

		for i := range ins {
			in := ins[(i+u.mapOrder)%len(ins)]
			if u.mapOrder >= len(ins) {
				in = ins[(2*len(ins)-1-i-u.mapOrder%len(ins))%len(ins)]
			}

			cu.SetFieldMapping(in, u.mapping[in])
		}
	})

	return opts
}

func (u unit) content() openapi.ContentUnit {
	cu := openapi.ContentUnit{Structure: u.structure}
	for _, o := range u.options() {
		o(&cu)
	}

	return cu
}

func (u unit) add(f func(i interface{}, options ...openapi.ContentOption)) {
	if u.viaPreparer {
		f(preparer{func(cu *openapi.ContentUnit) { *cu = u.content() }})

		return
	}

	f(u.structure, u.options()...)
}

// context makes operation context.
func (t *target) context(o opDef) (openapi.OperationContext, error) {
	oc, err := t.refl.NewOperationContext(o.method, o.pattern)
	if err != nil {
		return nil, err
	}

	t.presets(oc, o.presets)

	for _, u := range o.reqs {
		u.add(oc.AddReqStructure)
	}

	for _, u := range o.resps {
		u.add(oc.AddRespStructure)
	}

	return oc, nil
}

func (t *target) add(o opDef) (openapi.OperationContext, error) {
	oc, err := t.context(o)
	if err != nil {
		return nil, err
	}

	if o.webhook {
		return oc, t.r31.AddWebhook(oc)
	}

	return oc, t.refl.AddOperation(oc)
}

// opGen generates operations.
type opGen struct {
	r       *rand.Rand
	g       *desc.Gen
	n       int
	kinds   []string
	plain   bool              // no mappings
	reject  func(u unit) bool // not a unit for this workload
	tagless bool              // structures without tags make JSON bodies
}

func newOpGen(r *rand.Rand) *opGen {
	return &opGen{r: r, g: &desc.Gen{R: r, Related: true}, kinds: desc.Kinds}
}

func (g *opGen) p(f float64) bool { return g.r.Float64() < f }

func isScalarKind(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface, reflect.Array:
		return false
	}

	return true
}

// value makes a sample of a type: zero, pointer or filled.
func (g *opGen) value(t reflect.Type) interface{} {
	v := reflect.New(t)

	switch x := g.r.Float64(); {
	case x < .1:
		return reflect.Zero(reflect.PtrTo(t)).Interface() // typed nil
	case x < .25:
		fill(g.r, v.Elem(), 1)
	}

	if g.p(.5) {
		return v.Interface()
	}

	return v.Elem().Interface()
}

// request makes a request unit.
func (g *opGen) request() unit {
	for {
		if u := g.anyRequest(); g.reject == nil || !g.reject(u) {
			return u
		}
	}
}

func (g *opGen) anyRequest() unit {
	u := unit{}

	switch x := g.r.Float64(); {
	case x < .05:
		u.structure = g.virtual()
	case x < .4:
		u.structure = g.value(reflect.TypeOf(api.Requests[g.r.Intn(len(api.Requests))]))
	case x < .48:
		t := desc.JSONTypes[g.r.Intn(len(desc.JSONTypes))]
		u.structure = g.value(t.T)

		if g.p(.3) {
			u.structure = g.value(t.Slice().T)
		} else if g.p(.2) {
			u.structure = g.value(t.Map().T)
		}
	default:
		names := [][]string{nil, nil, {"id"}, {"id", "user"}}[g.r.Intn(4)]
		s := g.g.Request(g.kinds[g.r.Intn(len(g.kinds))], names, false)
		u.structure = g.value(s.Type())

		if g.p(.25) && !g.plain {
			u.mapping, u.mapOrder = g.mapping(s), g.r.Intn(10)
		}
	}

	switch x := g.r.Float64(); {
	case x < .75:
	case x < .8:
		u.contentType = ctJSON
	case x < .85:
		u.contentType = ctForm
	case x < .87:
		// A form without files is documented as urlencoded.
		if fs, _ := locFields(u.structure, []string{"formData", "form"}, u.mapping[openapi.InFormData]); len(fs) == 0 || hasFile(fs) {
			u.contentType = ctMultipart
		}
	case x < .93:
		u.contentType = []string{"text/plain", "application/octet-stream", "text/csv; charset=utf-8", "image/png", "application/vnd.API+xml", "Text/X"}[g.r.Intn(6)]
		u.format = []string{"", "binary", "byte"}[g.r.Intn(3)]
	}

	if g.p(.2) {
		u.description = fmt.Sprintf("Request %d.", g.r.Intn(100))
	}

	u.viaPreparer = g.p(.12)

	return u
}

func hasFile(fs []pfield) bool {
	for _, f := range fs {
		switch reflect.New(f.field.Type).Interface().(type) {
		case *multipart.File, **multipart.File, *multipart.FileHeader, **multipart.FileHeader, *[]multipart.File, *[]*multipart.FileHeader:
			return true
		}
	}

	return false
}

// virtual makes a structure whose fields are known at run time only.
func (g *opGen) virtual() interface{} {
	s := func(params bool) jsonschema.Struct {
		s := jsonschema.Struct{}
		tags := []string{"", ` minLength:"3"`, ` required:"true"`, ` description:"Text."`, ` deprecated:"true"`}

		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			s.Fields = append(s.Fields, jsonschema.Field{
				Name:  fmt.Sprintf("V%d", i),
				Value: []interface{}{"", 0, 1.5, true, []string{}, map[string]int{}, special.Cat{}, special.Color(""), new(int)}[g.r.Intn(9)],
				Tag:   reflect.StructTag(fmt.Sprintf(`json:"v%d"`, i) + tags[g.r.Intn(len(tags))]),
			})
		}

		if params && g.p(.5) {
			for i, n := 0, 1+g.r.Intn(2); i < n; i++ {
				s.Fields = append(s.Fields, jsonschema.Field{
					Name:  fmt.Sprintf("P%d", i),
					Value: []interface{}{"", 0, true, special.Color("")}[g.r.Intn(4)],
					Tag:   reflect.StructTag(fmt.Sprintf(`%s:"p%d"`, []string{"query", "header", "cookie"}[g.r.Intn(3)], i) + tags[g.r.Intn(len(tags))]),
				})
			}
		}

		s.DefName = fmt.Sprintf("Virtual%d", g.r.Int63())

		return s
	}

	switch g.r.Intn(4) {
	case 0:
		return s(true)
	case 1:
		return special.Virtual{Struct: s(false)}
	case 2:
		v := s(true)

		return &v
	default:
		return special.VirtualNested{Struct: s(false), Nested: s(false)}
	}
}

// mapping renames scalar fields in random locations.
func (g *opGen) mapping(s desc.Struct) map[openapi.In]map[string]string {
	res := map[openapi.In]map[string]string{}
	ins := []openapi.In{openapi.InQuery, openapi.InHeader, openapi.InCookie, openapi.InFormData}

	for i, f := range s.Fields {
		if f.Embedded || f.Name == "_" || f.Name[0] == 'f' || !isScalarKind(f.Ty.T) || g.p(.5) {
			continue
		}

		in := ins[g.r.Intn(len(ins))]
		if strings.Contains(fmt.Sprint(f.Tags), "[style ") {
			continue // Styles are for one location.
		}

		if res[in] == nil {
			res[in] = map[string]string{}
		}

		res[in][f.Name] = fmt.Sprintf("mapped%d", i)
	}

	// One map of the caller can serve several locations.
	if a, b := ins[g.r.Intn(3)], ins[g.r.Intn(3)]; res[a] != nil && g.p(.3) {
		res[b] = res[a]
	}

	return res
}

var statuses = []int{0, 200, 200, 201, 202, 204, 301, 400, 404, 409, 500, 503, 599, 100, 1, 2, 3, 4, 5, 418, 299}

func (g *opGen) response() unit {
	u := unit{status: statuses[g.r.Intn(len(statuses))]}

	if g.p(.1) {
		u.isDefault = true

		if g.p(.6) {
			u.status = 0
		}
	}

	switch x := g.r.Float64(); {
	case x < .12:
	case x < .16:
		u.structure = g.virtual()
	case x < .45:
		u.structure = g.value(reflect.TypeOf(api.Responses[g.r.Intn(len(api.Responses))]))
	case x < .65:
		t := desc.JSONTypes[g.r.Intn(len(desc.JSONTypes))]
		u.structure = g.value(t.T)

		if g.p(.3) {
			u.structure = g.value(t.Slice().T)
		} else if g.p(.2) {
			u.structure = g.value(t.Map().T)
		}
	case x < .72:
		u.structure = []interface{}{new(string), "", 0, new(int), []string{}, map[string]int{}, true, new(float64), []byte{}, json.RawMessage{}, new(interface{}), special.Color(""), special.Token{}, special.Money{}, jsonschema.OneOf(special.Cat{}, special.Dog{})}[g.r.Intn(15)]
	default:
		s := g.g.Response(false)
		u.structure = g.value(s.Type())

		if g.p(.15) && !g.plain {
			for in, m := range g.mapping(s) {
				if in == openapi.InHeader {
					u.mapping = map[openapi.In]map[string]string{in: m}
				}
			}
		}
	}

	if g.p(.25) {
		u.contentType = []string{"application/json", "application/json; charset=utf-8", "application/problem+json", "text/csv", "text/html;charset=utf-8", "application/octet-stream", "application/json ; charset=utf-8", "text/csv ;header=present", "application/vnd.API.v1+json", "Text/CSV; charset=UTF-8"}[g.r.Intn(10)]
		u.format = []string{"", "", "binary"}[g.r.Intn(3)]
	}

	if g.p(.25) {
		u.description = fmt.Sprintf("Response %d.", g.r.Intn(100))
	}

	u.viaPreparer = g.p(.12)

	return u
}

// op makes an operation, its path has placeholders for exactly the path parameters, mostly.
func (g *opGen) op() opDef {
	g.n++

	o := opDef{method: httpMethods[g.r.Intn(len(httpMethods))]}

	if g.p(.3) {
		o.method = []string{"POST", "PUT", "PATCH"}[g.r.Intn(3)]
	}

	for i := []int{0, 1, 1, 1, 1, 1, 2, 3}[g.r.Intn(8)]; i > 0; i-- {
		o.reqs = append(o.reqs, g.request())
	}

	for i := []int{0, 1, 1, 1, 2, 3, 5}[g.r.Intn(7)]; i > 0; i-- {
		o.resps = append(o.resps, g.response())
	}

	g.paths(&o)

	return o
}

func (g *opGen) paths(o *opDef) {
	o.path = fmt.Sprintf("/op%d", g.n)
	o.pattern = o.path

	for _, n := range g.pathNames(o.reqs) {
		o.path += "/{" + n + "}"
		o.pattern += "/{" + n + []string{"", "", ":[a-z]+", ":\\d{2}"}[g.r.Intn(4)] + "}"
	}

	if g.p(.03) {
		o.path += "/{extra}"
		o.pattern += "/{extra}"
	}
}

func (g *opGen) pathNames(us []unit) (names []string) {
	seen := map[string]bool{}

	for _, u := range us {
		if u.contentType != "" && u.contentType != ctJSON && u.contentType != ctForm && u.contentType != ctMultipart {
			continue
		}

		fs, _ := locFields(u.structure, []string{"path"}, u.mapping[openapi.InPath])
		for _, f := range fs {
			if !seen[f.name] && !strings.ContainsAny(f.name, "{}:") {
				seen[f.name] = true
				names = append(names, f.name)
			}
		}
	}

	return names
}

func describeUnit(u unit) map[string]interface{} {
	d := map[string]interface{}{"structure": fmt.Sprintf("%T", u.structure)}
	if u.contentType != "" {
		d["contentType"] = u.contentType
	}

	if u.format != "" {
		d["format"] = u.format
	}

	if u.status != 0 {
		d["status"] = u.status
	}

	if u.isDefault {
		d["default"] = true
	}

	if u.description != "" {
		d["description"] = u.description
	}

	if len(u.mapping) > 0 {
		d["mapping"] = u.mapping
	}

	if u.viaPreparer {
		d["viaPreparer"] = true
	}

	return d
}

// preset is a parameter that an operation has before structures are added.
type preset struct {
	ref      string // reference, or:
	in, name string
}

// presets puts parameters into the operation of a context.
func (t *target) presets(oc openapi.OperationContext, ps []preset) {
	for _, p := range ps {
		if t.r3 != nil {
			o := oc.(openapi3.OperationExposer).Operation()

			if p.ref != "" {
				o.Parameters = append(o.Parameters, openapi3.ParameterOrRef{ParameterReference: &openapi3.ParameterReference{Ref: p.ref}})
			} else {
				s := (&openapi3.Schema{}).WithType(openapi3.SchemaTypeString)
				x := (&openapi3.Parameter{Name: p.name, In: openapi3.ParameterIn(p.in)}).WithSchema(openapi3.SchemaOrRef{Schema: s})
				x.WithRequired(p.in == "path")
				o.Parameters = append(o.Parameters, x.ToParameterOrRef())
			}

			continue
		}

		o := oc.(openapi31.OperationExposer).Operation()

		if p.ref != "" {
			o.Parameters = append(o.Parameters, openapi31.ParameterOrReference{Reference: &openapi31.Reference{Ref: p.ref}})
		} else {
			x := (&openapi31.Parameter{Name: p.name, In: openapi31.ParameterIn(p.in)}).WithSchema(map[string]interface{}{"type": "string"})
			x.WithRequired(p.in == "path")
			o.Parameters = append(o.Parameters, x.ToParameterOrRef())
		}
	}
}

// somePresets makes parameters, by names of fields and others.
func (g *opGen) somePresets(o opDef) (res []preset) {
	names := []string{"limit", "id", "user"}

	for _, u := range o.reqs {
		for _, in := range []openapi.In{openapi.InQuery, openapi.InHeader, openapi.InCookie, openapi.InPath} {
			fs, _ := locFields(u.structure, []string{string(in)}, u.mapping[in])
			for _, f := range fs {
				names = append(names, f.name)
			}
		}
	}

	seen := map[string]bool{}

	for i := g.r.Intn(3); i >= 0; i-- {
		p := preset{in: []string{"query", "header", "cookie"}[g.r.Intn(3)], name: names[g.r.Intn(len(names))]}

		if g.p(.6) {
			p = preset{ref: "#/components/parameters/" + p.name}
		}

		if k := fmt.Sprint(p); !seen[k] {
			seen[k] = true
			res = append(res, p)
		}
	}

	return res
}

func describeOp(o opDef) map[string]interface{} {
	var reqs, resps []interface{}

	for _, u := range o.reqs {
		reqs = append(reqs, describeUnit(u))
	}

	for _, u := range o.resps {
		resps = append(resps, describeUnit(u))
	}

	return map[string]interface{}{"method": o.method, "pattern": o.pattern, "request": reqs, "response": resps, "webhook": o.webhook, "presets": o.presets}
}

// owners watches that named types and components of a document match one to one.
type owners struct {
	typeOf map[string]string // component -> type
	nameOf map[string]string // type (by role) -> component
}

func newOwners() *owners { return &owners{map[string]string{}, map[string]string{}} }

// comparer compares expected schemas with those of a document.
type comparer struct {
	comps  map[string]interface{}
	own    *owners
	report func(what string)
	n      int // schemas compared
	refs   int
	leaks  int // nullability in components that jsonschema-go took from another use of a type
}

// leaked tells if two schemas of a component are different only in nullability: jsonschema-go shares types of schemas
// among fields of the same named type and may add null to all of them. It happens rarely, checks bound it.
func leaked(e, a map[string]interface{}, path string) bool {
	if !strings.Contains(path, "->") || reflect.DeepEqual(e["type"], a["type"]) && e["nullable"] == a["nullable"] {
		return false
	}

	if e["const"] != nil || e["enum"] != nil {
		return false
	}

	return reflect.DeepEqual(notNull(e), notNull(a))
}

var nullLeaks = []mon.Rare{{Counter: "nullability_leaks", Of: "schemas_compared", OneOf: 20000, What: "nullability in components differs"}}

func newComparer(doc map[string]interface{}, own *owners, report func(string)) *comparer {
	c := &comparer{own: own, report: report}
	if m, ok := doc["components"].(map[string]interface{}); ok {
		c.comps, _ = m["schemas"].(map[string]interface{})
	}

	return c
}

func (c *comparer) schema(x *xSchema, act interface{}, path string) {
	c.cmp(x, x.root, act, path, map[[2]string]bool{})
}

func refName(v interface{}) (string, bool) {
	m, ok := v.(map[string]interface{})
	if !ok {
		return "", false
	}

	s, ok := m["$ref"].(string)
	if !ok || !strings.HasPrefix(s, compPrefix) {
		return "", false
	}

	return strings.TrimPrefix(s, compPrefix), true
}

func (c *comparer) cmp(x *xSchema, exp, act interface{}, path string, seen map[[2]string]bool) {
	c.n++

	if id, ok := refName(exp); ok {
		name, ok := refName(act)
		if !ok {
			c.report(fmt.Sprintf("%s: expected a reference to the component of %v, got %s", path, x.typ[id], short(act)))

			return
		}

		c.refs++

		if prev, ok := c.own.nameOf[id]; ok && prev != name {
			c.report(fmt.Sprintf("%s: %v is described by component %s and by %s", path, x.typ[id], prev, name))
		}

		tid := strings.TrimPrefix(id, "form-")
		if prev, ok := c.own.typeOf[name]; ok && prev != tid {
			c.report(fmt.Sprintf("%s: component %s describes both %v and %v", path, name, x.typ[id], prev))
		}

		c.own.nameOf[id], c.own.typeOf[name] = name, tid

		if seen[[2]string{id, name}] {
			return
		}

		seen[[2]string{id, name}] = true

		d, ok := c.comps[name]
		if !ok {
			c.report(fmt.Sprintf("%s: no component %s", path, name))

			return
		}

		c.cmp(x, notNull(x.defs[id]), notNull(d), path+"->"+name, seen)

		if e, a := exp.(map[string]interface{}), act.(map[string]interface{}); len(e) > 1 || len(a) > 1 {
			e1, a1 := map[string]interface{}{}, map[string]interface{}{}

			for k, v := range e {
				if k != "$ref" && k != "type" {
					e1[k] = v
				}
			}

			for k, v := range a {
				if k != "$ref" && k != "type" {
					a1[k] = v
				}
			}

			c.cmp(x, e1, a1, path, seen)
		}

		return
	}

	switch e := exp.(type) {
	case map[string]interface{}:
		a, ok := act.(map[string]interface{})
		if !ok {
			c.report(fmt.Sprintf("%s: expected %s, got %s", path, short(exp), short(act)))

			return
		}

		if leaked(e, a, path) {
			c.leaks++

			return
		}

		for _, k := range keysOf(e, a) {
			ev, okE := e[k]
			av, okA := a[k]

			// An envelope of null may name the type, depending on what jsonschema-go met first.
			if (k == "type" || k == "nullable") && envelope(e) && envelope(a) {
				continue
			}

			switch {
			case !okE:
				c.report(fmt.Sprintf("%s: unexpected %s: %s", path, k, short(av)))
			case !okA:
				c.report(fmt.Sprintf("%s: lacks %s: %s", path, k, short(ev)))
			default:
				c.cmp(x, ev, av, path+"/"+k, seen)
			}
		}
	case []interface{}:
		a, ok := act.([]interface{})
		if !ok || len(a) != len(e) {
			c.report(fmt.Sprintf("%s: expected %s, got %s", path, short(exp), short(act)))

			return
		}

		for i := range e {
			c.cmp(x, e[i], a[i], fmt.Sprintf("%s/%d", path, i), seen)
		}
	default:
		if !reflect.DeepEqual(exp, act) {
			c.report(fmt.Sprintf("%s: expected %s, got %s", path, short(exp), short(act)))
		}
	}
}

func envelope(m map[string]interface{}) bool {
	l, _ := m["anyOf"].([]interface{})
	if len(l) != 2 {
		return false
	}

	n := asMap(l[0])
	_, ref := asMap(l[1])["$ref"]

	return ref && len(n) == 1 && (n["type"] == "null" || n["nullable"] == true)
}

// stableComp is a component without what jsonschema-go makes differently depending on the use that it met first.
func stableComp(v interface{}) interface{} {
	return withoutEnvelopeTypes(notNull(v))
}

func withoutEnvelopeTypes(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		res := map[string]interface{}{}
		_, ref := x["$ref"]
		skip := ref || envelope(x)

		for k, e := range x {
			if !skip || (k != "type" && k != "nullable") {
				res[k] = withoutEnvelopeTypes(e)
			}
		}

		return res
	case []interface{}:
		res := make([]interface{}, len(x))
		for i, e := range x {
			res[i] = withoutEnvelopeTypes(e)
		}

		return res
	}

	return v
}

// notNull is a component without nullability: jsonschema-go adds null to the component of a named scalar when the first
// use that it meets is a pointer.
func notNull(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}

	l, isList := m["type"].([]interface{})
	if _, nullable := m["nullable"]; !nullable && !isList {
		return v
	}

	res := map[string]interface{}{}
	for k, e := range m {
		res[k] = e
	}

	delete(res, "nullable")

	if isList {
		var ts []interface{}

		for _, t := range l {
			if t != "null" {
				ts = append(ts, t)
			}
		}

		res["type"] = ts

		if len(ts) == 1 {
			res["type"] = ts[0]
		}
	}

	return res
}

func keysOf(ms ...map[string]interface{}) []string {
	seen := map[string]bool{}

	var res []string

	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				res = append(res, k)
			}
		}
	}

	sort.Strings(res)

	return res
}

func short(v interface{}) string { return trim(mon.JSON(v), 200) }

func asMap(v interface{}) map[string]interface{} {
	m, _ := v.(map[string]interface{})

	return m
}

// members compares plain members.
func (c *comparer) members(exp, act map[string]interface{}, skip map[string]bool, path string) {
	for _, k := range keysOf(exp, act) {
		if skip[k] {
			continue
		}

		e, okE := exp[k]
		a, okA := act[k]

		switch {
		case !okE:
			c.report(fmt.Sprintf("%s: unexpected %s: %s", path, k, short(a)))
		case !okA:
			if e == "" || e == false {
				continue
			}

			c.report(fmt.Sprintf("%s: lacks %s: %s", path, k, short(e)))
		case !reflect.DeepEqual(e, a):
			c.report(fmt.Sprintf("%s: %s is %s, expected %s", path, k, short(a), short(e)))
		}
	}
}

// params compares parameters and marks of forbidden ones.
func (c *comparer) params(x *xOp, op map[string]interface{}) {
	list, _ := op["parameters"].([]interface{})
	byKey := map[string]map[string]interface{}{}

	refs := []string{}

	for _, l := range list {
		p := asMap(l)

		if ref, ok := p["$ref"].(string); ok {
			refs = append(refs, ref)

			if len(p) > 1 {
				c.report("reference with other members: " + short(p))
			}

			continue
		}

		k := fmt.Sprint(p["in"], " ", p["name"])

		if byKey[k] != nil {
			c.report("two parameters " + k)
		}

		byKey[k] = p
	}

	if !reflect.DeepEqual(refs, append([]string{}, x.paramRefs...)) {
		c.report(fmt.Sprintf("references of parameters are %v, expected %v", refs, x.paramRefs))
	}

	for _, p := range x.params {
		k := p.in + " " + p.name
		a := byKey[k]
		delete(byKey, k)

		if p.preset {
			exp := map[string]interface{}{"name": p.name, "in": p.in, "required": p.in == "path", "schema": map[string]interface{}{"type": "string"}}
			delete(a, "style") // Header and cookie have one.

			if !reflect.DeepEqual(exp, a) {
				c.report("parameter that was there before is changed to " + short(a))
			}

			continue
		}

		if a == nil {
			c.report("no parameter " + k + " of field " + p.field.Name)

			continue
		}

		exp := map[string]interface{}{"name": p.name, "in": p.in}
		for m, v := range p.members {
			exp[m] = v
		}

		c.members(exp, a, map[string]bool{"schema": true, "content": true}, "parameter "+k)

		if p.asJSON {
			ct := asMap(a["content"])
			if a["schema"] != nil || len(ct) != 1 || ct[ctJSON] == nil {
				c.report("parameter " + k + ": expected JSON content, got " + short(a))

				continue
			}

			c.members(map[string]interface{}{}, asMap(ct[ctJSON]), map[string]bool{"schema": true}, "content of parameter "+k)
			c.schema(p.schema, asMap(ct[ctJSON])["schema"], "content of parameter "+k)
		} else {
			if a["content"] != nil {
				c.report("parameter " + k + ": unexpected content")
			}

			c.schema(p.schema, a["schema"], "schema of parameter "+k)
		}
	}

	for k, a := range byKey {
		c.report("unexpected parameter " + k + ": " + short(a))
	}

	for k, v := range op {
		if strings.HasPrefix(k, "x-") && (!x.forbid[k] || v != true) {
			c.report("unexpected mark " + k + ": " + short(v))
		}
	}

	for k := range x.forbid {
		if op[k] != true {
			c.report("lacks mark " + k)
		}
	}
}

func (c *comparer) content(exp map[string]*xSchema, act map[string]interface{}, path string) {
	for ct, a := range act {
		if exp[ct] == nil {
			c.report(path + ": unexpected content " + ct + ": " + short(a))
		}
	}

	for ct, s := range exp {
		a := asMap(act[ct])
		if a == nil {
			c.report(path + ": lacks content " + ct)

			continue
		}

		c.members(map[string]interface{}{}, a, map[string]bool{"schema": true}, path+" "+ct)
		c.schema(s, a["schema"], path+" "+ct)
	}
}

func (c *comparer) body(x *xOp, op map[string]interface{}) {
	b, ok := op["requestBody"]
	if !ok {
		if x.hasBody {
			c.report(fmt.Sprintf("lacks request body with %v", contentKeys(x.body)))
		}

		return
	}

	if !x.hasBody {
		c.report("unexpected request body " + short(b))

		return
	}

	exp := map[string]interface{}{}
	if x.bodyDesc != "" {
		exp["description"] = x.bodyDesc
	}

	c.members(exp, asMap(b), map[string]bool{"content": true}, "request body")
	c.content(x.body, asMap(asMap(b)["content"]), "request body")
}

func contentKeys(m map[string]*xSchema) (res []string) {
	for k := range m {
		res = append(res, k)
	}

	sort.Strings(res)

	return res
}

func (c *comparer) responses(x *xOp, op map[string]interface{}) {
	act := asMap(op["responses"])

	for s, a := range act {
		if x.responses[s] == nil {
			c.report("unexpected response " + s + ": " + short(a))
		}
	}

	for s, e := range x.responses {
		a := asMap(act[s])
		if a == nil {
			c.report("lacks response " + s)

			continue
		}

		path := "response " + s
		if a["description"] == nil {
			c.report(path + " has no description")
		}

		c.members(map[string]interface{}{"description": e.description}, a, map[string]bool{"content": true, "headers": true}, path)
		c.content(e.content, asMap(a["content"]), path)

		hs := asMap(a["headers"])
		for n, h := range hs {
			if _, ok := e.headers[n]; !ok {
				c.report(path + ": unexpected header " + n + ": " + short(h))
			}
		}

		for n, eh := range e.headers {
			h := asMap(hs[n])
			if h == nil {
				c.report(path + ": lacks header " + n)

				continue
			}

			// The only permitted style may be spelled out.
			c.members(eh.members, h, map[string]bool{"schema": true, "style": h["style"] == "simple"}, path+" header "+n)
			c.schema(eh.schema, h["schema"], path+" header "+n)
		}
	}
}

// find finds an operation in the document.
func findOp(doc map[string]interface{}, o opDef) map[string]interface{} {
	if o.webhook {
		return asMap(asMap(asMap(doc["webhooks"])[o.path])[strings.ToLower(o.method)])
	}

	return asMap(asMap(asMap(doc["paths"])[o.path])[strings.ToLower(o.method)])
}
