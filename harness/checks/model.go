package checks

import (
	"encoding/json"
	"fmt"
	"mime/multipart"
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/refl"
)

// The reference model of what an operation documents: written from the documented rules, it asks only the trusted
// dependency jsonschema-go for the schemas of Go types and never the code under test.

// unit is a request or response content unit as a caller gives it.
type unit struct {
	structure    interface{}
	contentType  string
	format       string
	status       int
	isDefault    bool
	description  string
	mapping      map[openapi.In]map[string]string
	mapOrder     int // of locations
	customize    func(cor openapi.ContentOrReference)
	viaPreparer  bool
	prepareAsPtr bool
}

// opDef is an operation as a caller describes it.
type opDef struct {
	method, path string // path has plain placeholders
	pattern      string // what is given to the reflector
	reqs, resps  []unit
	webhook      bool
	presets      []preset
}

// setup configures a reflector.
type setup struct {
	name   string
	opts   []func(*jsonschema.ReflectContext)
	maps   [][2]interface{}
	inline []interface{}
	start  string // what the reflector starts with
}

func (s setup) apply(r *jsonschema.Reflector) {
	r.DefaultOptions = append(r.DefaultOptions, s.opts...)

	for _, m := range s.maps {
		r.AddTypeMapping(m[0], m[1])
	}

	for _, i := range s.inline {
		r.InlineDefinition(i)
	}
}

// xSchema is an expected schema with definitions, references name types.
type xSchema struct {
	root interface{}
	defs map[string]interface{}
	typ  map[string]reflect.Type // definition -> type
}

type xParam struct {
	in, name string
	members  map[string]interface{} // all but schema and content
	schema   *xSchema
	asJSON   bool
	field    reflect.StructField
	preset   bool // made by the user
}

type xHeader struct {
	members map[string]interface{}
	schema  *xSchema
}

type xResp struct {
	description string
	content     map[string]*xSchema
	headers     map[string]xHeader
}

// xOp is what an operation has to document.
type xOp struct {
	refused   string // why, if it has to be refused
	params    []xParam
	paramRefs []string
	forbid    map[string]bool
	hasBody   bool
	body      map[string]*xSchema
	bodyDesc  string
	responses map[string]*xResp
}

type model struct {
	ver   string
	setup setup
	ids   map[reflect.Type]string
	types map[string]reflect.Type
}

func newModel(ver string, s setup) *model {
	return &model{ver: ver, setup: s, ids: map[reflect.Type]string{}, types: map[string]reflect.Type{}}
}

// typeID names a type, whatever the configured names are.
func (m *model) typeID(t reflect.Type, role string) string {
	id, ok := m.ids[t]
	if !ok {
		id = "T" + strconv.Itoa(len(m.ids))
		m.ids[t] = id
	}

	m.types[role+id] = t

	return role + id
}

const compPrefix = "#/components/schemas/"

// reflect asks the dependency for a schema.
func (m *model) reflect(v interface{}, form bool, opts ...func(*jsonschema.ReflectContext)) (jsonschema.Schema, map[string]jsonschema.SchemaOrBool, error) {
	r := &jsonschema.Reflector{}
	if m.setup.start != "zero" && m.setup.start != "bare" { // others are made without NewReflector, which sets formats
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			if f := map[reflect.Kind]string{reflect.Int64: "int64", reflect.Int32: "int32", reflect.Float32: "float", reflect.Float64: "double"}[p.Value.Kind()]; f != "" {
				p.Schema.Format = &f
			}

			return false, nil
		}))
	}

	m.setup.apply(r)

	opts = append(opts, jsonschema.DefinitionsPrefix(compPrefix), func(rc *jsonschema.ReflectContext) {
		prev := rc.DefName
		rc.DefName = func(t reflect.Type, n string) string {
			if prev != nil {
				if n = prev(t, n); n == "" {
					return ""
				}
			}

			if form {
				it := t
				if k := t.Kind(); k == reflect.Slice || k == reflect.Map || k == reflect.Array {
					it = t.Elem()
				}

				v := reflect.New(it).Interface()
				if refl.HasTaggedFields(v, "formData") || refl.HasTaggedFields(v, "form") || refl.HasTaggedFields(v, "json") {
					return m.typeID(t, "form-")
				}

				switch v.(type) {
				case jsonschema.OneOfExposer, jsonschema.AnyOfExposer, jsonschema.AllOfExposer, jsonschema.NotExposer:
					return m.typeID(t, "form-")
				}
			}

			return m.typeID(t, "")
		}
	})

	s, err := r.Reflect(v, opts...)
	defs := s.Definitions
	s.Definitions = nil

	return s, defs, err
}

// props copies schemas of top properties as they are made: jsonschema-go may add null to shared ones later.
func props(into map[string]jsonschema.SchemaOrBool) func(*jsonschema.ReflectContext) {
	return jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		if !p.Processed || len(p.Path) > 1 {
			return nil
		}

		b, err := json.Marshal(p.PropertySchema)
		if err != nil {
			return err
		}

		s := jsonschema.Schema{}
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}

		into[p.Name] = s.ToSchemaOrBool()

		return nil
	})
}

func jsonTree(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	var res interface{}
	if err := json.Unmarshal(b, &res); err != nil {
		panic(err)
	}

	return res
}

func (m *model) xschema(s jsonschema.Schema, defs map[string]jsonschema.SchemaOrBool) *xSchema {
	x := &xSchema{root: m.notation(jsonTree(s)), defs: map[string]interface{}{}, typ: m.types}

	for n, d := range defs {
		x.defs[n] = m.notation(jsonTree(d))
	}

	return x
}

// notation writes a schema as the OpenAPI version does.
func (m *model) notation(v interface{}) interface{} {
	if m.ver == "3.1" {
		return v
	}

	return to30(v)
}

var kept30 = map[string]bool{
	"title": true, "multipleOf": true, "maxLength": true, "minLength": true, "pattern": true, "maxItems": true, "minItems": true, "uniqueItems": true,
	"maxProperties": true, "minProperties": true, "required": true, "enum": true, "description": true, "format": true, "default": true,
	"readOnly": true, "writeOnly": true, "deprecated": true,
}

func to30(v interface{}) interface{} {
	if b, ok := v.(bool); ok {
		if b {
			return map[string]interface{}{}
		}

		return map[string]interface{}{"not": map[string]interface{}{}}
	}

	s := v.(map[string]interface{})
	res := map[string]interface{}{}

	if ref, ok := s["$ref"]; ok {
		if s["deprecated"] == true {
			return map[string]interface{}{"allOf": []interface{}{map[string]interface{}{"deprecated": true}, map[string]interface{}{"$ref": ref}}}
		}

		return map[string]interface{}{"$ref": ref}
	}

	for k, e := range s {
		switch {
		case kept30[k] || strings.HasPrefix(k, "x-"):
			res[k] = e
		case k == "type":
			l, ok := e.([]interface{})
			if !ok {
				l = []interface{}{e}
			}

			for _, t := range l {
				if t == "null" {
					res["nullable"] = true
				} else {
					res["type"] = t
				}
			}
		case k == "examples":
			if l := e.([]interface{}); len(l) > 0 {
				res["example"] = l[0]
			}
		case k == "properties":
			ps := map[string]interface{}{}
			for n, p := range e.(map[string]interface{}) {
				ps[n] = to30(p)
			}

			if len(ps) > 0 {
				res[k] = ps
			}
		case k == "items":
			if _, ok := e.([]interface{}); !ok {
				res[k] = to30(e)
			}
		case k == "not":
			res[k] = to30(e)
		case k == "additionalProperties":
			if b, ok := e.(bool); ok {
				res[k] = b
			} else {
				res[k] = to30(e)
			}
		case k == "oneOf" || k == "anyOf" || k == "allOf":
			var l []interface{}
			for _, i := range e.([]interface{}) {
				l = append(l, to30(i))
			}

			res[k] = l
		}
	}

	// An enum of one value is what 3.0 has for const.
	if v, ok := s["const"]; ok {
		if res["enum"] == nil {
			res["enum"] = []interface{}{v}
		} else {
			l, _ := res["allOf"].([]interface{})
			res["allOf"] = append(l, map[string]interface{}{"enum": []interface{}{v}})
		}
	}

	bound := func(incl, excl string, stricter func(a, b float64) bool) {
		i, okI := s[incl].(float64)
		e, okE := s[excl].(float64)

		switch {
		case okE && (!okI || e == i || stricter(e, i)):
			res[incl], res[excl] = e, true
		case okI:
			res[incl] = i
		}
	}

	bound("maximum", "exclusiveMaximum", func(a, b float64) bool { return a < b })
	bound("minimum", "exclusiveMinimum", func(a, b float64) bool { return a > b })

	return res
}

type pfield struct {
	name  string
	field reflect.StructField
}

func virtualStruct(v interface{}) (jsonschema.Struct, bool) {
	if p, ok := v.(*jsonschema.Struct); ok {
		return *p, true
	}

	s, ok := v.(jsonschema.Struct)

	return s, ok
}

// isVirtual tells if a structure is, or has, one with fields that are known at run time only.
func isVirtual(v interface{}) bool {
	_, virtual := virtualStruct(v)

	refl.WalkFieldsRecursively(reflect.ValueOf(v), func(v reflect.Value, _ reflect.StructField, _ []reflect.StructField) {
		virtual = virtual || v.Type() == reflect.TypeOf(jsonschema.Struct{})
	})

	return virtual
}

// locFields lists the fields that belong to one of tags (or are mapped), and whether unknown ones are forbidden.
func locFields(v interface{}, tags []string, mapping map[string]string) (fields []pfield, forbid *bool) {
	if v == nil {
		return nil, nil
	}

	var list []reflect.StructField

	if s, ok := virtualStruct(v); ok {
		for _, f := range s.Fields {
			list = append(list, reflect.StructField{Name: f.Name, Tag: f.Tag, Type: reflect.TypeOf(f.Value)})
		}
	} else {
		t := reflect.TypeOf(v)
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}

		if t.Kind() != reflect.Struct {
			return nil, nil
		}

		for i := 0; i < t.NumField(); i++ {
			list = append(list, t.Field(i))
		}
	}

	for _, f := range list {
		tag, found := mapping[f.Name]
		for _, n := range tags {
			if !found {
				tag, found = f.Tag.Lookup(n)
			}
		}

		if tag == "-" {
			continue
		}

		name := strings.Split(tag, ",")[0]
		ft := f.Type

		for ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}

		if f.Anonymous && name == "" && ft.Kind() == reflect.Struct {
			_, referred := reflect.New(ft).Elem().Interface().(jsonschema.EmbedReferencer)
			if f.Tag.Get("refer") == "true" || (referred && f.Tag.Get("refer") == "") {
				continue
			}

			fs, fb := locFields(reflect.New(ft).Interface(), tags, mapping)
			fields = append(fields, fs...)

			if fb != nil {
				forbid = fb
			}

			continue
		}

		if !found {
			continue
		}

		if f.Name == "_" {
			if v, ok := f.Tag.Lookup("additionalProperties"); ok {
				b := v == "false"
				forbid = &b
			}

			continue
		}

		if f.PkgPath != "" {
			continue
		}

		if name == "" {
			name = f.Name
		}

		fields = append(fields, pfield{name, f})
	}

	return fields, forbid
}

func noBodyMethod(method string) bool {
	switch strings.ToUpper(method) {
	case "GET", "HEAD", "DELETE", "TRACE":
		return true
	}

	return false
}

func noTags(rc *jsonschema.ReflectContext) { rc.ProcessWithoutTags = false }

func (m *model) params(x *xOp, u unit) error {
	if refl.IsSliceOrMap(u.structure) {
		return nil
	}

	for _, in := range []openapi.In{openapi.InQuery, openapi.InPath, openapi.InCookie, openapi.InHeader} {
		tags := []string{string(in)}
		if in == openapi.InQuery {
			tags = append(tags, "form")
		}

		made := map[string]jsonschema.SchemaOrBool{}

		s, defs, err := m.reflect(u.structure, false, noTags, jsonschema.PropertyNameMapping(u.mapping[in]), jsonschema.PropertyNameTag(tags[0], tags[1:]...),
			func(rc *jsonschema.ReflectContext) { rc.UnnamedFieldWithTag = true }, jsonschema.SkipEmbeddedMapsSlices, props(made))
		if err != nil {
			return err
		}

		fields, forbid := locFields(u.structure, tags, u.mapping[in])

		for _, f := range fields {
			for _, p := range x.params {
				if p.in == string(in) && p.name == f.name {
					return fmt.Errorf("duplicate parameter %s in %s", f.name, in)
				}
			}

			p, err := m.param(in, f, made[f.name], defs)
			if err != nil {
				return err
			}

			x.params = append(x.params, p)
		}

		// Types that expose their schema by themselves may forbid, too.
		if exposes(u.structure) {
			b := s.AdditionalProperties != nil && s.AdditionalProperties.TypeBoolean != nil && !*s.AdditionalProperties.TypeBoolean
			forbid = &b
		}

		if forbid != nil && *forbid {
			x.forbid["x-forbid-unknown-"+string(in)] = true
		}
	}

	return nil
}

// roleClash tells if a parameter of the unit puts a schema into components that differs from the one that the same
// type has in JSON bodies (known finding of C21, such types get one component for both).
func (m *model) roleClash(u unit) bool {
	if refl.IsSliceOrMap(u.structure) || u.structure == nil {
		return false
	}

	for _, in := range []openapi.In{openapi.InQuery, openapi.InPath, openapi.InCookie, openapi.InHeader} {
		tags := []string{string(in)}
		if in == openapi.InQuery {
			tags = append(tags, "form")
		}

		asJSON := map[reflect.Type]bool{} // Types that get their JSON component with the parameter.

		fields, _ := locFields(u.structure, tags, u.mapping[in])
		for _, f := range fields {
			ft := f.field.Type
			for ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}

			if p := reflect.New(ft).Interface(); f.field.Tag.Get("collectionFormat") == "json" || refl.HasTaggedFields(p, "json") && !refl.HasTaggedFields(p, string(in)) {
				asJSON[ft] = true
			}

			if f.field.Tag.Get("collectionFormat") != "json" {
				continue
			}

			it := f.field.Type
			for it.Kind() == reflect.Slice || it.Kind() == reflect.Map || it.Kind() == reflect.Array || it.Kind() == reflect.Ptr {
				it = it.Elem()
			}

			if it.Kind() == reflect.Struct && it.PkgPath() != "" && refl.HasTaggedFields(reflect.New(it).Interface(), "query") && !refl.HasTaggedFields(reflect.New(it).Interface(), "json") {
				return true
			}
		}

		_, defs, err := m.reflect(u.structure, false, noTags, jsonschema.PropertyNameMapping(u.mapping[in]), jsonschema.PropertyNameTag(tags[0], tags[1:]...),
			func(rc *jsonschema.ReflectContext) { rc.UnnamedFieldWithTag = true }, jsonschema.SkipEmbeddedMapsSlices)
		if err != nil {
			continue
		}

		for id, d := range defs {
			t := m.types[strings.TrimPrefix(id, compPrefix)]
			if t == nil || asJSON[t] {
				continue
			}

			it := t
			for it.Kind() == reflect.Slice || it.Kind() == reflect.Map || it.Kind() == reflect.Array || it.Kind() == reflect.Ptr {
				it = it.Elem()
			}

			if it.Kind() != reflect.Struct || (!m.withoutTags() && !refl.HasTaggedFields(reflect.New(it).Interface(), "json")) {
				continue
			}

			_, jd, err := m.reflect(reflect.New(t).Interface(), false, jsonschema.RootRef)
			if err != nil || !reflect.DeepEqual(notNull(jsonTree(jd[id])), notNull(jsonTree(d))) {
				return true
			}
		}
	}

	return false
}

func exposes(v interface{}) bool {
	if v == nil {
		return false
	}

	t := reflect.TypeOf(v)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	switch reflect.New(t).Interface().(type) {
	case jsonschema.Exposer, jsonschema.RawExposer, jsonschema.Preparer:
		return true
	}

	return false
}

func boolTag(f reflect.StructField, name string, set map[string]interface{}, as string) {
	if v, ok := f.Tag.Lookup(name); ok {
		b, err := strconv.ParseBool(v)
		if err != nil {
			panic(err)
		}

		set[as] = b
	}
}

func (m *model) param(in openapi.In, f pfield, ps jsonschema.SchemaOrBool, defs map[string]jsonschema.SchemaOrBool) (xParam, error) {
	p := xParam{in: string(in), name: f.name, field: f.field, members: map[string]interface{}{}}

	if ps.TypeObject == nil {
		return p, fmt.Errorf("no property %s", f.name)
	}

	if d := ps.TypeObject.Description; d != nil && *d != "" {
		p.members["description"] = *d
	}

	kind := f.field.Type.Kind()
	cf := f.field.Tag.Get("collectionFormat")

	switch cf {
	case "csv":
		p.members["style"], p.members["explode"] = "form", false

		if in == openapi.InPath || in == openapi.InHeader {
			p.members["style"] = "simple"
		}
	case "ssv":
		p.members["style"], p.members["explode"] = "spaceDelimited", false
	case "pipes":
		p.members["style"], p.members["explode"] = "pipeDelimited", false
	case "multi":
		p.members["style"], p.members["explode"] = "form", true
	}

	val := reflect.New(refl.DeepIndirect(f.field.Type)).Interface()

	if cf == "json" || (refl.HasTaggedFields(val, "json") && !refl.HasTaggedFields(val, string(in))) {
		s, d, err := m.reflect(val, false, jsonschema.RootRef)
		if err != nil {
			return p, err
		}

		p.asJSON = true
		p.schema = m.xschema(s, d)
	} else {
		p.schema = m.xschema(*ps.TypeObject, defs)

		if m.ver == "3.0" && kind != reflect.Ptr {
			delete(p.schema.root.(map[string]interface{}), "nullable")
		}

		s, _, err := m.reflect(val, false)
		if err != nil {
			return p, err
		}

		if in == openapi.InQuery && s.HasType(jsonschema.Object) {
			p.members["style"], p.members["explode"] = "deepObject", true
		}
	}

	for _, t := range []string{"required", "deprecated", "explode"} {
		boolTag(f.field, t, p.members, t)
	}

	boolTag(f.field, "allowEmptyValue", p.members, "allowEmptyValue")
	boolTag(f.field, "allowReserved", p.members, "allowReserved")

	if v, ok := f.field.Tag.Lookup("style"); ok {
		p.members["style"] = v
	}

	if in == openapi.InPath {
		p.members["required"] = true
	}

	return p, nil
}

var (
	typFile       = reflect.TypeOf((*multipart.File)(nil))
	typFileHeader = reflect.TypeOf((*multipart.FileHeader)(nil))
)

// bodySchema describes a form or JSON body.
func (m *model) bodySchema(v interface{}, form bool, mapping map[string]string) (*xSchema, bool, error) {
	files := false
	tags := []string{"json"}

	if form {
		tags = []string{"formData", "form"}
	}

	s, defs, err := m.reflect(v, form, jsonschema.RootRef, jsonschema.PropertyNameMapping(mapping), jsonschema.PropertyNameTag(tags[0], tags[1:]...),
		jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {
			if t := p.Schema.ReflectType; t != nil && t.Kind() == reflect.Slice && (t.Elem() == typFileHeader || t.Elem() == typFile.Elem()) && p.NullAdded {
				p.Schema.RemoveType(jsonschema.Null)
			}
		}),
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			if !p.Value.IsValid() || (p.Value.Type() != typFile && p.Value.Type() != typFileHeader) {
				return false, nil
			}

			files = true

			p.Schema.Type = nil
			p.Schema.AddType(jsonschema.String)
			p.Schema.WithFormat("binary")

			if m.ver == "3.1" {
				p.Schema.WithExtraPropertiesItem("contentMediaType", "application/octet-stream")
			}

			return true, nil
		}))
	if err != nil {
		return nil, false, err
	}

	return m.xschema(s, defs), files, nil
}

func (m *model) text(format string) *xSchema {
	s := map[string]interface{}{"type": "string"}
	if format != "" {
		s["format"] = format
	}

	return &xSchema{root: s}
}

const (
	ctJSON      = "application/json"
	ctForm      = "application/x-www-form-urlencoded"
	ctMultipart = "multipart/form-data"
)

func (m *model) withoutTags() bool {
	rc := &jsonschema.ReflectContext{}
	for _, o := range m.setup.opts {
		o(rc)
	}

	return rc.ProcessWithoutTags
}

func (m *model) request(x *xOp, method string, u unit) error {
	add := func(ct string, s *xSchema) {
		x.hasBody = true
		x.body[ct] = s
	}

	v := u.structure
	_, force := v.(openapi.RequestBodyEnforcer)
	_, forceJSON := v.(openapi.RequestJSONBodyEnforcer)
	allowed := !noBodyMethod(method) || force
	formTagged := refl.HasTaggedFields(v, "formData") || refl.HasTaggedFields(v, "form")
	mapping := u.mapping[openapi.InFormData]
	virtual := isVirtual(v)

	form := func() error {
		if !allowed || (!formTagged && len(mapping) == 0) {
			return nil
		}

		s, files, err := m.bodySchema(v, true, mapping)
		if err != nil {
			return err
		}

		if files {
			add(ctMultipart, s)
		} else {
			add(ctForm, s)
		}

		return nil
	}

	jsonBody := func() error {
		switch {
		case !allowed:
			return nil
		case formTagged && !forceJSON && !virtual:
			return nil
		case refl.HasTaggedFields(v, "json"), virtual, refl.IsSliceOrMap(v), refl.FindEmbeddedSliceOrMap(v) != nil, m.withoutTags():
		default:
			return nil
		}

		s, _, err := m.bodySchema(v, false, nil)
		if err != nil {
			return err
		}

		add(ctJSON, s)

		return nil
	}

	switch u.contentType {
	case "":
		if err := form(); err != nil {
			return err
		}

		if err := m.params(x, u); err != nil {
			return err
		}

		if err := jsonBody(); err != nil {
			return err
		}

		for _, ct := range contentTypeTags(v) {
			add(ct, m.text(""))
		}
	case ctJSON:
		if err := m.params(x, u); err != nil {
			return err
		}

		if err := jsonBody(); err != nil {
			return err
		}
	case ctForm, ctMultipart:
		if err := form(); err != nil {
			return err
		}

		if err := m.params(x, u); err != nil {
			return err
		}
	default:
		add(u.contentType, m.text(u.format))
	}

	if u.description != "" && x.hasBody {
		x.bodyDesc = u.description
	}

	return nil
}

func contentTypeTags(v interface{}) (res []string) {
	fs, _ := locFieldsAll(v)
	for _, f := range fs {
		if ct := strings.Split(f.Tag.Get("contentType"), ",")[0]; ct != "" && ct != "-" {
			res = append(res, ct)
		}
	}

	return res
}

// locFieldsAll lists all fields, embedded included.
func locFieldsAll(v interface{}) (res []reflect.StructField, _ bool) {
	if v == nil {
		return nil, false
	}

	t := reflect.TypeOf(v)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	if t.Kind() != reflect.Struct {
		return nil, false
	}

	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			fs, _ := locFieldsAll(reflect.New(f.Type).Interface())
			res = append(res, fs...)
		} else {
			res = append(res, f)
		}
	}

	return res, true
}

func describable(s jsonschema.Schema) bool {
	s.Title, s.Description, s.Comment, s.ExtraProperties, s.ID, s.Examples = nil, nil, nil, nil, nil, nil
	t := jsonTree(s).(map[string]interface{})

	return len(t) > 1 || (len(t) == 1 && t["type"] != "object")
}

func (m *model) response(x *xOp, method string, u unit) error {
	status := strconv.Itoa(u.status)

	switch {
	case u.isDefault:
		status = "default"
	case u.status == 0:
		status = "200"
		u.status = 200
	case u.status < 6:
		status += "XX"
	}

	r := x.responses[status]
	if r == nil {
		r = &xResp{content: map[string]*xSchema{}, headers: map[string]xHeader{}}
		x.responses[status] = r
	}

	ct := u.contentType
	if i := strings.Index(ct, ";"); i >= 0 {
		ct = strings.TrimSpace(ct[:i])
	}

	head := strings.ToUpper(method) == http.MethodHead

	if u.structure != nil && !head {
		probe, probeDefs, err := m.reflect(u.structure, false)
		probe.Definitions = probeDefs
		if err == nil && len(probeDefs) == 0 {
			probe.Definitions = nil
		}

		if err != nil || describable(probe) {
			s, defs, err := m.reflect(u.structure, false, jsonschema.RootRef)
			if err != nil {
				return err
			}

			xs := m.xschema(s, defs)
			if m.ver == "3.0" {
				delete(xs.root.(map[string]interface{}), "nullable")
			}

			c := ct
			if c == "" {
				c = ctJSON
			}

			r.content[c] = xs

			if s.Description != nil && r.description == "" {
				r.description = *s.Description
			}
		}
	}

	if u.structure != nil {
		made := map[string]jsonschema.SchemaOrBool{}

		s, _, err := m.reflect(u.structure, false, noTags, jsonschema.InlineRefs, jsonschema.PropertyNameMapping(u.mapping[openapi.InHeader]), jsonschema.PropertyNameTag("header"), props(made))
		if err != nil {
			return err
		}

		if s.Description != nil && r.description == "" {
			r.description = *s.Description
		}

		fields, _ := locFields(u.structure, []string{"header"}, u.mapping[openapi.InHeader])

		for _, f := range fields {
			ps := made[f.name]
			if ps.TypeObject == nil {
				continue
			}

			h := xHeader{members: map[string]interface{}{}, schema: m.xschema(*ps.TypeObject, nil)}

			if d := ps.TypeObject.Description; d != nil && *d != "" {
				h.members["description"] = *d
			}

			if ps.TypeObject.Deprecated != nil {
				h.members["deprecated"] = *ps.TypeObject.Deprecated
			}

			for _, t := range []string{"required", "deprecated", "explode"} {
				boolTag(f.field, t, h.members, t)
			}

			r.headers[f.name] = h
		}
	}

	if !head {
		if u.structure != nil {
			for _, c := range contentTypeTags(u.structure) {
				if _, ok := r.content[c]; !ok {
					r.content[c] = m.text("")
				}
			}
		}

		if ct != "" && r.content[ct] == nil {
			r.content[ct] = m.text(u.format)
		}
	}

	if u.description != "" {
		r.description = u.description
	}

	if r.description == "" {
		r.description = http.StatusText(u.status)
	}

	return nil
}

// placeholders of a plain path.
func placeholders(path string) map[string]bool {
	res := map[string]bool{}

	for {
		i := strings.Index(path, "{")
		if i < 0 {
			return res
		}

		j := strings.Index(path[i:], "}")
		if j < 0 {
			return res
		}

		res[path[i+1:i+j]] = true
		path = path[i+j:]
	}
}

// expect tells what adding the operation has to document.
func (m *model) expect(o opDef) *xOp {
	x := &xOp{forbid: map[string]bool{}, body: map[string]*xSchema{}, responses: map[string]*xResp{}}

	for _, p := range o.presets {
		if p.ref != "" {
			x.paramRefs = append(x.paramRefs, p.ref)
		} else {
			x.params = append(x.params, xParam{in: p.in, name: p.name, preset: true})
		}
	}

	for _, u := range o.reqs {
		if err := m.request(x, o.method, u); err != nil {
			x.refused = err.Error()

			return x
		}
	}

	ph := placeholders(o.path)

	for _, p := range x.params {
		if p.in == "path" {
			if !ph[p.name] {
				x.refused = "no placeholder of " + p.name

				return x
			}

			delete(ph, p.name)
		}
	}

	if len(ph) > 0 {
		x.refused = "placeholder without parameter"

		return x
	}

	for _, u := range o.resps {
		if err := m.response(x, o.method, u); err != nil {
			x.refused = err.Error()

			return x
		}
	}

	if len(x.responses) == 0 {
		x.responses["204"] = &xResp{description: "No Content"}
	}

	return x
}
