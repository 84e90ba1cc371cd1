// Package desc generates descriptions of request and response structures.
package desc

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"mime/multipart"
	"reflect"
	"strconv"
	"strings"
	"time"

	adto "verif/harness/corpus/a/dto"
	bdto "verif/harness/corpus/b/dto"
	"verif/harness/corpus/special"
)

// Ty is a type with its source.
type Ty struct {
	Src string
	T   reflect.Type
}

func ty(src string, v interface{}) Ty { return Ty{src, reflect.TypeOf(v).Elem()} }

// Ptr makes a pointer type.
func (t Ty) Ptr() Ty { return Ty{"*" + t.Src, reflect.PtrTo(t.T)} }

// Slice makes a slice type.
func (t Ty) Slice() Ty { return Ty{"[]" + t.Src, reflect.SliceOf(t.T)} }

// Map makes a map type.
func (t Ty) Map() Ty { return Ty{"map[string]" + t.Src, reflect.MapOf(reflect.TypeOf(""), t.T)} }

var scalars = []Ty{
	ty("string", new(string)), ty("int", new(int)), ty("int32", new(int32)), ty("int64", new(int64)), ty("uint", new(uint)), ty("uint8", new(uint8)),
	ty("uint32", new(uint32)), ty("uint64", new(uint64)), ty("float32", new(float32)), ty("float64", new(float64)), ty("bool", new(bool)), ty("int8", new(int8)),
	ty("string", new(string)), ty("string", new(string)), ty("int", new(int)),
}

var named = []Ty{
	ty("special.Color", new(special.Color)), ty("special.Level", new(special.Level)), ty("special.Plain", new(special.Plain)),
	ty("special.Count", new(special.Count)), ty("special.Ratio", new(special.Ratio)), ty("special.Token", new(special.Token)), ty("special.Money", new(special.Money)),
}

var objects = []Ty{ty("special.Filter", new(special.Filter)), ty("special.Sort", new(special.Sort)), ty("special.Nested", new(special.Nested)), ty("special.Cond", new(special.Cond))}

var files = []Ty{
	ty("multipart.File", new(multipart.File)), ty("*multipart.FileHeader", new(*multipart.FileHeader)),
	ty("[]multipart.File", new([]multipart.File)), ty("[]*multipart.FileHeader", new([]*multipart.FileHeader)), ty("*multipart.File", new(*multipart.File)),
}

var timeTy = ty("time.Time", new(time.Time))

func collect(pkg string, vs []interface{}) []Ty {
	var res []Ty

	for _, v := range vs {
		t := reflect.TypeOf(v)
		src := t.String()
		src = strings.ReplaceAll(src, "verif/harness/corpus/special.", "special.")

		if pkg != "" {
			src = strings.ReplaceAll(src, "dto.", pkg+".")
		}

		res = append(res, Ty{src, t})
	}

	return res
}

// JSONTypes are named types with json tags only.
var JSONTypes = append(append(collect("", special.JSON), collect("adto", adto.JSON)...), collect("bdto", bdto.JSON)...)

func isStruct(t Ty) bool { return t.T.Kind() == reflect.Struct }

// Field describes a field.
type Field struct {
	Name     string
	Ty       Ty
	Tags     [][2]string
	Embedded bool
}

// Tag makes struct tag.
func (f Field) Tag() reflect.StructTag {
	var s []string
	for _, t := range f.Tags {
		s = append(s, t[0]+":"+strconv.Quote(t[1]))
	}

	return reflect.StructTag(strings.Join(s, " "))
}

// Struct describes a struct.
type Struct struct {
	Name   string
	Fields []Field

	// ForceBody and ForceJSON make the struct an enforcer, for sources only.
	ForceBody, ForceJSON bool

	// Whole is the source of the underlying type that is not a struct.
	Whole string
}

// Source prints type declaration.
func (s Struct) Source() string {
	var b strings.Builder

	fmt.Fprintf(&b, "// %s is generated.\ntype %s ", s.Name, s.Name)

	if s.Whole != "" {
		b.WriteString(s.Whole)
	} else {
		b.WriteString("struct {\n")

		for _, f := range s.Fields {
			n := f.Name + " "
			if f.Embedded {
				n = ""
			}

			fmt.Fprintf(&b, "\t%s%s `%s`\n", n, f.Ty.Src, f.Tag())
		}

		b.WriteString("}")
	}

	b.WriteString("\n\n")

	if s.ForceBody {
		fmt.Fprintf(&b, "// ForceRequestBody marks.\nfunc (%s) ForceRequestBody() {}\n\n", s.Name)
	}

	if s.ForceJSON {
		fmt.Fprintf(&b, "// ForceJSONRequestBody marks.\nfunc (%s) ForceJSONRequestBody() {}\n\n", s.Name)
	}

	return b.String()
}

// Type makes a dynamic type, embedded fields must have no methods.
func (s Struct) Type() reflect.Type {
	var fs []reflect.StructField

	for _, f := range s.Fields {
		sf := reflect.StructField{Name: f.Name, Type: f.Ty.T, Tag: f.Tag(), Anonymous: f.Embedded}
		if f.Name == "_" || (f.Name[0] >= 'a' && f.Name[0] <= 'z') {
			sf.PkgPath = "verif/harness/corpus/api"
		}

		fs = append(fs, sf)
	}

	return reflect.StructOf(fs)
}

// Gen generates.
type Gen struct {
	R   *rand.Rand
	Odd bool // collection formats also where OpenAPI has no such style

	Related bool // names that begin like others

	used   map[string]bool
	goName map[string]bool
	names  map[string][]string
	n      int
}

func (g *Gen) p(f float64) bool { return g.R.Float64() < f }

func (g *Gen) pick(s ...string) string { return s[g.R.Intn(len(s))] }

func (g *Gen) ty(ts []Ty) Ty { return ts[g.R.Intn(len(ts))] }

var words = strings.Fields("name kind owner state count total price label color note date flag token group unit level scope key value parent child first last next prev data info meta list page text user-id x_y filter[a] X-Trace")

func (g *Gen) field(f Field) Field {
	g.n++

	if f.Name == "" {
		f.Name = fmt.Sprintf("F%d", g.n)
	}

	return f
}

// related makes a name of a name that is there already.
func related(w, in string, g *Gen) string {
	names := g.names[in]
	if len(names) == 0 {
		return w
	}

	return names[g.R.Intn(len(names))] + g.pick("s", "-at", "Id", "_"+w)
}

func (g *Gen) name(in string) string {
	for {
		w := words[g.R.Intn(len(words))]
		if in == "path" || in == "json" {
			w = strings.Map(func(c rune) rune {
				if c == '[' || c == ']' {
					return '_'
				}

				return c
			}, w)
		}

		if g.p(0.15) {
			w += strconv.Itoa(g.R.Intn(10))
		}

		if g.Related && g.p(0.2) {
			w = related(w, in, g)
		}

		if g.Related && in == "header" && g.p(0.2) {
			w = g.pick("x-", "X_", "x-API-") + w
		}

		// Names of headers differ in more than letter case, other names may differ in nothing else.
		k := strings.ToLower(w)
		if in != "header" {
			k = w

			if g.p(0.12) {
				w = strings.ToUpper(w[:1]) + w[1:]
				k = w
			}
		}

		if in == "form" {
			k = "formData:" + k
		} else {
			k = in + ":" + k
		}

		if !g.used[k] {
			g.used[k] = true

			if g.Related {
				if g.names == nil {
					g.names = map[string][]string{}
				}

				g.names[in] = append(g.names[in], w)
			}

			return w
		}
	}
}

func (g *Gen) constraints(t Ty, param bool) [][2]string {
	var res [][2]string

	add := func(p float64, k string, vs ...string) {
		if g.p(p) {
			res = append(res, [2]string{k, g.pick(vs...)})
		}
	}

	k := t.T
	if k.Kind() == reflect.Ptr {
		k = k.Elem()
	}

	switch {
	case k.PkgPath() != "":
	case k.Kind() == reflect.String:
		add(.15, "minLength", "0", "1", "3")
		add(.15, "maxLength", "9", "100")
		add(.1, "pattern", "^[a-z]*$", "\\d+")
		add(.1, "format", "uuid", "email", "my-format")
		add(.12, "enum", "a,b", "x,y,z", `["p","q r"]`)
		add(.12, "default", "abc", "12", "null")
		add(.12, "example", "abc", "12")
		add(.05, "examples", `["p","q"]`)
		add(.04, "const", "fixed")
	case k.Kind() == reflect.Bool:
		add(.15, "default", "true", "false")
		add(.1, "example", "true")
	case k.Kind() == reflect.Slice || k.Kind() == reflect.Array:
		add(.15, "minItems", "0", "2")
		add(.15, "maxItems", "5", "10")
		add(.15, "uniqueItems", "true", "false")

		if k.Elem().Kind() == reflect.String && k.Elem().PkgPath() == "" {
			add(.15, "items.minLength", "2")
			add(.15, "items.enum", "a,b,c")
			add(.1, "items.pattern", "^x")
			add(.1, "default", "[a,b]", `["c"]`)
		}
	case k.Kind() == reflect.Map:
		add(.2, "minProperties", "1")
		add(.2, "maxProperties", "7")
	case k.Kind() == reflect.Struct:
	case k.Kind() == reflect.Float32 || k.Kind() == reflect.Float64:
		add(.15, "minimum", "-1.5", "0")
		add(.15, "maximum", "100.25", "1e6")
		add(.1, "multipleOf", "0.25")
		add(.1, "exclusiveMinimum", "-3.5")
		add(.1, "exclusiveMaximum", "777.5")
		add(.1, "default", "1.5", "2")
		add(.1, "example", "2.5")
	case k.Kind() == reflect.Interface:
	default:
		add(.15, "minimum", "-5", "0", "3")
		add(.15, "maximum", "100", "1000")
		add(.1, "multipleOf", "2", "5")
		add(.08, "exclusiveMinimum", "-3")
		add(.08, "exclusiveMaximum", "777")
		add(.1, "default", "4")
		add(.1, "example", "6")
		add(.1, "enum", "2,4,6")
	}

	add(.25, "required", "true", "true", "false")
	add(.3, "description", "Some text.", "Other text", "Ünïcode – text", `With "quotes" and \`)
	add(.08, "title", "The title")
	add(.1, "deprecated", "true", "false")

	if !param {
		add(.06, "nullable", "true", "false")
	}

	return res
}

func (g *Gen) paramType(in string) Ty {
	switch x := g.R.Float64(); {
	case x < .42:
		return g.ty(scalars)
	case x < .52:
		return g.ty(scalars).Ptr()
	case x < .64:
		t := g.ty(scalars)
		for t.Src == "uint8" {
			t = g.ty(scalars)
		}

		return t.Slice()
	case x < .76:
		t := g.ty(named)
		if g.p(.3) {
			t = t.Ptr()
		} else if g.p(.3) {
			t = t.Slice()
		}

		return t
	case x < .80:
		return timeTy
	case x < .83:
		return timeTy.Ptr()
	}

	if in != "query" {
		return g.ty(scalars)
	}

	switch x := g.R.Float64(); {
	case x < .3:
		return g.ty(scalars).Map()
	case x < .7:
		t := g.ty(objects)
		if g.p(.3) {
			t = t.Ptr()
		}

		return t
	default:
		for {
			t := g.ty(JSONTypes)
			if isStruct(t) && hasJSON(t.T) {
				if g.p(.3) {
					t = t.Ptr()
				}

				return t
			}
		}
	}
}

func hasJSON(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		if v := strings.Split(t.Field(i).Tag.Get("json"), ",")[0]; v != "" && v != "-" {
			return true
		}
	}

	return false
}

// Param makes a field for a parameter.
func (g *Gen) Param(in, name string) Field {
	if name == "" {
		name = g.name(in)
	}

	t := g.paramType(in)
	f := Field{Ty: t, Tags: append([][2]string{{in, name}}, g.constraints(t, true)...)}

	add := func(p float64, k string, vs ...string) {
		if g.p(p) {
			f.Tags = append(f.Tags, [2]string{k, g.pick(vs...)})
		}
	}

	et := t.T
	for et.Kind() == reflect.Slice || et.Kind() == reflect.Map || et.Kind() == reflect.Ptr {
		et = et.Elem()
	}

	inJSON := et.Kind() == reflect.Struct && hasJSON(et) && et != reflect.TypeOf(special.Cond{})

	last := func(k string) bool { return f.Tags[len(f.Tags)-1][0] == k }

	switch {
	case g.Odd && t.T.Kind() == reflect.Slice && g.p(.3):
		add(1, "collectionFormat", "csv", "ssv", "pipes", "multi")
	case in == "query" && inJSON:
		add(.2, "collectionFormat", "json")
	case in == "query":
		switch {
		case t.T.Kind() == reflect.Slice:
			add(.5, "collectionFormat", "csv", "ssv", "pipes", "multi", "json")
		case t.T.Kind() != reflect.Ptr:
			add(.03, "collectionFormat", "json")
		}

		if !last("collectionFormat") {
			if t.T.Kind() == reflect.Slice {
				add(.1, "style", "form", "spaceDelimited", "pipeDelimited")
				add(.1, "explode", "true", "false")
			}

			add(.04, "allowReserved", "true")
			add(.04, "allowEmptyValue", "true", "false")
		}
	case t.T.Kind() == reflect.Slice && !inJSON && in == "cookie":
		add(.5, "collectionFormat", "csv", "multi")
	case t.T.Kind() == reflect.Slice && !inJSON:
		add(.3, "collectionFormat", "csv")
	}

	if in != "query" && !inJSON && !last("collectionFormat") {
		if in == "path" {
			add(.06, "style", "simple", "label", "matrix")
		}

		add(.06, "explode", "true", "false")
	}

	return g.field(f)
}

// Junk makes a field that is documented nowhere.
func (g *Gen) Junk() Field {
	switch g.R.Intn(3) {
	case 0:
		return g.field(Field{Ty: g.ty(scalars)})
	case 1:
		return g.field(Field{Ty: g.ty(scalars), Tags: [][2]string{{g.pick("query", "header", "path", "json", "formData"), "-"}, {"description", "junk"}}})
	default:
		g.n++

		return Field{Name: fmt.Sprintf("f%d", g.n), Ty: g.ty(scalars), Tags: [][2]string{{g.pick("query", "header", "json"), "hidden"}}}
	}
}

// Forbid makes a field that configures the parent.
func (g *Gen) Forbid(in string) Field {
	return Field{Name: "_", Ty: Ty{"struct{}", reflect.TypeOf(struct{}{})}, Tags: [][2]string{{in, "_"}, {"additionalProperties", g.pick("false", "false", "true")}}}
}

func (g *Gen) jsonType() Ty {
	switch x := g.R.Float64(); {
	case x < .3:
		return g.ty(scalars)
	case x < .36:
		return g.ty(scalars).Ptr()
	case x < .44:
		return g.ty(scalars).Slice()
	case x < .48:
		return g.ty(scalars).Map()
	case x < .54:
		return g.ty(named)
	case x < .58:
		return timeTy
	case x < .60:
		return ty("interface{}", new(interface{}))
	case x < .62:
		return ty("json.RawMessage", new(json.RawMessage))
	case x < .64:
		return ty("[]byte", new([]byte))
	}

	t := g.ty(JSONTypes)

	switch g.R.Intn(7) {
	case 0:
		return t.Ptr()
	case 1:
		return t.Slice()
	case 2:
		return t.Map()
	case 3:
		return t.Ptr().Slice()
	}

	return t
}

// JSON makes a field for JSON bodies.
func (g *Gen) JSON() Field {
	t := g.jsonType()

	return g.field(Field{Ty: t, Tags: append([][2]string{{"json", g.name("json") + g.pick("", "", "", ",omitempty")}}, g.constraints(t, false)...)})
}

// Form makes a field of a form.
func (g *Gen) Form(tag string, file bool) Field {
	var t Ty

	switch x := g.R.Float64(); {
	case file:
		t = g.ty(files)
	case x < .5:
		t = g.ty(scalars)
	case x < .6:
		t = g.ty(scalars).Ptr()
	case x < .7:
		t = g.ty(scalars).Slice()
	case x < .8:
		t = g.ty(named)
	case x < .85:
		t = timeTy
	case x < .9:
		t = g.ty(scalars).Map()
	default:
		t = g.ty(objects)
		if g.p(.3) {
			t = t.Slice()
		}
	}

	if tag == "form" && !file && g.p(.5) {
		t = g.ty(scalars) // It is a query parameter, too.
	}

	return g.field(Field{Ty: t, Tags: append([][2]string{{tag, g.name(tag)}}, g.constraints(t, tag == "form")...)})
}

// Header makes a field for response header.
func (g *Gen) Header() Field {
	t := g.ty(scalars)

	switch x := g.R.Float64(); {
	case x < .12:
		t = t.Ptr()
	case x < .2:
		t = g.ty(named)
	case x < .25:
		t = t.Slice()
	case x < .3:
		t = timeTy
	}

	return g.field(Field{Ty: t, Tags: append([][2]string{{"header", g.name("header")}}, g.constraints(t, true)...)})
}

// Kinds of requests.
var Kinds = []string{"params", "json", "form", "file", "formtag", "force-json", "content-type", "junk", "mixed", "embedded"}

// Request makes a request structure, pathNames are parameters it has to have.
func (g *Gen) Request(kind string, pathNames []string, sources bool) Struct {
	g.used, g.names = map[string]bool{}, nil

	var s Struct

	add := func(f Field) { s.Fields = append(s.Fields, f) }

	for _, n := range pathNames {
		g.used["path:"+strings.ToLower(n)] = true

		add(g.Param("path", n))
	}

	params := func(max int) {
		for i := g.R.Intn(max + 1); i > 0; i-- {
			add(g.Param(g.pick("query", "query", "header", "cookie"), ""))
		}
	}
	jsons := func(min, max int) {
		for i := min + g.R.Intn(max-min+1); i > 0; i-- {
			add(g.JSON())
		}
	}

	if g.p(.15) {
		add(g.Junk())
	}

	if g.p(.15) {
		in := g.pick("query", "header", "cookie", "path")
		add(g.Forbid(in))
	}

	switch kind {
	case "params":
		params(6)
	case "json":
		params(3)
		jsons(1, 5)
	case "form", "file":
		params(3)

		n := 1 + g.R.Intn(4)
		at := g.R.Intn(n)

		for i := 0; i < n; i++ {
			add(g.Form("formData", kind == "file" && i == at))
		}

		if g.p(.3) {
			jsons(1, 2)
		}
	case "formtag":
		params(2)

		for i := 1 + g.R.Intn(4); i > 0; i-- {
			// The name must be free among the query parameters.
			for {
				f := g.Form("form", false)
				if k := "query:" + strings.ToLower(f.Tags[0][1]); !g.used[k] {
					g.used[k] = true
					add(f)

					break
				}
			}
		}

		if g.p(.3) {
			add(g.Form("formData", false))
		}
	case "force-json":
		params(2)
		add(g.Form("formData", g.p(.2)))
		jsons(1, 4)

		s.ForceJSON = true
	case "content-type":
		params(3)

		for _, ct := range []string{"text/csv", "text/plain", "application/xml"}[:1+g.R.Intn(3)] {
			t := ty("string", new(string))
			if g.p(.3) {
				t = ty("[]byte", new([]byte))
			}

			add(g.field(Field{Ty: t, Tags: [][2]string{{"contentType", ct}}}))
		}

		if g.p(.3) {
			jsons(1, 3)
		}
	case "junk":
		for i := g.R.Intn(4); i >= 0; i-- {
			add(g.Junk())
		}
	case "mixed":
		params(4)
		jsons(0, 3)

		if g.p(.3) {
			add(g.Form("formData", g.p(.3)))
		}
	case "embedded":
		params(2)

		if g.p(.7) {
			add(Field{Name: "Paging", Ty: ty("special.Paging", new(special.Paging)), Embedded: true})
		}

		if g.p(.7) {
			t := ty("special.Auth", new(special.Auth))
			if g.p(.4) {
				t = t.Ptr()
			}

			add(Field{Name: "Auth", Ty: t, Embedded: true})
		}

		if g.p(.6) {
			add(Field{Name: "Base", Ty: ty("special.Base", new(special.Base)), Embedded: true})
		}
	}

	if g.p(.1) {
		s.ForceBody = true
	}

	if !sources {
		s.ForceBody, s.ForceJSON = false, false
	}

	g.R.Shuffle(len(s.Fields), func(i, j int) { s.Fields[i], s.Fields[j] = s.Fields[j], s.Fields[i] })

	return s
}

// Response makes a response structure.
func (g *Gen) Response(sources bool) Struct {
	g.used, g.names = map[string]bool{}, nil

	var s Struct

	add := func(f Field) { s.Fields = append(s.Fields, f) }

	if g.p(.6) {
		for i := 1 + g.R.Intn(4); i > 0; i-- {
			add(g.JSON())
		}
	}

	if g.p(.5) {
		for i := 1 + g.R.Intn(3); i > 0; i-- {
			add(g.Header())
		}
	}

	if g.p(.12) {
		add(g.field(Field{Ty: ty("string", new(string)), Tags: [][2]string{{"contentType", g.pick("text/csv", "text/html", "application/json")}}}))
	}

	if g.p(.15) {
		add(g.Junk())
	}

	if g.p(.15) {
		add(Field{Name: "Meta", Ty: ty("special.Meta", new(special.Meta)), Embedded: true})
	}

	if g.p(.12) {
		add(Field{Name: "Base", Ty: ty("special.Base", new(special.Base)), Embedded: true})
	}

	if g.p(.15) {
		add(Field{Name: "_", Ty: Ty{"struct{}", reflect.TypeOf(struct{}{})}, Tags: [][2]string{{"description", g.pick("Described structure.", "A response.")}, {"title", "T"}}})
	}

	g.R.Shuffle(len(s.Fields), func(i, j int) { s.Fields[i], s.Fields[j] = s.Fields[j], s.Fields[i] })

	return s
}
