package checks

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/corpus/special"
	"verif/harness/mon"
	"verif/harness/oas"
)

// fill puts random values into everything that can be reached.
func fill(r *rand.Rand, v reflect.Value, depth int) {
	if !v.CanSet() || depth > 4 || v.Type() == reflect.TypeOf(time.Time{}) {
		return
	}

	switch v.Kind() {
	case reflect.Ptr:
		if v.Type().Elem().Kind() != reflect.Interface && v.Type().Elem().Kind() != reflect.Ptr && r.Intn(3) != 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(r, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Interface || depth > 3 {
			return
		}

		n := r.Intn(3)
		v.Set(reflect.MakeSlice(v.Type(), n, n+2))

		for i := 0; i < n; i++ {
			fill(r, v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.Type().Key().Kind() != reflect.String || v.Type().Elem().Kind() == reflect.Interface || depth > 3 {
			return
		}

		v.Set(reflect.MakeMap(v.Type()))

		for i := r.Intn(3); i > 0; i-- {
			e := reflect.New(v.Type().Elem()).Elem()
			fill(r, e, depth+1)
			v.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", i)).Convert(v.Type().Key()), e)
		}
	case reflect.String:
		v.SetString([]string{"", "text", "red", "200"}[r.Intn(4)])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(100)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.Intn(100)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(100)) / 4)
	}
}

// filled makes a structure of the same type with values.
func filled(r *rand.Rand, s interface{}) interface{} {
	if s == nil || isVirtual(s) {
		return s // Virtual structures without a name are numbered by jsonschema-go across the process.
	}

	t := reflect.TypeOf(s)
	isPtr := t.Kind() == reflect.Ptr

	if isPtr {
		t = t.Elem()
	}

	if t.Kind() != reflect.Struct && t.Kind() != reflect.Map && t.Kind() != reflect.Slice {
		return s
	}

	v := reflect.New(t)

	if reflect.TypeOf(s).String() != "" && t.Kind() == reflect.Struct || r.Intn(2) == 0 && t.Name() == "" {
		fill(r, v.Elem(), 0)
	} else {
		return s
	}

	if isPtr {
		return v.Interface()
	}

	return v.Elem().Interface()
}

type closeNames struct {
	Lower string `header:"x-name" json:"name" description:"Lower."`
	Upper int    `header:"X-Name" json:"Name" description:"Upper."`
	Mixed []int  `header:"X-name" json:"NAME" required:"true"`
	C     string `json:"c"`
	D     int    `json:"d" description:"D"`
}

// scenario is a sequence of calls that builds a document.
type scenario struct {
	ver   string
	setup setup
	doc   func(ss openapi.SpecSchema)
	ops   []opDef
	decor []func(oc openapi.OperationContext)
}

func newScenario(r *rand.Rand, ver string) *scenario {
	s := &scenario{ver: ver, setup: setups[0], doc: decorateDoc(r)}
	if r.Intn(2) == 0 {
		s.setup = setups[r.Intn(len(setups))]
	}

	g := newOpGen(r)
	g.reject = newModel(ver, s.setup).roleClash

	pool := g.namePool(clashing())

	n := 1 + r.Intn(7)
	for i := 0; i < n; i++ {
		o := g.op()
		if r.Intn(3) == 0 {
			o = g.historyOp(pool)
		}

		// Several methods of a path.
		if i > 0 && r.Intn(4) == 0 && len(s.ops[i-1].reqs) == 0 && len(o.reqs) == 0 && !strings.EqualFold(o.method, s.ops[i-1].method) {
			o.path, o.pattern = s.ops[i-1].path, s.ops[i-1].pattern
		} else if ver == "3.1" && r.Intn(6) == 0 {
			o.webhook = true
		}

		// Names that are nearly or entirely the same.
		if r.Intn(8) == 0 {
			o.resps = append(o.resps, unit{structure: g.value(reflect.TypeOf(closeNames{})), status: statuses[r.Intn(len(statuses))]})
		} else if r.Intn(8) == 0 {
			o.resps = append(o.resps, unit{structure: closeNames{}, status: 200, mapping: map[openapi.In]map[string]string{openapi.InHeader: {"C": "mapped", "D": "mapped", "Lower": "Mapped"}}})
		} else if r.Intn(8) == 0 {
			o.reqs = append(o.reqs, unit{structure: closeNames{}, mapping: map[openapi.In]map[string]string{openapi.InFormData: {"C": "mapped", "D": "mapped", "Lower": "Mapped"}}})
		} else if r.Intn(8) == 0 {
			o.resps = append(o.resps, unit{structure: [][]special.Kept{}, status: 418})
		}

		for _, us := range [][]unit{o.reqs, o.resps} {
			for k := range us {
				if r.Intn(2) == 0 {
					us[k].structure = filled(r, us[k].structure)
				}

				// Mappings may name fields that a structure does not have.
				for _, m := range us[k].mapping {
					if r.Intn(2) == 0 {
						m["Absent"] = "absent"
					}
				}
			}
		}

		s.ops = append(s.ops, o)
		s.decor = append(s.decor, decorateOp(r))
	}

	// No operation twice.
	seen := map[string]bool{}

	for i := 0; i < len(s.ops); i++ {
		k := strings.ToLower(s.ops[i].method) + s.ops[i].path
		if seen[k] {
			s.ops = append(s.ops[:i:i], s.ops[i+1:]...)
			s.decor = append(s.decor[:i:i], s.decor[i+1:]...)
			i--
		}

		seen[k] = true
	}

	return s
}

func (s *scenario) describe() map[string]interface{} {
	var ops []interface{}

	for _, o := range s.ops {
		ops = append(ops, describeOp(o))
	}

	return map[string]interface{}{"version": s.ver, "setup": s.setup.name, "operations": ops}
}

// build makes the calls in an order.
func (s *scenario) build(order []int, each func(i int, oc openapi.OperationContext, add func() error) error) (*target, []error) {
	t := newTarget(s.ver, s.setup)
	s.doc(t.refl.SpecSchema())
	t.spareOptions()

	errs := make([]error, len(s.ops))

	for _, i := range order {
		o := s.ops[i]

		oc, err := t.context(o)
		if err != nil {
			errs[i] = err

			continue
		}

		s.decor[i](oc)

		add := func() error {
			if o.webhook {
				return t.r31.AddWebhook(oc)
			}

			return t.refl.AddOperation(oc)
		}

		if each != nil {
			errs[i] = each(i, oc, add)
		} else {
			errs[i] = add()
		}
	}

	return t, errs
}

func (s *scenario) order() []int {
	res := make([]int, len(s.ops))
	for i := range res {
		res[i] = i
	}

	return res
}

// encode gives both forms.
func encodeBoth(sp spec) (js, ya []byte, err error) {
	if js, err = sp.MarshalJSON(); err != nil {
		return nil, nil, err
	}

	ya, err = sp.MarshalYAML()

	return js, ya, err
}

func scenarioDigest(seed int64, i int) (string, error) {
	s := newScenario(rand.New(rand.NewSource(seed*1000003+int64(i))), []string{"3.0", "3.1"}[i%2])
	t, errs := s.build(s.order(), nil)

	js, ya, err := encodeBoth(t.doc())
	if err != nil {
		return "", err
	}

	h := sha256.New()
	h.Write(js)
	h.Write(ya)

	for _, e := range errs {
		fmt.Fprintln(h, e)
	}

	return hex.EncodeToString(h.Sum(nil)), nil
}

const digestEnv = "VERIF_DIGESTS"

// otherProcess compares documents with those that another process builds by the same calls.
func otherProcess(c *mon.Ctx) {
	n := 150
	if c.Tier == "thorough" {
		n = 2500
	}

	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d %d", digestEnv, c.Seed, n), "GOMAXPROCS=2")
	cmd.Stderr = os.Stderr

	out, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "other process:", err)

		return // Inconclusive: nothing is counted.
	}

	sc := bufio.NewScanner(bytes.NewReader(out))

	// The other process goes from the last one to the first, so that they have different pasts.
	theirs := map[int]string{}
	for i := n - 1; sc.Scan(); i-- {
		theirs[i] = sc.Text()
	}

	for i := 0; i < n && len(theirs) == n; i++ {
		d, err := scenarioDigest(c.Seed, i)
		if err != nil {
			d = "error " + err.Error()
		}

		c.Count("documents_of_another_process", 1)

		if d != theirs[i] {
			c.Violate("another process builds another document by the same calls", newScenario(rand.New(rand.NewSource(c.Seed*1000003+int64(i))), []string{"3.0", "3.1"}[i%2]).describe())
		}
	}
}

var suffixRe = regexp.MustCompile(`Type\d+$`)

// canonical names components by types.
func canonical(doc map[string]interface{}, own *owners) (res map[string]interface{}, clash bool) {
	ids := map[string][]string{}
	for id, n := range own.nameOf {
		ids[n] = append(ids[n], id)
	}

	name := func(n string) string {
		l := ids[n]
		if len(l) == 0 {
			if suffixRe.MatchString(n) {
				clash = true
			}

			return n
		}

		sortStrs(l)

		return strings.Join(l, "|")
	}

	var walk func(v interface{}) interface{}

	walk = func(v interface{}) interface{} {
		switch x := v.(type) {
		case map[string]interface{}:
			res := map[string]interface{}{}

			for k, e := range x {
				res[k] = walk(e)
			}

			if n, ok := refName(x); ok {
				res["$ref"] = name(n)
			}

			return res
		case []interface{}:
			res := make([]interface{}, len(x))
			for i, e := range x {
				res[i] = walk(e)
			}

			return res
		}

		return v
	}

	res = walk(doc).(map[string]interface{})

	if comps := asMap(asMap(res["components"])["schemas"]); comps != nil {
		named := map[string]interface{}{}
		for n, s := range comps {
			named[name(n)] = stableComp(s)
		}

		res["components"].(map[string]interface{})["schemas"] = named
	}

	return res, clash
}

// alike compares and tolerates what jsonschema-go does depending on earlier uses of a type.
func alike(a, b interface{}, leaks *int) bool {
	if ma, ok := a.(map[string]interface{}); ok {
		mb, ok := b.(map[string]interface{})
		if !ok {
			return false
		}

		if leaked(ma, mb, "->") {
			*leaks++

			return true
		}

		for _, k := range keysOf(ma, mb) {
			va, okA := ma[k]
			vb, okB := mb[k]

			if okA != okB || !alike(va, vb, leaks) {
				return false
			}
		}

		return true
	}

	if la, ok := a.([]interface{}); ok {
		lb, ok := b.([]interface{})
		if !ok || len(la) != len(lb) {
			return false
		}

		for i := range la {
			if !alike(la[i], lb[i], leaks) {
				return false
			}
		}

		return true
	}

	return reflect.DeepEqual(a, b)
}

func determinismCase(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]

	if c.Idx%8 == 7 {
		decodedReads(c, []string{"3.0", "3.1"}[c.Idx/8%2])

		return
	}

	s := newScenario(r, ver)
	det := s.describe()

	var (
		t      *target
		errs   []error
		js, ya []byte
		err    error
	)

	given := s.given()

	defer func() {
		for k, u := range s.given() {
			if d := given[k].diff(u); d != "" {
				c.Violate(fmt.Sprintf("%s: describing and reading a document changed the caller's %s", s.ver, d), det)
			}
		}

		c.Count("given_values_watched", len(given))
	}()

	watch := &watcher{c: c, det: det}

	if !c.Guard("building a document", det, func() {
		t, errs = s.build(s.order(), watch.each(s))
		js, ya, err = encodeBoth(t.doc())
	}) {
		return
	}

	if err != nil {
		c.Violate(ver+": document can not be encoded: "+err.Error(), det)

		return
	}

	// Again.
	c.Guard("building a document again", det, func() {
		t2, errs2 := s.build(s.order(), nil)

		js2, ya2, err := encodeBoth(t2.doc())
		if err != nil {
			c.Violate(ver+": the same calls make a document that can not be encoded: "+err.Error(), det)

			return
		}

		if !bytes.Equal(js, js2) {
			c.Violate(ver+": the same calls make another JSON document: "+firstDiff(treeOf(js), treeOf(js2), ""), det)
		}

		if !bytes.Equal(ya, ya2) {
			c.Violate(ver+": the same calls make another YAML document", det)
		}

		if fmt.Sprint(errs) != fmt.Sprint(errs2) {
			c.Violate(fmt.Sprintf("%s: the same calls return %v and %v", ver, errs, errs2), det)
		}

		c.Count("documents_repeated", 1)
	})

	if len(s.ops) > 1 {
		c.Guard("building a document in another order", det, func() { permuted(c, s, t, errs, js, det) })
	}

	reads(c, s, t, errs, js, ya, det)

	c.Eval(fmt.Sprintf("%s %s %d operations %d bytes", ver, s.setup.name, len(s.ops), len(js)/500), len(js) > 300)

	if c.WantSample() && len(s.ops) > 2 {
		c.Sample(map[string]interface{}{"scenario": det, "json_bytes": len(js), "yaml_bytes": len(ya), "caller_values_watched": watch.n})
	}
}

func permuted(c *mon.Ctx, s *scenario, t *target, errs []error, js []byte, det interface{}) {
	order := c.R.Perm(len(s.ops))
	t2, errs2 := s.build(order, nil)

	if fmt.Sprint(errs) != fmt.Sprint(errs2) {
		c.Violate(fmt.Sprintf("%s: operations in another order return %v instead of %v", s.ver, errs2, errs), det)

		return
	}

	js2, err := t2.doc().MarshalJSON()
	if err != nil {
		c.Violate(s.ver+": operations in another order make a document that can not be encoded: "+err.Error(), det)

		return
	}

	c.Count("documents_permuted", 1)

	if bytes.Equal(js, js2) {
		c.Count("permuted_bytes_equal", 1)

		return
	}

	m := newModel(s.ver, s.setup)

	a, b := asMap(treeOf(js)), asMap(treeOf(js2))
	ownA, ownB := newOwners(), newOwners()

	for i, o := range s.ops {
		if errs[i] != nil {
			continue
		}

		x := m.expect(o)
		if x.refused != "" {
			continue
		}

		for _, d := range []struct {
			doc map[string]interface{}
			own *owners
		}{{a, ownA}, {b, ownB}} {
			cmp := newComparer(d.doc, d.own, func(string) {})
			op := findOp(d.doc, o)
			cmp.params(x, op)
			cmp.body(x, op)
			cmp.responses(x, op)
		}
	}

	ca, clash := canonical(a, ownA)
	cb, clash2 := canonical(b, ownB)

	if clash || clash2 {
		c.Count("permuted_with_unowned_names", 1)

		return
	}

	leaks := 0
	if !alike(ca, cb, &leaks) {
		c.Violate(fmt.Sprintf("%s: operations in the order %v make another document: %s", s.ver, order, firstDiff(ca, cb, "")), det)
	}

	c.Count("permuted_compared_by_type", 1)
	c.Count("nullability_leaks", leaks)
}

// watcher watches values of the caller.
type watcher struct {
	c   *mon.Ctx
	det interface{}
	n   int
}

type unitCopy struct {
	structure reflect.Value
	mapping   map[openapi.In]map[string]string
	rest      openapi.ContentUnit
}

var allIn = []openapi.In{openapi.InPath, openapi.InQuery, openapi.InHeader, openapi.InCookie, openapi.InBody, openapi.InFormData}

func copyUnit(cu openapi.ContentUnit) unitCopy {
	res := unitCopy{mapping: map[openapi.In]map[string]string{}}

	if cu.Structure != nil {
		res.structure = deepCopy(reflect.ValueOf(cu.Structure))
	}

	for _, in := range allIn {
		if m := cu.FieldMapping(in); m != nil {
			res.mapping[in] = map[string]string{}
			for k, v := range m {
				res.mapping[in][k] = v
			}
		}
	}

	res.rest = openapi.ContentUnit{ContentType: cu.ContentType, Format: cu.Format, HTTPStatus: cu.HTTPStatus, IsDefault: cu.IsDefault, Description: cu.Description}

	return res
}

// given copies structures and mappings of the caller, as they are before any call of the library.
func (s *scenario) given() (res []unitCopy) {
	for _, o := range s.ops {
		for _, l := range [][]unit{o.reqs, o.resps} {
			for _, u := range l {
				uc := unitCopy{mapping: map[openapi.In]map[string]string{}}

				if u.structure != nil {
					uc.structure = deepCopy(reflect.ValueOf(u.structure))
				}

				for in, m := range u.mapping {
					uc.mapping[in] = map[string]string{}
					for k, v := range m {
						uc.mapping[in][k] = v
					}
				}

				res = append(res, uc)
			}
		}
	}

	return res
}

func (u unitCopy) diff(v unitCopy) string {
	switch {
	case u.structure.IsValid() != v.structure.IsValid(), u.structure.IsValid() && !reflect.DeepEqual(u.structure.Interface(), v.structure.Interface()):
		return "structure"
	case !reflect.DeepEqual(u.mapping, v.mapping):
		return "field mapping"
	case !reflect.DeepEqual(u.rest, v.rest):
		return "content unit"
	}

	return ""
}

func optPtrs(o []func(*jsonschema.ReflectContext)) (res []uintptr) {
	for _, f := range o[:cap(o)] {
		res = append(res, reflect.ValueOf(f).Pointer())
	}

	return res
}

// spareOptions gives options of the caller room for more, appending to them would write there.
func (t *target) spareOptions() {
	jr := t.refl.JSONSchemaReflector()
	t.opts = make([]func(*jsonschema.ReflectContext), len(jr.DefaultOptions), len(jr.DefaultOptions)+8)
	copy(t.opts, jr.DefaultOptions)
	jr.DefaultOptions = t.opts
	t.ptrs = optPtrs(t.opts)
}

func (t *target) optionsKept() bool {
	jr := t.refl.JSONSchemaReflector()

	return len(jr.DefaultOptions) == len(t.opts) && reflect.DeepEqual(optPtrs(t.opts), t.ptrs) && reflect.DeepEqual(optPtrs(jr.DefaultOptions), t.ptrs)
}

// each adds an operation and compares values of the caller before and after.
func (w *watcher) each(s *scenario) func(i int, oc openapi.OperationContext, add func() error) error {
	return func(i int, oc openapi.OperationContext, add func() error) error {
		var before []unitCopy

		units := func() (res []openapi.ContentUnit) {
			return append(append(res, oc.Request()...), oc.Response()...)
		}

		own := func() (res []unitCopy) {
			for _, l := range [][]unit{s.ops[i].reqs, s.ops[i].resps} {
				for _, u := range l {
					res = append(res, copyUnit(u.content()))
				}
			}

			return res
		}

		for _, u := range units() {
			before = append(before, copyUnit(u))
		}

		ownBefore := own()
		method, pattern := oc.Method(), oc.PathPattern()
		info := fmt.Sprint(oc.Tags(), oc.ID(), oc.Summary(), oc.Description(), oc.IsDeprecated())

		err := add()

		after := units()
		if len(after) != len(before) {
			w.c.Violate(s.ver+": content units of the context are other ones after adding", w.det)

			return err
		}

		for k, u := range after {
			w.n++

			if d := before[k].diff(copyUnit(u)); d != "" {
				w.c.Violate(fmt.Sprintf("%s: adding the operation changed the %s of a content unit", s.ver, d), w.det)
			}
		}

		for k, u := range own() {
			if d := ownBefore[k].diff(u); d != "" {
				w.c.Violate(fmt.Sprintf("%s: adding the operation changed the caller's %s", s.ver, d), w.det)
			}
		}

		if oc.Method() != method || oc.PathPattern() != pattern {
			w.c.Violate(s.ver+": adding the operation changed method or path pattern of its context", w.det)
		}

		if now := fmt.Sprint(oc.Tags(), oc.ID(), oc.Summary(), oc.Description(), oc.IsDeprecated()); now != info {
			w.c.Violate(fmt.Sprintf("%s: adding the operation changed its info from %s to %s", s.ver, info, now), w.det)
		}

		w.c.Count("caller_units_watched", len(after))

		return err
	}
}

// exportAll exports every component and content schema.
func (t *target) exportAll() (n int) {
	if t.r3 != nil {
		if t.r3.SpecEns().Components == nil || t.r3.Spec.Components.Schemas == nil {
			return 0
		}

		for name, s := range t.r3.SpecEns().Components.Schemas.MapOfSchemaOrRefValues {
			s := s
			js := s.ToJSONSchema(t.r3.Spec)
			_, _ = json.Marshal(js)

			ref := openapi3.SchemaOrRef{}
			ref.WithSchemaReference(openapi3.SchemaReference{Ref: compPrefix + name})
			_ = ref.ToJSONSchema(t.r3.Spec)
			_, _ = t.r3.ResolveJSONSchemaRef(compPrefix + name)
			n++
		}

		return n
	}

	if t.r31.SpecEns().Components == nil {
		return 0
	}

	for name, s := range t.r31.SpecEns().Components.Schemas {
		js := openapi31.ToJSONSchema(s, t.r31.Spec)
		_, _ = json.Marshal(js)
		_ = openapi31.ToJSONSchema(map[string]interface{}{"$ref": compPrefix + name}, t.r31.Spec)
		_, _ = t.r31.ResolveJSONSchemaRef(compPrefix + name)
		n++
	}

	return n
}

var keptState = special.KeptState()

// reads reads a document in all ways and looks for changes.
func reads(c *mon.Ctx, s *scenario, t *target, errs []error, js, ya []byte, det interface{}) {
	doc := reflect.ValueOf(t.doc())
	before := deepCopy(doc)

	if !t.optionsKept() {
		c.Violate(s.ver+": adding operations changed options of the caller", det)
	}

	unchanged := func(after string) bool {
		c.Count("reads_watched", 1)

		if !reflect.DeepEqual(before.Interface(), doc.Interface()) {
			c.Violate(s.ver+": "+after+" changed the document", det)

			return false
		}

		return true
	}

	same := func(after string) bool {
		js2, ya2, err := encodeBoth(t.doc())
		if err != nil || !bytes.Equal(js, js2) || !bytes.Equal(ya, ya2) {
			c.Violate(fmt.Sprintf("%s: document is encoded differently after %s: %s (%v)", s.ver, after, firstDiff(treeOf(js), treeOf(js2), ""), err), det)

			return false
		}

		return unchanged(after)
	}

	if now := special.KeptState(); now != keptState {
		c.Violate(s.ver+": a schema that a type keeps is changed: "+firstDiff(treeOf([]byte(keptState)), treeOf([]byte(now)), ""), det)
	}

	c.Guard("reading a document", det, func() {
		if !same("encoding") {
			return
		}

		ss := t.refl.SpecSchema()
		_ = ss.Title() + ss.Description() + ss.Version()

		if !unchanged("reading the info") {
			return
		}

		c.Count("schemas_exported", t.exportAll())

		if !same("export of schemas") {
			return
		}

		for i, o := range s.ops {
			if errs[i] != nil {
				continue
			}

			cb := func(_ openapi.In, _ string, js *jsonschema.SchemaOrBool, _ bool) error {
				_, _ = json.Marshal(js)

				return nil
			}

			for _, u := range o.reqs {
				cu := u.content()
				was := copyUnit(cu)
				_ = t.refl.WalkRequestJSONSchemas(o.method, cu, cb, nil)

				if d := was.diff(copyUnit(cu)); d != "" {
					c.Violate(s.ver+": walking changed the caller's "+d, det)
				}

				c.Count("units_walked", 1)
			}

			for _, u := range o.resps {
				// Walking does not know the method, bodies of responses to HEAD are not documented.
				if strings.EqualFold(o.method, "head") {
					break
				}

				cu := u.content()
				was := copyUnit(cu)
				_ = t.refl.WalkResponseJSONSchemas(cu, cb, nil)

				if d := was.diff(copyUnit(cu)); d != "" {
					c.Violate(s.ver+": walking changed the caller's "+d, det)
				}

				c.Count("units_walked", 1)
			}
		}

		js2, err := t.doc().MarshalJSON()
		if err != nil || !bytes.Equal(js, js2) {
			leaks := 0
			a, b := asMap(treeOf(js)), asMap(treeOf(js2))
			a, _ = canonical(a, newOwners())
			b, _ = canonical(b, newOwners())

			if !alike(a, b, &leaks) {
				c.Violate(fmt.Sprintf("%s: walking units of operations changed the document: %s (%v)", s.ver, firstDiff(a, b, ""), err), det)
			}
		}

		if !t.optionsKept() {
			c.Violate(s.ver+": walking changed options of the caller", det)
		}
	})
}

// decodedReads reads a decoded document.
func decodedReads(c *mon.Ctx, ver string) {
	cov := map[string]int{}
	doc := genDoc(c.R, ver, c.Idx/16, cov, true)
	in := oas.Encode(doc, nil)
	in0 := append([]byte{}, in...)

	c.Guard("reading a decoded document", string(in), func() {
		t := newTarget(ver, setups[0])
		sp, sp2 := t.doc(), newSpec(ver)

		if t.r3 != nil {
			*t.r3.Spec = openapi3.Spec{}
		} else {
			*t.r31.Spec = openapi31.Spec{}
		}

		if sp.UnmarshalJSON(in) != nil || sp2.UnmarshalJSON(in) != nil {
			return // Known findings of C01 and C02.
		}

		if !bytes.Equal(in, in0) {
			c.Violate(ver+": decoding changed the caller's bytes", string(in0))
		}

		if !reflect.DeepEqual(sp, sp2) {
			c.Violate(ver+": decoding the same bytes twice gives different documents", string(in))
		}

		before := deepCopy(reflect.ValueOf(sp))

		js, ya, err := encodeBoth(sp)
		if err != nil {
			return // Known findings.
		}

		t.exportAll()

		js2, ya2, err := encodeBoth(sp)
		if err != nil || !bytes.Equal(js, js2) || !bytes.Equal(ya, ya2) {
			c.Violate(ver+": a decoded document is encoded differently the second time", string(in))
		}

		if !reflect.DeepEqual(before.Interface(), sp) {
			c.Violate(ver+": encoding and exporting changed a decoded document", string(in))
		}

		c.Count("decoded_documents_watched", 1)
		c.Eval(fmt.Sprintf("%s decoded %d bytes", ver, len(in)/200), len(in) > 300)
	})
}

func init() {
	if v := os.Getenv(digestEnv); v != "" {
		var (
			seed int64
			n    int
		)

		if _, err := fmt.Sscan(v, &seed, &n); err != nil {
			panic(err)
		}

		for i := n - 1; i >= 0; i-- {
			d, err := scenarioDigest(seed, i)
			if err != nil {
				d = "error " + err.Error()
			}

			fmt.Println(d)
		}

		os.Exit(0)
	}

	register(&mon.Check{
		ID:    "C20",
		Rule:  "random sequences of calls (document details, operations with filled structures, all reflector options, coinciding names, webhooks) are made twice and once in another process: JSON, YAML and errors byte by byte; and in a random other order: documents with components named by their types; deep copies of documents, structures, mappings, content units and options are compared before and after adding, encoding, reading, exporting and walking; decoded documents too",
		Level: "exploration",
		Quick: 4000, Thorough: 40000,
		Fixed: otherProcess,
		Rare:  []mon.Rare{{Counter: "nullability_leaks", Of: "documents_permuted", OneOf: 100, What: "nullability depends on the order of operations"}},
		Case:  determinismCase,
		Need: map[string]int{"documents_repeated": 1000, "documents_permuted": 500, "permuted_compared_by_type": 30, "documents_of_another_process": 100, "caller_units_watched": 2000, "given_values_watched": 2000,
			"reads_watched": 2000, "units_walked": 1000, "decoded_documents_watched": 50},
	})
}
