package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	"verif/harness/mon"
	"verif/harness/oas"
)

// builderMethod is a With<Member>, With<Member>Item or <Member>Ens method of an entity.
type builderMethod struct {
	typ   reflect.Type
	m     reflect.Method
	field reflect.StructField
	kind  string // set, item, ens
}

// builderMethods lists the builder methods of all entity types of both versions.
func builderMethods() []builderMethod {
	var res []builderMethod

	for _, t := range append(append([]reflect.Type{}, entities30...), entities31...) {
		p := reflect.PtrTo(t)

		for i := 0; i < p.NumMethod(); i++ {
			m := p.Method(i)

			if strings.HasPrefix(m.Name, "With") {
				name := m.Name[4:]
				if f, ok := t.FieldByName(name); ok && m.Type.NumIn() == 2 {
					res = append(res, builderMethod{t, m, f, "set"})

					continue
				}

				if f, ok := t.FieldByName(strings.TrimSuffix(name, "Item")); ok && m.Type.NumIn() == 3 && f.Type.Kind() == reflect.Map {
					res = append(res, builderMethod{t, m, f, "item"})

					continue
				}
			}

			if strings.HasSuffix(m.Name, "Ens") && m.Type.NumIn() == 1 {
				if f, ok := t.FieldByName(strings.TrimSuffix(m.Name, "Ens")); ok {
					res = append(res, builderMethod{t, m, f, "ens"})
				}
			}
		}
	}

	return res
}

// goPool holds values of entity types harvested from decoded documents.
type goPool struct {
	r *rand.Rand
	m map[reflect.Type][]reflect.Value
}

func (p *goPool) harvest(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && (v.Kind() == reflect.Ptr || v.Type().NumMethod() == 0) {
			p.harvest(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			p.harvest(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			p.harvest(v.MapIndex(k))
		}
	}

	if v.Kind() == reflect.Struct {
		p.m[v.Type()] = append(p.m[v.Type()], v)

		for i := 0; i < v.NumField(); i++ {
			p.harvest(v.Field(i))
		}
	}
}

// value makes a value of any type, from the pool or by construction.
func (p *goPool) value(t reflect.Type, depth int) reflect.Value {
	r := p.r

	if t.Kind() == reflect.Struct {
		if vs := p.m[t]; len(vs) > 0 && r.Intn(8) != 0 {
			return deepCopy(vs[r.Intn(len(vs))])
		}
	}

	v := reflect.New(t).Elem()

	if depth > 3 {
		return v
	}

	switch t.Kind() {
	case reflect.String:
		v.SetString([]string{"", "a", "x-y", "query", "header", "simple", "form", "string", "object", "bearer", "http", "ключ", "1.0"}[r.Intn(13)])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int64, reflect.Int:
		v.SetInt(int64(r.Intn(5)) - 1)
	case reflect.Float64:
		v.SetFloat(float64(r.Intn(9))/2 - 1)
	case reflect.Interface:
		if t.NumMethod() > 0 {
			if t == reflect.TypeOf((*reflect.Type)(nil)).Elem() {
				v.Set(reflect.ValueOf(reflect.TypeOf(1)))
			}

			return v
		}

		v.Set(reflect.ValueOf([]interface{}{"s", 1.5, true, map[string]interface{}{"k": "v"}, []interface{}{1.0, "b"}}[r.Intn(5)]))
	case reflect.Ptr:
		if r.Intn(3) > 0 {
			n := reflect.New(t.Elem())
			n.Elem().Set(p.value(t.Elem(), depth+1))
			v.Set(n)
		}
	case reflect.Slice:
		n := r.Intn(4)
		if n == 3 {
			return v // nil
		}

		v.Set(reflect.MakeSlice(t, 0, n))

		for i := 0; i < n; i++ {
			v.Set(reflect.Append(v, p.value(t.Elem(), depth+1)))
		}
	case reflect.Map:
		n := r.Intn(4)
		if n == 3 {
			return v
		}

		v.Set(reflect.MakeMap(t))

		for i := 0; i < n; i++ {
			v.SetMapIndex(p.key(t.Key()), p.value(t.Elem(), depth+1))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && r.Intn(3) == 0 {
				v.Field(i).Set(p.value(t.Field(i).Type, depth+1))
			}
		}
	}

	return v
}

func (p *goPool) key(t reflect.Type) reflect.Value {
	return reflect.ValueOf([]string{"x-a", "x-b", "200", "404", "x-e", "/p", "k", "K", "x-d", "x-c"}[p.r.Intn(10)]).Convert(t)
}

// deepCopy copies a value with everything it points to.
func deepCopy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()

	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			n.Set(reflect.New(v.Type().Elem()))
			n.Elem().Set(deepCopy(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			if v.Type().NumMethod() > 0 {
				n.Set(v)
			} else {
				n.Set(deepCopy(v.Elem()))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))

			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			n.Set(reflect.MakeMap(v.Type()))

			for _, k := range v.MapKeys() {
				n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		n.Set(v)

		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	default:
		n.Set(v)
	}

	return n
}

func same(a, b reflect.Value) bool { return reflect.DeepEqual(a.Interface(), b.Interface()) }

// memberName gives the JSON member of a field: "" for pattern maps and extension maps that are merged into the object.
func memberName(f reflect.StructField) string {
	tag := strings.Split(f.Tag.Get("json"), ",")[0]
	if tag == "-" {
		return ""
	}

	return tag
}

// encodeObj encodes an entity as a JSON object; nil if it can not be encoded.
func encodeObj(v reflect.Value) map[string]interface{} {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return nil
	}

	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}

	return m
}

func isCodec(t reflect.Type) bool {
	return reflect.PtrTo(t).Implements(typMarshaler) || t.Implements(typMarshaler)
}

var (
	c22Once sync.Once
	c22Docs [2][]reflect.Value
)

// c22Harvest decodes documents once for the value pools.
func c22Harvest() {
	r := rand.New(rand.NewSource(22))

	for vi, ver := range []string{"3.0", "3.1"} {
		for i := 0; i < 150; i++ {
			doc := genDoc(r, ver, i, nil, false)
			s := newSpec(ver)

			if err := s.UnmarshalJSON(oas.Encode(doc, nil)); err != nil {
				continue
			}

			c22Docs[vi] = append(c22Docs[vi], reflect.ValueOf(s).Elem())
		}
	}
}

func c22Case(c *mon.Ctx, methods []builderMethod) {
	c22Once.Do(c22Harvest)

	bm := methods[c.Idx%len(methods)]
	vi := 1

	if isVersion30(bm.typ) {
		vi = 0
	}

	p := &goPool{r: c.R, m: map[reflect.Type][]reflect.Value{}}
	for i := 0; i < 5; i++ {
		p.harvest(c22Docs[vi][c.R.Intn(len(c22Docs[vi]))])
	}

	id := bm.typ.String() + "." + bm.m.Name

	for rep := 0; rep < 8; rep++ {
		recv := reflect.New(bm.typ)
		if rep > 0 {
			recv.Elem().Set(p.value(bm.typ, 0))
		}

		if bm.kind == "item" && rep > 2 {
			// Several entries, one of which is going to be replaced.
			f := recv.Elem().FieldByIndex(bm.field.Index)
			m := reflect.MakeMap(f.Type())

			for k := 0; k < rep-1; k++ {
				m.SetMapIndex(p.key(f.Type().Key()), p.value(f.Type().Elem(), 1))
			}

			f.Set(m)
		}

		before := deepCopy(recv.Elem())
		bm.check(c, id, p, recv, before)
		c.Count("method:"+id, 1)
		c.Count("calls", 1)

		// A chain: a second call on the result.
		o := methods[c.R.Intn(len(methods))]
		for k := 0; k < 20 && o.typ != bm.typ; k++ {
			o = methods[(c.Idx+c.R.Intn(60)+len(methods)-30)%len(methods)]
		}

		if o.typ == bm.typ {
			before = deepCopy(recv.Elem())
			o.check(c, bm.typ.String()+"."+o.m.Name+" after "+bm.m.Name, p, recv, before)
			c.Count("chained", 1)
		}
	}
}

func (bm builderMethod) check(c *mon.Ctx, id string, p *goPool, recv, before reflect.Value) {
	var want reflect.Value // expected value of the field

	fv := func(v reflect.Value) reflect.Value { return v.FieldByIndex(bm.field.Index) }
	detail := func() interface{} {
		return map[string]interface{}{"before": fmt.Sprintf("%+v", before), "after": fmt.Sprintf("%+v", recv.Elem())}
	}

	c.Eval(fmt.Sprintf("%s %x", id, p.r.Int63()), true)

	switch bm.kind {
	case "set":
		in := bm.m.Type.In(1)

		var (
			args []reflect.Value
			val  reflect.Value
		)

		if bm.m.Type.IsVariadic() {
			val = p.value(in, 0)
			for i := 0; i < val.Len(); i++ {
				args = append(args, val.Index(i))
			}
		} else {
			val = p.value(in, 0)
			args = []reflect.Value{val}
		}

		keep := deepCopy(val)
		out := bm.m.Func.Call(append([]reflect.Value{recv}, args...))

		if len(out) != 1 || out[0].Kind() != reflect.Ptr || out[0].Pointer() != recv.Pointer() {
			c.Violate(id+" does not return its receiver", detail())
		}

		got := fv(recv.Elem())
		if got.Kind() == reflect.Ptr && in.Kind() != reflect.Ptr {
			if got.IsNil() {
				c.Violate(id+" left the member unset", detail())

				return
			}

			got = got.Elem()
		}

		if bm.m.Type.IsVariadic() {
			// No arguments may be stored as nil or empty.
			if keep.Len() == 0 {
				if got.Len() != 0 {
					c.Violate(id+" without values left values", detail())
				}
			} else if !same(got, keep) {
				c.Violate(id+" stored another value", detail())
			}
		} else if !same(got, keep) {
			c.Violate(id+" stored another value", detail())
		}

		if !same(val, keep) {
			c.Violate(id+" changed its argument", detail())
		}
	case "item":
		k, v := p.key(bm.m.Type.In(1)), p.value(bm.m.Type.In(2), 0)

		if keys := fv(before).MapKeys(); len(keys) > 1 && p.r.Intn(2) == 0 {
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
			k = keys[p.r.Intn(len(keys))]

			c.Count("replaced_entries", 1)
		}

		keep := deepCopy(v)
		exp := reflect.MakeMap(bm.field.Type)

		for _, bk := range fv(before).MapKeys() {
			exp.SetMapIndex(bk, fv(before).MapIndex(bk))
		}

		if v.Kind() == reflect.Interface && v.IsNil() {
			exp.SetMapIndex(k, reflect.Zero(bm.m.Type.In(2)))
		} else {
			exp.SetMapIndex(k, keep)
		}

		out := bm.m.Func.Call([]reflect.Value{recv, k, v})

		if len(out) != 1 || out[0].Kind() != reflect.Ptr || out[0].Pointer() != recv.Pointer() {
			c.Violate(id+" does not return its receiver", detail())
		}

		if !same(fv(recv.Elem()), exp) {
			c.Violate(id+" does not add or replace exactly one entry", detail())
		}
	case "ens":
		out := bm.m.Func.Call([]reflect.Value{recv})

		got := fv(recv.Elem())
		if got.Kind() != reflect.Ptr || out[0].Kind() != reflect.Ptr || got.IsNil() || out[0].Pointer() != got.Pointer() {
			// A member held by value: the result points into the receiver.
			if !(got.Kind() == reflect.Struct && out[0].Kind() == reflect.Ptr && out[0].Pointer() == got.Addr().Pointer()) {
				c.Violate(id+" does not return the installed member", detail())

				return
			}
		}

		if b := fv(before); b.Kind() == reflect.Ptr && b.IsNil() {
			if !got.Elem().IsZero() {
				c.Violate(id+" installed a non-empty member", detail())
			}
		} else if !same(got, b) {
			c.Violate(id+" changed an existing member", detail())
		}

		// Changes reach the object.
		if out[0].Elem().Kind() == reflect.Struct {
			nv := p.value(out[0].Elem().Type(), 0)
			old := deepCopy(out[0].Elem())
			out[0].Elem().Set(nv)

			if g := fv(recv.Elem()); !same(reflect.Indirect(g), nv) {
				c.Violate(id+": changes of the result do not reach the object", detail())
			}

			out[0].Elem().Set(old)
		}
	}

	_ = want

	// Every other member is as before.
	for i := 0; i < bm.typ.NumField(); i++ {
		f := bm.typ.Field(i)
		if f.Name == bm.field.Name || f.PkgPath != "" {
			continue
		}

		if !same(recv.Elem().Field(i), before.Field(i)) {
			c.Violate(id+" changed another member: "+f.Name, detail())
		}
	}

	// The encoded object shows the value under the member, and everything else as before.
	if !isCodec(bm.typ) {
		return
	}

	name := memberName(bm.field)
	mb, ma := encodeObj(deepCopyPtr(before)), encodeObj(recv)

	if ma == nil || mb == nil {
		c.Count("not_encodable", 1)

		return
	}

	if name != "" && bm.kind != "ens" {
		b, err := json.Marshal(fv(recv.Elem()).Interface())
		if err == nil {
			var wantJSON interface{}
			_ = json.Unmarshal(b, &wantJSON)

			got, ok := ma[name]

			switch {
			case hasMerged(recv.Elem()):
				// Union members are merged into the object and may hold the same member.
				c.Count("merged_unions", 1)
			case ok && !reflect.DeepEqual(got, wantJSON):
				c.Violate(id+": the encoded object has another value in "+name, map[string]interface{}{"got": got, "want": wantJSON})
			case !ok && !emptyJSON(fv(recv.Elem())):
				c.Violate(id+": the encoded object has no member "+name, map[string]interface{}{"object": ma})
			case ok:
				c.Count("encoded_members", 1)
			}
		}
	}

	if name == "" {
		return // merged into the object: several members may come and go
	}

	if isUnion(bm.typ) {
		return
	}

	for k := range ma {
		if k != name && !reflect.DeepEqual(ma[k], mb[k]) {
			c.Violate(id+" changed the encoded member "+k, map[string]interface{}{"before": mb, "after": ma})
		}
	}

	for k := range mb {
		if _, ok := ma[k]; k != name && !ok {
			c.Violate(id+" dropped the encoded member "+k, map[string]interface{}{"before": mb, "after": ma})
		}
	}
}

// hasMerged tells if the object has union members that are merged into its encoding.
func hasMerged(v reflect.Value) bool {
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Ptr && !f.IsNil() && memberName(v.Type().Field(i)) == "" {
			return true
		}
	}

	return false
}

// emptyJSON tells if omitempty may leave the value out.
func emptyJSON(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int64, reflect.Int:
		return v.Int() == 0
	case reflect.Float64:
		return v.Float() == 0
	case reflect.Struct:
		return v.IsZero()
	}

	return false
}

func deepCopyPtr(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(deepCopy(v))

	return p
}

// isUnion tells if all members of the type are merged into one object.
func isUnion(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		if memberName(t.Field(i)) != "" {
			return false
		}
	}

	return true
}

func init() {
	methods := builderMethods()
	need := map[string]int{"calls": len(methods) * 8, "encoded_members": 500, "replaced_entries": 500, "chained": 1000}

	for _, m := range methods {
		need["method:"+m.typ.String()+"."+m.m.Name] = 8
	}

	register(&mon.Check{
		ID: "C22", Level: "exploration", Quick: 12 * len(methods), Thorough: 60 * len(methods),
		Rule: "every With*, With*Item and *Ens method of every entity type of both versions (found by reflection) is called on empty and on populated receivers (contents harvested from decoded random documents or constructed) with such values, alone and chained; monitors compare every struct field and every encoded member before and after",
		Need: need,
		Case: func(c *mon.Ctx) { c22Case(c, methods) },
	})
}
