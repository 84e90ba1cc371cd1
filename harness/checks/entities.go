package checks

import (
	"encoding/json"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

var (
	typMarshaler   = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	typUnmarshaler = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
)

// entityTypes lists the struct types of the package of root that are reachable from it, in order of name.
func entityTypes(roots ...reflect.Type) []reflect.Type {
	seen := map[reflect.Type]bool{}
	pkg := roots[0].PkgPath()

	var walk func(t reflect.Type)

	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}

		seen[t] = true

		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			walk(t.Elem())
		case reflect.Map:
			walk(t.Key())
			walk(t.Elem())
		case reflect.Struct:
			if t.PkgPath() != pkg {
				return
			}

			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}

			for i := 0; i < reflect.PtrTo(t).NumMethod(); i++ {
				m := reflect.PtrTo(t).Method(i)
				for j := 0; j < m.Type.NumIn(); j++ {
					walk(m.Type.In(j))
				}

				for j := 0; j < m.Type.NumOut(); j++ {
					walk(m.Type.Out(j))
				}
			}
		}
	}

	for _, r := range roots {
		walk(r)
	}

	var res []reflect.Type

	for t := range seen {
		if t.Kind() == reflect.Struct && t.PkgPath() == pkg && t.Name() != "" && t.Name()[0] >= 'A' && t.Name()[0] <= 'Z' {
			res = append(res, t)
		}
	}

	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })

	return res
}

var (
	entities30 = entityTypes(reflect.TypeOf(openapi3.Spec{}))
	entities31 = entityTypes(reflect.TypeOf(openapi31.Spec{}))
)

// codecTypes lists entity types that have own decoders and encoders.
func codecTypes() []reflect.Type {
	var res []reflect.Type

	for _, t := range append(append([]reflect.Type{}, entities30...), entities31...) {
		p := reflect.PtrTo(t)
		if p.Implements(typUnmarshaler) && p.Implements(typMarshaler) {
			res = append(res, t)
		}
	}

	return res
}

func isVersion30(t reflect.Type) bool { return strings.HasSuffix(t.PkgPath(), "openapi3") }
