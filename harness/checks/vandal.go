package checks

import (
	"reflect"
	"strings"
)

// vandalise changes a document in place, wherever it has a map or an object that can have extensions.
//
// Values of interfaces are followed only if generic: they can belong to the caller.
func vandalise(v reflect.Value, generic bool, seen map[uintptr]bool) (n int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}

		seen[v.Pointer()] = true

		return vandalise(v.Elem(), generic, seen)
	case reflect.Interface:
		if v.IsNil() || !generic {
			return 0
		}

		return vandalise(v.Elem(), generic, seen)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += vandalise(v.Index(i), generic, seen)
		}
	case reflect.Map:
		if v.IsNil() || v.Type().Key().Kind() != reflect.String || seen[v.Pointer()] {
			return 0
		}

		seen[v.Pointer()] = true

		for _, k := range v.MapKeys() {
			n += vandalise(v.MapIndex(k), generic, seen)
		}

		e := reflect.New(v.Type().Elem()).Elem()
		if e.Kind() == reflect.Interface && e.NumMethod() == 0 {
			e.Set(reflect.ValueOf("vandal"))
		}

		v.SetMapIndex(reflect.ValueOf("x-vandal").Convert(v.Type().Key()), e)

		n++
	case reflect.Struct:
		if !strings.HasPrefix(v.Type().PkgPath(), "github.com/swaggest/openapi-go") {
			return 0
		}

		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() && f.Kind() != reflect.Ptr && f.Kind() != reflect.Map && f.Kind() != reflect.Slice && f.Kind() != reflect.Struct {
				continue
			}

			if v.Type().Field(i).Name == "MapOfAnything" && f.CanSet() && f.IsNil() {
				f.Set(reflect.MakeMap(f.Type()))
			}

			n += vandalise(f, generic, seen)
		}
	}

	return n
}
