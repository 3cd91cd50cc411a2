package world

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Dump writes out everything reachable from v, unexported fields included: two equal dumps mean that nothing
// reachable from v changed in between.
func Dump(v any) string {
	var b strings.Builder

	dump(&b, reflect.ValueOf(v), map[uintptr]int{}, 0)

	return b.String()
}

var timeType = reflect.TypeOf(time.Time{})

func dump(b *strings.Builder, v reflect.Value, seen map[uintptr]int, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")

		return
	}

	if depth > 60 {
		b.WriteString("...")

		return
	}

	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")

			return
		}

		if n, ok := seen[v.Pointer()]; ok {
			fmt.Fprintf(b, "^%d", n)

			return
		}

		seen[v.Pointer()] = len(seen)

		b.WriteString("&")
		dump(b, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")

			return
		}

		fmt.Fprintf(b, "%s:", v.Elem().Type())
		dump(b, v.Elem(), seen, depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")

		for i := 0; i < v.NumField(); i++ {
			if v.Type() == timeType && i == 2 {
				continue // the location
			}

			fmt.Fprintf(b, "%s=", v.Type().Field(i).Name)
			dump(b, v.Field(i), seen, depth+1)
			b.WriteString(" ")
		}

		b.WriteString("}")
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")

			return
		}

		var es []string

		for it := v.MapRange(); it.Next(); {
			var e strings.Builder

			dump(&e, it.Key(), seen, depth+1)
			e.WriteString("=>")

			// pointers are numbered afresh below a map entry, as entries come in any order
			dump(&e, it.Value(), map[uintptr]int{}, depth+1)
			es = append(es, e.String())
		}

		sort.Strings(es)
		b.WriteString("map{" + strings.Join(es, ", ") + "}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")

			return
		}

		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Bytes())

			return
		}

		fallthrough
	case reflect.Array:
		b.WriteString("[")

		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), seen, depth+1)
			b.WriteString(" ")
		}

		b.WriteString("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%s(%v)", v.Kind(), v.IsNil())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		fmt.Fprint(b, v.Kind())
	}
}
