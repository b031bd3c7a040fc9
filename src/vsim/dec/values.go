package dec

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

var (
	ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
	errType = reflect.TypeOf((*error)(nil)).Elem()
)

// BaseError is an error of a wrapped implementation.
type BaseError struct {
	Token string
	Inner error
}

func (e *BaseError) Error() string { return "failure<" + e.Token + ">" }
func (e *BaseError) Unwrap() error { return e.Inner }

// Hooked is implemented by argument types with a validation under the harness's control.
type Hooked interface{ SetHook(func() error) }

type valGen struct {
	token string
	n     int
	w     *World
	call  *Call
	param int
	depth int
}

func (g *valGen) tok() string {
	g.n++
	t := fmt.Sprintf("%s.%d", g.token, g.n)
	if g.w != nil {
		switch g.w.Sc.flag("odd") {
		case 1:
			t += "%d%s%"
		case 2:
			t += strings.Repeat("x", 300)
		}
	}
	return t
}

func (g *valGen) num() int64 {
	g.n++
	h := int64(0)
	for _, c := range g.token {
		h = (h*31 + int64(c)) % 1000003
	}
	return h*64 + int64(g.n) + 1
}

// value makes a distinguishable value of type t.
func (g *valGen) value(t reflect.Type) reflect.Value {
	g.depth++
	defer func() { g.depth-- }()
	v := reflect.New(t).Elem()
	if g.depth > 6 {
		return v
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(g.tok())
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(g.num() % 1000000007)
	case reflect.Int8, reflect.Int16:
		v.SetInt(g.num() % 100)
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		v.SetUint(uint64(g.num() % 1000000007))
	case reflect.Uint8, reflect.Uint16:
		v.SetUint(uint64(g.num() % 200))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(g.num() % 10007))
	case reflect.Bool:
		v.SetBool(g.num()%2 == 0)
	case reflect.Pointer:
		p := reflect.New(t.Elem())
		p.Elem().Set(g.value(t.Elem()))
		v.Set(p)
	case reflect.Slice:
		n := 1 + int(g.num()%3)
		s := reflect.MakeSlice(t, n, n+2)
		for i := 0; i < n; i++ {
			s.Index(i).Set(g.value(t.Elem()))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.value(t.Elem()))
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		m.SetMapIndex(g.value(t.Key()), g.value(t.Elem()))
		v.Set(m)
	case reflect.Chan:
		c := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 1)
		v.Set(c.Convert(t))
	case reflect.Func:
		v.Set(reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, reflect.Zero(t.Out(i)))
			}
			return out
		}))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.IsExported() && f.Name != "Hook" {
				v.Field(i).Set(g.value(f.Type))
			}
		}
	case reflect.Interface:
		switch {
		case t == errType:
			v.Set(reflect.ValueOf(error(&BaseError{Token: g.tok()})))
		case t == ctxType:
			v.Set(reflect.ValueOf(context.WithValue(context.Background(), tokenKey{}, g.tok())))
		case t.NumMethod() == 0:
			switch g.num() % 3 {
			case 0:
				v.Set(reflect.ValueOf(g.tok()))
			case 1:
				v.Set(reflect.ValueOf(&struct{ A string }{g.tok()}))
			default:
				if AnyValue != nil {
					v.Set(reflect.ValueOf(AnyValue(g.tok())))
				} else {
					v.Set(reflect.ValueOf(int(g.num())))
				}
			}
		default:
			if f := IfaceValue[t]; f != nil {
				v.Set(reflect.ValueOf(f(g.tok())))
			}
		}
	}
	return v
}

// AnyValue makes a value for empty-interface parameters (set by the corpus glue).
var AnyValue func(token string) any

// IfaceValue makes values for other interface types.
var IfaceValue = map[reflect.Type]func(token string) any{}

type tokenKey struct{}

func dataWord(v reflect.Value) unsafe.Pointer {
	i := v.Interface()
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&i))[1]
}

// same reports whether b is the value a: identity for reference-like values, equality otherwise.
func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Kind() == reflect.Interface || b.Kind() == reflect.Interface {
		if a.Kind() == reflect.Interface {
			if a.IsNil() {
				return b.Kind() == reflect.Interface && b.IsNil()
			}
			a = a.Elem()
		}
		if b.Kind() == reflect.Interface {
			if b.IsNil() {
				return false
			}
			b = b.Elem()
		}
		return same(a, b)
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Func:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return dataWord(a) == dataWord(b)
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		return a.Len() == 0 || a.Pointer() == b.Pointer()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return a.Equal(b)
}

// sameVariadic compares the elements of two variadic slices.
func sameVariadic(a, b reflect.Value) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !same(a.Index(i), b.Index(i)) {
			return false
		}
	}
	return true
}

func sameList(a, b []reflect.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func show(vs []reflect.Value) string {
	s := ""
	for i, v := range vs {
		if i > 0 {
			s += ", "
		}
		s += showOne(v)
	}
	return s
}

func showOne(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if v.IsNil() {
			return "nil " + v.Type().String()
		}
		return v.Type().String()
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if e, ok := v.Interface().(error); ok {
			return fmt.Sprintf("error(%s)", e.Error())
		}
		return showOne(v.Elem())
	case reflect.Struct, reflect.Slice, reflect.Array:
		return v.Type().String()
	}
	return fmt.Sprintf("%v", v.Interface())
}

func asErr(v reflect.Value) error {
	if v.IsValid() && v.Kind() == reflect.Interface && !v.IsNil() {
		if e, ok := v.Interface().(error); ok {
			return e
		}
	}
	return nil
}

// As converts a result for a stub.
func As[T any](v reflect.Value) T {
	var z T
	if !v.IsValid() {
		return z
	}
	reflect.ValueOf(&z).Elem().Set(v)
	return z
}

func showSlice(v reflect.Value) string {
	var l []reflect.Value
	for i := 0; i < v.Len(); i++ {
		l = append(l, v.Index(i))
	}
	return "[" + show(l) + "]"
}
