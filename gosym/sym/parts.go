package sym

import (
	"reflect"

	"google.golang.org/protobuf/proto"
)

// Parts is the number of ways in which one part of a message can be missing: a
// message, an element of a list or a one-of choice that is absent, or a message
// that is there without its contents.
func Parts(m proto.Message) int { return len(parts(reflect.ValueOf(m).Elem())) }

// Drop makes the k-th of the parts missing.
func Drop(m proto.Message, k int) { parts(reflect.ValueOf(m).Elem())[k]() }

func isMessage(t reflect.Type) bool {
	return t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct
}

func empty(v reflect.Value) func() { return func() { v.Set(reflect.New(v.Type().Elem())) } }

// The engine has the same order.
func parts(v reflect.Value) (r []func()) {
	t := v.Type()
	for i := range v.NumField() {
		if !t.Field(i).IsExported() {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Pointer:
			if f.IsNil() {
				continue
			}
			r = append(r, f.SetZero)
			if isMessage(f.Type()) {
				r = append(r, empty(f))
				r = append(r, parts(f.Elem())...)
			}
		case reflect.Interface:
			if f.IsNil() {
				continue
			}
			r = append(r, f.SetZero)
			w := f.Elem().Elem().Field(0)
			if isMessage(w.Type()) && !w.IsNil() {
				r = append(r, empty(w))
				r = append(r, parts(w.Elem())...)
			}
		case reflect.Slice:
			if f.Len() == 0 {
				continue
			}
			if !isMessage(f.Type().Elem()) {
				r = append(r, f.SetZero)
				continue
			}
			for j := range f.Len() {
				r = append(r, func() {
					s := reflect.MakeSlice(f.Type(), 0, f.Len()-1)
					s = reflect.AppendSlice(s, f.Slice(0, j))
					f.Set(reflect.AppendSlice(s, f.Slice(j+1, f.Len())))
				}, empty(f.Index(j)))
				r = append(r, parts(f.Index(j).Elem())...)
			}
		}
	}
	return r
}
