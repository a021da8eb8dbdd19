package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Tree renders a value by reflection into maps, lists and scalars. Nil and
// empty lists and maps are the same thing; fields named in drop ("Type.Field")
// are left out, as are unexported fields and zero values (a zero string, a
// missing key and a nil pointer carry the same information), except that a
// non-nil pointer to a zero struct is kept as an empty map.
func Tree(v any, drop map[string]bool) any {
	return tree(reflect.ValueOf(v), drop)
}

func tree(v reflect.Value, drop map[string]bool) any {
	switch v.Kind() {
	case reflect.Invalid:
		return nil
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return tree(v.Elem(), drop)
	case reflect.Struct:
		m := map[string]any{}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || drop[t.Name()+"."+f.Name] {
				continue
			}
			x := tree(v.Field(i), drop)
			if isZeroTree(x, v.Field(i).Kind()) {
				continue
			}
			m[f.Name] = x
		}
		return m
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return nil
		}
		out := make([]any, v.Len())
		for i := range out {
			out[i] = tree(v.Index(i), drop)
		}
		return out
	case reflect.Map:
		if v.Len() == 0 {
			return nil
		}
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[fmt.Sprint(k.Interface())] = tree(v.MapIndex(k), drop)
		}
		return m
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	}
	return fmt.Sprint(v.Interface())
}

func isZeroTree(x any, k reflect.Kind) bool {
	switch y := x.(type) {
	case nil:
		return true
	case string:
		return y == ""
	case bool:
		return !y
	case int64:
		return y == 0
	case map[string]any:
		return len(y) == 0 && k == reflect.Struct
	}
	return false
}

// Diff describes the first difference between two trees, "" if there is none.
func Diff(want, got any) string { return diff("", want, got) }

func diff(path string, a, b any) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			return fmt.Sprintf("at %s: want %s, got %s", path, Show(a), Show(b))
		}
		keys := map[string]bool{}
		for k := range x {
			keys[k] = true
		}
		for k := range y {
			keys[k] = true
		}
		ks := make([]string, 0, len(keys))
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			xv, xok := x[k]
			yv, yok := y[k]
			if !xok || !yok {
				if xok && xv != nil || yok && yv != nil {
					return fmt.Sprintf("at %s.%s: want %s, got %s", path, k, Show(xv), Show(yv))
				}
				continue
			}
			if d := diff(path+"."+k, xv, yv); d != "" {
				return d
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok {
			return fmt.Sprintf("at %s: want %s, got %s", path, Show(a), Show(b))
		}
		for i := range x {
			if i >= len(y) {
				return fmt.Sprintf("at %s: want %d entries, got %d (missing %s)", path, len(x), len(y), Show(x[i]))
			}
			if d := diff(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
				return d
			}
		}
		if len(y) > len(x) {
			return fmt.Sprintf("at %s: want %d entries, got %d (extra %s)", path, len(x), len(y), Show(y[len(x)]))
		}
		return ""
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("at %s: want %s, got %s", path, Show(a), Show(b))
	}
	return ""
}

// Show renders a tree compactly and deterministically.
func Show(x any) string {
	var b strings.Builder
	show(&b, x)
	s := b.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

// ShowFull is Show without the length limit.
func ShowFull(x any) string {
	var b strings.Builder
	show(&b, x)
	return b.String()
}

func show(b *strings.Builder, x any) {
	switch y := x.(type) {
	case nil:
		b.WriteString("nothing")
	case map[string]any:
		ks := make([]string, 0, len(y))
		for k := range y {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(k)
			b.WriteString(": ")
			show(b, y[k])
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, v := range y {
			if i > 0 {
				b.WriteString(", ")
			}
			show(b, v)
		}
		b.WriteByte(']')
	case string:
		if len(y) > 300 {
			fmt.Fprintf(b, "%q...(%d bytes)", y[:200], len(y))
		} else {
			fmt.Fprintf(b, "%q", y)
		}
	default:
		fmt.Fprintf(b, "%v", y)
	}
}

func drops(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

// project copies src into dst field by field, by name, following pointers,
// lists and maps. Fields dst lacks are left out.
func project(src, dst any) {
	proj(reflect.ValueOf(src), reflect.ValueOf(dst).Elem())
}

func proj(s, d reflect.Value) {
	if s.Kind() == reflect.Ptr {
		if s.IsNil() {
			return
		}
		s = s.Elem()
	}
	if d.Kind() == reflect.Ptr {
		d.Set(reflect.New(d.Type().Elem()))
		d = d.Elem()
	}
	switch d.Kind() {
	case reflect.Struct:
		t := d.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			sf := s.FieldByName(f.Name)
			if !sf.IsValid() {
				continue
			}
			proj(sf, d.Field(i))
		}
	case reflect.Slice:
		if s.IsNil() {
			return
		}
		d.Set(reflect.MakeSlice(d.Type(), s.Len(), s.Len()))
		for i := 0; i < s.Len(); i++ {
			proj(s.Index(i), d.Index(i))
		}
	case reflect.Map:
		if s.IsNil() {
			return
		}
		d.Set(reflect.MakeMap(d.Type()))
		for _, k := range s.MapKeys() {
			nv := reflect.New(d.Type().Elem()).Elem()
			proj(s.MapIndex(k), nv)
			d.SetMapIndex(k.Convert(d.Type().Key()), nv)
		}
	default:
		d.Set(s.Convert(d.Type()))
	}
}

func sortStrings(s []string) { sort.Strings(s) }
