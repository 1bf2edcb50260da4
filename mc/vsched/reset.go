package vsched

import (
	"fmt"
	"os"
	"reflect"
	"unsafe"
)

var (
	vars   []any // pointers to the package variables of instrumented code
	resets []func()
	snap   []saved
	// Instrumented is set by instrumented packages.
	Instrumented []string
)

// Register announces the package variables of an instrumented package.
func Register(pkg string, ptrs ...any) {
	Instrumented = append(Instrumented, pkg)
	vars = append(vars, ptrs...)
}

// AtReset adds a function that Reset calls.
func AtReset(f func()) { resets = append(resets, f) }

// saved is the state of one piece of memory, or of a map.
type saved struct {
	at, copy reflect.Value // pointers to the same type
	m        reflect.Value // map
	k, v     []reflect.Value
}

// Snapshot records the memory reachable from the package variables of instrumented code, as it is
// after initialisation.
func Snapshot() {
	seen := map[unsafe.Pointer]map[reflect.Type]bool{}
	snap = nil
	for _, p := range vars {
		record(reflect.ValueOf(p), seen)
	}
}

func record(p reflect.Value, seen map[unsafe.Pointer]map[reflect.Type]bool) {
	t := p.Type().Elem()
	a := p.UnsafePointer()
	if a == nil || seen[a][t] || t.Size() == 0 {
		return
	}
	if seen[a] == nil {
		seen[a] = map[reflect.Type]bool{}
	}
	seen[a][t] = true
	c := reflect.New(t)
	c.Elem().Set(reflect.NewAt(t, a).Elem())
	snap = append(snap, saved{at: reflect.NewAt(t, a), copy: c})
	walk(reflect.NewAt(t, a).Elem(), seen)
}

// walk records what v (addressable) refers to.
func walk(v reflect.Value, seen map[unsafe.Pointer]map[reflect.Type]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			record(v, seen)
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Pointer && !v.Elem().IsNil() {
			e := v.Elem()
			record(reflect.NewAt(e.Type().Elem(), e.UnsafePointer()), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				walk(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), seen)
			}
		}
	case reflect.Array:
		if plain(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen)
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		at := reflect.ArrayOf(v.Cap(), v.Type().Elem())
		record(reflect.NewAt(at, v.UnsafePointer()), seen)
	case reflect.Map:
		if v.IsNil() || seen[v.UnsafePointer()][v.Type()] {
			return
		}
		if seen[v.UnsafePointer()] == nil {
			seen[v.UnsafePointer()] = map[reflect.Type]bool{}
		}
		seen[v.UnsafePointer()][v.Type()] = true
		s := saved{m: v}
		it := v.MapRange()
		for it.Next() {
			k := reflect.New(v.Type().Key()).Elem()
			k.Set(it.Key())
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			s.k, s.v = append(s.k, k), append(s.v, e)
			walk(k, seen)
			walk(e, seen)
		}
		// keep the map itself, not the variable
		m := reflect.New(v.Type()).Elem()
		m.Set(v)
		s.m = m
		snap = append(snap, s)
	}
}

func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.String:
		return false
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
	case reflect.Array:
		return plain(t.Elem())
	}
	return true
}

// Reset puts all package variables of instrumented code back to their state after initialisation.
func Reset() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, "vsched: reset failed:", r)
			os.Exit(4)
		}
	}()
	for _, s := range snap {
		if s.m.IsValid() {
			s.m.Clear()
			for i := range s.k {
				s.m.SetMapIndex(s.k[i], s.v[i])
			}
			continue
		}
		n := s.at.Type().Elem().Size()
		a, c := unsafe.Slice((*byte)(s.at.UnsafePointer()), n), unsafe.Slice((*byte)(s.copy.UnsafePointer()), n)
		if string(a) != string(c) {
			s.at.Elem().Set(s.copy.Elem())
		}
	}
	for _, f := range resets {
		f()
	}
}

// SnapshotSize is the number of recorded pieces of memory.
func SnapshotSize() int { return len(snap) }
