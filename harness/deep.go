package main

import (
	"hash/fnv"
	"reflect"
	"unsafe"
)

func fnv64(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

// deepHash hashes everything reachable from the arguments, unexported fields included.
func deepHash(xs ...interface{}) uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211 }
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		mix(uint64(v.Kind()))
		switch v.Kind() {
		case reflect.Bool:
			if v.Bool() {
				mix(1)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			mix(uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			mix(v.Uint())
		case reflect.String:
			mix(fnv64([]byte(v.String())))
		case reflect.Ptr:
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			mix(uint64(v.Len()))
			if v.Len() == 0 {
				return
			}
			if flat(v.Type().Elem()) {
				mix(fnv64(unsafe.Slice((*byte)(v.UnsafePointer()), v.Len()*int(v.Type().Elem().Size()))))
				return
			}
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			mix(uint64(v.Len()))
			sum := uint64(0)
			for it := v.MapRange(); it.Next(); {
				save := h
				h = 1
				walk(it.Key())
				walk(it.Value())
				sum += h
				h = save
			}
			mix(sum)
		}
	}
	for _, x := range xs {
		walk(reflect.ValueOf(x))
	}
	return h
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	case reflect.Struct: // padding would be hashed: only structs of one field
		return t.NumField() == 1 && flat(t.Field(0).Type)
	}
	return false
}
