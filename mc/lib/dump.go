//go:build go1.21

package lib

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Dump renders a value canonically: maps sorted, pointers followed, no addresses. Functions, channels and
// synchronisation objects are opaque (they hold no decision-relevant data between events).
func Dump(x interface{}) string { return DumpWith(x, nil) }

// DumpWith renders with every string passed through rep (canonical renaming of random values).
func DumpWith(x interface{}, rep func(string) string) string {
	if rep == nil {
		rep = func(s string) string { return s }
	}
	b := &dumper{rep: rep}
	dump(b, reflect.ValueOf(x), map[unsafe.Pointer]int{}, 0)
	return b.String()
}

type dumper struct {
	strings.Builder
	rep func(string) string
}

// Hash is a 64-bit digest of a string.
func Hash(s string) uint64 { h := fnv.New64a(); _, _ = h.Write([]byte(s)); return h.Sum64() }

// lockFields holds the locks of a struct while it is read: work the code under test left running may still use it.
func lockFields(v reflect.Value) func() {
	var un []func()
	if v.CanAddr() {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Ptr && !f.IsNil() {
				f = f.Elem()
			}
			if !f.CanAddr() {
				continue
			}
			var try func() bool
			var rel func()
			switch f.Type() {
			case reflect.TypeOf(sync.Mutex{}):
				m := (*sync.Mutex)(f.Addr().UnsafePointer())
				try, rel = m.TryLock, m.Unlock
			case reflect.TypeOf(sync.RWMutex{}):
				m := (*sync.RWMutex)(f.Addr().UnsafePointer())
				try, rel = m.TryRLock, m.RUnlock
			default:
				continue
			}
			for n := 0; n < 50; n++ { // not for ever: the same lock may be held further up
				if try() {
					un = append(un, rel)
					break
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
	return func() {
		for _, f := range un {
			f()
		}
	}
}

// opaque types belong to the environment, not to the adapter's state.
func opaque(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	pk := t.PkgPath()
	return strings.HasPrefix(pk, "k8s.io/client-go") || strings.Contains(pk, "/verifmc/")
}

func dump(b *dumper, v reflect.Value, seen map[unsafe.Pointer]int, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	if v.IsValid() && opaque(v.Type()) {
		b.WriteString("<" + v.Type().String() + ">")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		p := v.UnsafePointer()
		if n, ok := seen[p]; ok {
			fmt.Fprintf(b, "^%d", n)
			return
		}
		seen[p] = len(seen)
		b.WriteString("&")
		dump(b, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String())
		b.WriteString(":")
		dump(b, v.Elem(), seen, depth+1)
	case reflect.Struct:
		t := v.Type()
		if t == reflect.TypeOf(sync.Map{}) && v.CanAddr() {
			type kv struct{ k, v string }
			var l []kv
			(*sync.Map)(v.Addr().UnsafePointer()).Range(func(k, x interface{}) bool {
				kb, vb := dumper{rep: b.rep}, dumper{rep: b.rep}
				dump(&kb, reflect.ValueOf(k), seen, depth+1)
				dump(&vb, reflect.ValueOf(x), map[unsafe.Pointer]int{}, depth+1)
				l = append(l, kv{kb.String(), vb.String()})
				return true
			})
			sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
			for _, e := range l {
				b.WriteString(e.k + "=" + e.v + ";")
			}
			return
		}
		if pk := t.PkgPath(); pk == "sync" || pk == "sync/atomic" || strings.HasSuffix(pk, "/singleflight") || strings.HasPrefix(pk, "net/http") || pk == "time" {
			b.WriteString(t.String())
			return
		}
		defer lockFields(v)()
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(t.Field(i).Name)
			b.WriteString(":")
			dump(b, v.Field(i), seen, depth+1)
		}
		b.WriteString("}")
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nilmap")
			return
		}
		type kv struct{ k, v string }
		var l []kv
		it := v.MapRange()
		for it.Next() {
			kb, vb := dumper{rep: b.rep}, dumper{rep: b.rep}
			dump(&kb, it.Key(), seen, depth+1)
			dump(&vb, it.Value(), map[unsafe.Pointer]int{}, depth+1)
			l = append(l, kv{kb.String(), vb.String()})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		b.WriteString("map[")
		for _, e := range l {
			b.WriteString(e.k + "=" + e.v + ";")
		}
		b.WriteString("]")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nilslice")
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), seen, depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString("<" + v.Kind().String() + ">")
		}
	case reflect.String:
		fmt.Fprintf(b, "%q", b.rep(v.String()))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString(v.Kind().String())
	}
}
