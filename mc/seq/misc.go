//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/pathtrie"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

// ---------------------------------------------------------------- C23: path index

type trieOp struct {
	op, key string
	val     int
}

func (o trieOp) String() string {
	if o.op == "put" {
		return fmt.Sprintf("put(%q,%d)", o.key, o.val)
	}
	return fmt.Sprintf("%s(%q)", o.op, o.key)
}

type trieInst struct {
	ops  []trieOp
	keys []string
	t    pathtrie.Trie
	m    map[string]int
}

func (x *trieInst) close() {}
func (x *trieInst) step(ev int) (string, bool) {
	o := x.ops[ev]
	_, had := x.m[o.key]
	if o.op == "put" {
		added := x.t.Put(o.key, o.val)
		x.m[o.key] = o.val
		if added == had {
			return fmt.Sprintf("put(%q) reported added=%v but a value was present=%v", o.key, added, had), true
		}
	} else {
		found := x.t.Delete(o.key)
		delete(x.m, o.key)
		if had && !found {
			return fmt.Sprintf("delete(%q) reported that nothing was there", o.key), true
		}
	}
	return x.probe(), true
}
func (x *trieInst) key() string { return lib.Dump(x.t) + fmt.Sprint(x.m) }

// enclosing returns the stored prefix entries that enclose key, longest first.
func enclosing(m map[string]int, key string) []string {
	var l []string
	for k := range m {
		if strings.HasSuffix(k, "/*") {
			p := strings.TrimSuffix(k, "/*")
			if key == p || strings.HasPrefix(key, p+"/") {
				l = append(l, k)
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return len(l[i]) > len(l[j]) })
	return l
}

func (x *trieInst) probe() string {
	for _, k := range x.keys {
		var want interface{}
		if v, ok := x.m[k]; ok {
			want = v
		}
		if got := x.t.Get(k); got != want {
			return fmt.Sprintf("Get(%q)=%v, expected %v; stored %v", k, got, want, x.m)
		}
		if want == nil {
			if e := enclosing(x.m, k); len(e) > 0 {
				want = x.m[e[0]]
			}
		}
		if got := x.t.GetActions(k); got != want {
			return fmt.Sprintf("GetActions(%q)=%v, expected %v; stored %v", k, got, want, x.m)
		}
	}
	return ""
}

func c23() {
	c := lib.NewCheck("C23", "model_checking")
	run := func(name string, stored, extra []string, vals, depth int) {
		if c.Stop() {
			return
		}
		var ops []trieOp
		for _, k := range stored {
			for v := 1; v <= vals; v++ {
				ops = append(ops, trieOp{"put", k, v})
			}
			ops = append(ops, trieOp{"delete", k, 0})
		}
		for _, k := range extra { // deleting what was never stored, including internal nodes
			ops = append(ops, trieOp{"delete", k, 0})
		}
		keys := append(append([]string{}, stored...), extra...)
		m := &model{name: name, n: len(ops), depth: depth,
			start: func() inst { return &trieInst{ops, keys, pathtrie.NewPathTrie(), map[string]int{}} },
			show:  func(e int) string { return ops[e].String() }}
		m.bfs(c)
	}
	probes := []string{"/", "//", "/a/", "/a//", "/a//b", "/ab", "/ab/x", "/a/bc", "/a/b/c", "/a/b/c/d/e", "/A", "/b", "/*/x", "/a/*/y", "/a/b/", "/a b", "/\u00fc/x", "/a/q", "/*", "/a/*"}
	run("nested", []string{"/", "/*", "/a", "/a/*", "/a/b", "/a/b/*"}, probes, 2, c.Pick(8, 14))
	run("deep", []string{"/*", "/a/*", "/a/b/c", "/a/b/c/*", "/a/b/c/d", "/ab"}, append(probes, "/a", "/a/b", "/a/b/*"), 1, c.Pick(12, 16))
	run("unusual", []string{"/a/*", "/*", "/*/y", "/a/*/x", "/a/", "/a//b", "/\u00fc/*", "/a b"}, append(probes, "/a"), 1, c.Pick(10, 16))
	run("siblings", []string{"/a", "/b", "/c/*", "/c", "/b/*", "/b/a", "/*"}, append(probes, "/c/x/y"), 1, c.Pick(10, 16))
	var long []string
	for _, n := range []int{2, 10, 31, 32, 33, 34, 49, 50, 51, 90, 91, 130} {
		long = append(long, deep(n), deep(n)+"/x", deep(n)+"/*")
	}
	run("long", []string{deep(9) + "/*", deep(33) + "/*", deep(50), deep(50) + "/*", deep(90), "/" + strings.Repeat("y", 3000)}, append(long, "/", "/"+strings.Repeat("y", 2999), "/"+strings.Repeat("y", 3001)), 1, c.Pick(8, 14))
	traces(c)
	c.Finish()
}

// ---------------------------------------------------------------- C21: key sizes

type optSetter interface {
	Set(string) error
	String() string
}

func c21() {
	c := lib.NewCheck("C21", "exploration")
	type opt struct {
		name string
		ok   []int
		get  func() (optSetter, func() int)
	}
	opts := []opt{
		{"hash", []int{32, 64}, func() (optSetter, func() int) {
			c := config.NewConfig()
			return &c.HashKeySize, func() int { return c.HashKeySize.Value }
		}},
		{"block", []int{16, 24, 32}, func() (optSetter, func() int) {
			c := config.NewConfig()
			return &c.BlockKeySize, func() int { return c.BlockKeySize.Value }
		}},
	}
	var ins []string
	lim := c.Pick(70000, 300000)
	for i := -lim; i <= lim; i++ {
		ins = append(ins, strconv.Itoa(i))
	}
	for _, b := range []int64{1 << 31, 1 << 32, 1 << 33, 1 << 62, -1 << 31, -1 << 63} {
		for d := int64(-70); d <= 70; d++ {
			if (b < 0 && d < 0 && b == -1<<63) || false {
				continue
			}
			ins = append(ins, strconv.FormatInt(b+d, 10))
		}
	}
	for _, v := range []string{"16", "24", "32", "64", "48", "0", ""} {
		for _, f := range []string{"%s ", " %s", "%s\n", "%s.0", "%se0", "0x%s", "%sa", "a%s", "-%s", "--%s", "%s,%s", "%s;", "'%s'", "%s bytes", "1%s", "%s0", "18446744073709551616%s", "%s_", "_%s", "3_%s"} {
			ins = append(ins, strings.ReplaceAll(f, "%s", v))
		}
	}
	ins = append(ins, "", "nil", "true", "\u0663\u0662", "\uff13\uff12", "0b100000", "0o40", "040", "3_2", "99999999999999999999999999999", "+", "-", "0x", "2e1", "1e2", "256", "288", "65568", "65552", "4294967328")
	accept := func(o opt, in string) (ok, either bool) {
		for _, v := range o.ok {
			if in == strconv.Itoa(v) {
				return true, false
			}
			// other spellings of the same number are neither promised nor forbidden
			if t := strings.TrimLeft(strings.TrimPrefix(in, "+"), "0"); t == strconv.Itoa(v) {
				return false, true
			}
		}
		return false, false
	}
	for _, o := range opts {
		starts := [][]string{{}}
		for _, v := range o.ok {
			starts = append(starts, []string{strconv.Itoa(v)})
		}
		for _, pre := range starts {
			lib.Parallel(len(ins), runtime.NumCPU(), func(k int) {
				in := ins[k]
				f := func() (bad string) {
					on := true
					defer caught(&bad, &on)
					s, val := o.get()
					for _, p := range pre {
						if s.Set(p) != nil {
							return fmt.Sprintf("%s size %s is rejected", o.name, p)
						}
					}
					before := val()
					err := s.Set(in)
					ok, either := accept(o, in)
					if either {
						return ""
					}
					want := before
					if ok {
						want, _ = strconv.Atoi(in)
					}
					if (err == nil) != ok {
						return fmt.Sprintf("%s size %q: error=%v, valid=%v", o.name, in, err, ok)
					}
					if val() != want || s.String() != strconv.Itoa(want) {
						return fmt.Sprintf("%s size %q set after %v: value %d (%s), expected %d", o.name, in, pre, val(), s.String(), want)
					}
					return ""
				}
				c.Count("evaluations", 1)
				if ok, _ := accept(o, in); !ok {
					c.Count("distinct_nontrivial", 1)
				}
				if bad := f(); bad != "" {
					c.Violation("set", bad, map[string]interface{}{"option": o.name, "before": pre, "input": in}, func() bool { return f() != "" })
				} else if k%30011 == 7 {
					c.Sample(map[string]interface{}{"option": o.name, "before": pre, "input": in})
				}
			})
		}
		// the options do not influence each other, also across configurations
		a, b := config.NewConfig(), config.NewConfig()
		_ = a.HashKeySize.Set("64")
		_ = a.BlockKeySize.Set("24")
		_ = b.BlockKeySize.Set("64")
		_ = b.HashKeySize.Set("16")
		if b.HashKeySize.Value != 32 || b.BlockKeySize.Value != 16 || a.HashKeySize.Value != 64 || a.BlockKeySize.Value != 24 {
			c.Violation("independent", fmt.Sprintf("configurations influence each other: %+v %+v", a, b), nil, nil)
		}
	}
	// histories of settings
	vals := []string{"16", "24", "32", "64", "48", "x", "-32", "288"}
	var walk func(o opt, h []string, d int)
	walk = func(o opt, h []string, d int) {
		s, val := o.get()
		want := val()
		for _, in := range h {
			ok, _ := accept(o, in)
			err := s.Set(in)
			if ok {
				want, _ = strconv.Atoi(in)
			}
			if (err == nil) != ok || val() != want {
				c.Violation("history", fmt.Sprintf("%s size settings %v: value %d, expected %d, error %v", o.name, h, val(), want, err), h, nil)
				return
			}
		}
		c.Count("evaluations", 1)
		c.Count("distinct_nontrivial", 1)
		if d > 0 {
			for _, v := range vals {
				walk(o, append(append([]string{}, h...), v), d-1)
			}
		}
	}
	for _, o := range opts {
		walk(o, nil, c.Pick(4, 6))
	}
	commandLine(c)
	c.Cov["rule"] = "every integer of the range and every malformed spelling, after every valid previous value; histories of settings; non-trivial: inputs that must be rejected, and histories"
	c.Finish()
}

// ---------------------------------------------------------------- C22: deep copies

var (
	timeType = reflect.TypeOf(time.Time{})
)

// fill sets v to a populated value; shape picks what container number n (in traversal order) looks like: 0 nil, 1 empty, 2 one element, 3 two elements.
type filler struct {
	shape func(n int) int
	n     int
	leaf  int
}

func (f *filler) fill(v reflect.Value, depth int) {
	if v.Type() == timeType {
		f.leaf++
		v.Set(reflect.ValueOf(time.Unix(int64(1000+f.leaf), 0).UTC()))
		return
	}
	switch v.Kind() {
	case reflect.String:
		f.leaf++
		v.SetString(fmt.Sprintf("s%d", f.leaf))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.leaf++
		v.SetInt(int64(f.leaf % 100))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f.leaf++
		v.SetUint(uint64(f.leaf % 100))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				f.fill(v.Field(i), depth+1)
			}
		}
	case reflect.Ptr:
		f.n++
		if f.shape(f.n) == 0 || depth > 12 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		f.fill(v.Elem(), depth+1)
	case reflect.Slice:
		f.n++
		k := f.shape(f.n)
		if k == 0 || depth > 12 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), k-1, k+1))
		for i := 0; i < k-1; i++ {
			f.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		f.n++
		k := f.shape(f.n)
		if k == 0 || depth > 8 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < k-1; i++ {
			key, val := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			f.fill(key, depth+1)
			f.fill(val, depth+1)
			v.SetMapIndex(key, val)
		}
	}
}

// mutations calls f with every change of one place below v; undo restores it.
func mutations(v reflect.Value, path string, f func(path string, undo func())) {
	if v.Type() == timeType {
		old := v.Interface().(time.Time)
		v.Set(reflect.ValueOf(old.Add(time.Hour)))
		f(path, func() { v.Set(reflect.ValueOf(old)) })
		return
	}
	setter := func(nv reflect.Value) {
		old := reflect.New(v.Type()).Elem()
		old.Set(v)
		v.Set(nv)
		f(path, func() { v.Set(old) })
	}
	switch v.Kind() {
	case reflect.String:
		setter(reflect.ValueOf(v.String() + "!").Convert(v.Type()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		setter(reflect.ValueOf(v.Int() + 1).Convert(v.Type()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		setter(reflect.ValueOf(v.Uint() + 1).Convert(v.Type()))
	case reflect.Bool:
		setter(reflect.ValueOf(!v.Bool()).Convert(v.Type()))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				mutations(v.Field(i), path+"."+v.Type().Field(i).Name, f)
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			mutations(v.Elem(), path, f)
			setter(reflect.Zero(v.Type()))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			mutations(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
		// growing in place must not show up in the other object either
		if v.Cap() > v.Len() {
			old := v.Len()
			v.SetLen(old + 1)
			e := v.Index(old)
			g := &filler{shape: func(int) int { return 2 }, leaf: 5000}
			g.fill(e, 0)
			f(path+"[append]", func() { v.SetLen(old) })
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			old := v.MapIndex(k)
			nv := reflect.New(v.Type().Elem()).Elem()
			g := &filler{shape: func(int) int { return 2 }, leaf: 7000}
			g.fill(nv, 0)
			v.SetMapIndex(k, nv)
			f(fmt.Sprintf("%s[%v]", path, k), func() { v.SetMapIndex(k, old) })
			v.SetMapIndex(k, reflect.Value{})
			f(fmt.Sprintf("%s[%v] deleted", path, k), func() { v.SetMapIndex(k, old) })
		}
	}
}

func c22() {
	c := lib.NewCheck("C22", "exploration")
	protos := []interface{}{&v1.JwtConfig{}, &v1.JwtConfigSpec{}, &v1.JwtConfigList{}, &v1.OidcConfig{}, &v1.OidcConfigSpec{}, &v1.ClientSecretRef{}, &v1.OidcConfigList{},
		&v1.Policy{}, &v1.PolicySpec{}, &v1.PolicyList{}, &v1.TargetElement{}, &v1.PathConfig{}, &v1.PathPolicy{}, &v1.Rule{}}
	copies := []string{"DeepCopy", "DeepCopyInto", "DeepCopyInto used", "DeepCopyObject"}
	for _, p := range protos {
		t := reflect.TypeOf(p).Elem()
		if _, ok := reflect.TypeOf(p).MethodByName("DeepCopy"); !ok {
			c.Count("types_without_copy", 1)
			continue
		}
		make1 := func(shape func(int) int) (reflect.Value, int) {
			v := reflect.New(t)
			f := &filler{shape: shape}
			f.fill(v.Elem(), 0)
			return v, f.n
		}
		_, n := make1(func(int) int { return 3 })
		var shapes []func(int) int
		var names []string
		add := func(name string, f func(int) int) { shapes = append(shapes, f); names = append(names, name) }
		for k := 0; k < 4; k++ {
			k := k
			add(fmt.Sprintf("all containers %d", k), func(int) int { return k })
		}
		for a := 1; a <= n; a++ {
			for k := 0; k < 4; k++ {
				a, k := a, k
				add(fmt.Sprintf("container %d of kind %d, others one element", a, k), func(i int) int {
					if i == a {
						return k
					}
					return 2
				})
				if n > 60 && !c.Thorough() && (k != 0 || a%3 != 0) {
					continue
				}
				add(fmt.Sprintf("container %d of kind %d, others two elements", a, k), func(i int) int {
					if i == a {
						return k
					}
					return 3
				})
			}
		}
		if c.Thorough() && n < 40 {
			for a := 1; a <= n; a++ {
				for b := a + 1; b <= n; b++ {
					for k := 0; k < 16; k++ {
						a, b, k := a, b, k
						add(fmt.Sprintf("containers %d and %d of kinds %d and %d", a, b, k%4, k/4), func(i int) int {
							switch i {
							case a:
								return k % 4
							case b:
								return k / 4
							}
							return 2
						})
					}
				}
			}
		}
		lib.Parallel(len(shapes), runtime.NumCPU(), func(si int) {
			if c.Stop() {
				return
			}
			for _, how := range copies {
				eval := func() (bad string) {
					on := true
					defer caught(&bad, &on)
					orig, _ := make1(shapes[si])
					same, _ := make1(shapes[si])
					m := reflect.Value{}
					if how == "DeepCopyInto used" {
						m = orig.MethodByName("DeepCopyInto")
					} else {
						m = orig.MethodByName(how)
					}
					if !m.IsValid() {
						return ""
					}
					var cp reflect.Value
					switch how {
					case "DeepCopy":
						cp = m.Call(nil)[0]
					case "DeepCopyObject":
						cp = m.Call(nil)[0]
						if cp.IsNil() {
							return "DeepCopyObject returned nil"
						}
						cp = cp.Elem()
					case "DeepCopyInto":
						cp = reflect.New(t)
						m.Call([]reflect.Value{cp})
					case "DeepCopyInto used":
						cp, _ = make1(func(int) int { return 3 })
						mutations(cp.Elem(), "", func(string, func()) {})
						m.Call([]reflect.Value{cp})
					}
					if cp.Type() != orig.Type() || cp.IsNil() {
						return fmt.Sprintf("%s returned a %v", how, cp.Type())
					}
					if !reflect.DeepEqual(orig.Interface(), same.Interface()) {
						return how + " changed the original"
					}
					if !reflect.DeepEqual(cp.Interface(), orig.Interface()) {
						return fmt.Sprintf("%s is not equal to the original: %s vs %s", how, firstDiff(lib.Dump(cp.Interface()), lib.Dump(orig.Interface())), "")
					}
					muts := 0
					mutations(cp.Elem(), t.Name(), func(path string, undo func()) {
						muts++
						if bad == "" && !reflect.DeepEqual(orig.Interface(), same.Interface()) {
							bad = fmt.Sprintf("changing %s of the %s changed the original", path, how)
						}
						undo()
					})
					if bad != "" {
						return bad
					}
					// spare capacity of the original must not be shared either
					mutations(orig.Elem(), t.Name(), func(path string, undo func()) {
						muts++
						if bad == "" && !reflect.DeepEqual(cp.Interface(), same.Interface()) {
							bad = fmt.Sprintf("changing %s of the original changed the %s", path, how)
						}
						undo()
					})
					c.Count("mutations", muts)
					return bad
				}
				c.Count("evaluations", 1)
				c.Count("distinct_nontrivial", 1)
				if bad := eval(); bad != "" {
					c.Violation("copy", fmt.Sprintf("%s (%s): %s", t.Name(), names[si], bad), map[string]interface{}{"type": t.Name(), "shape": names[si], "copy": how}, func() bool { return eval() != "" })
				}
			}
		})
		// nil receivers
		if r := reflect.Zero(reflect.PtrTo(t)).MethodByName("DeepCopy").Call(nil)[0]; !r.IsNil() {
			c.Violation("nil", t.Name()+": copy of nil is not nil", t.Name(), nil)
		}
		c.Sample(map[string]interface{}{"type": t.Name(), "containers": n, "shapes": len(shapes)})
	}
	c.Cov["rule"] = "every resource type with every container nil, empty, filled with one or two elements, copied by every method; each copy compared and every place below it and below the original changed; all are non-trivial"
	c.Finish()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-30, i+40
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q / %q", cut(a), cut(b))
}

// ---------------------------------------------------------------- C19: malformed and unusual requests

var (
	oddPaths = []string{"/", "/a", "/a/b", "/a/b/c", "/p", "/A", "/ab", "/a%2Fb", "/a//b", "//a", "//", "///", "/./a", "/../a", "/a/..", "/a b", "/\u00fc", "/a\x00b", "/\xff\xfe", "a", "*", "/*", "/a/*", "/**",
		"?x", "/?x", "/a?b", "/a#b", "/a;b", "\\a", "/a\\b", "/oidc", "/oidc/", "/oidc/callback", "/oidc/logout", "/a/oidc/callback", "/a/oidc/logout", "/a/oidc/callback/x", "/oidc/callback/oidc/logout", "/oidc/logout/oidc/callback", "oidc/callback",
		"oidc/logout", "/aoidc/callback", "/a/OIDC/CALLBACK", "/a/oidc/callbackx", "http://evil.test/a", "/a%", "/%zz", "/" + strings.Repeat("a", 3000), "/" + strings.Repeat("a/", 500) + "b", "/\n", "/a\r\nX: y", ""}
	oddMethods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "get", "", "ALL", "G\x00T", "CONNECT"}
	oddAuth    = []string{"", "Bearer", "Bearer ", "bearer x", "Bearer x y z", "Basic eA==", "Bearer  ", " Bearer a", "Bearer a.b.c", "Bearer ..", "Bearer ...", "Bearer \x00", "Bearer " + strings.Repeat("a", 5000), "\xff", "Bearer eyJhbGciOiJub25lIn0.e30.", "Bearer e30.e30.e30", "Bearer bnVsbA.bnVsbA.x", "Bearer W10.W10.x", "Bearer,a", "Bearer\ta", "BEARER a b"}
	oddCookies = []string{"", "=", ";", "oidc-cookie-cid", "oidc-cookie-cid=", "oidc-cookie-cid=;", "oidc-cookie-cid=x", "oidc-cookie-cid=x; oidc-cookie-cid=y", "oidc-cookie-cid=\x00", "oidc-cookie-cid=\"", "a=b;;;=;x", "oidc-cookie-cid=" + strings.Repeat("A", 9000), "\xff\xfe", "oidc-cookie-cid=|||", "oidc-cookie-cid=bnVsbA==", "oidc-cookie-=x", ",,,", "oidc-cookie-cid=MTIzfGFiY3xkZWY=",
		strings.Repeat("a", 60), "x=1; " + strings.Repeat("b", 300) + "; y", strings.Repeat("=", 50), strings.Repeat(";", 50), strings.Repeat("k", 70) + "=", strings.Repeat("c=d; ", 200), "a = b ; c", "$Version=1; oidc-cookie-cid=x; $Path=/"}
	oddParams  = []string{"", "x", "\x00", strings.Repeat("z", 4000), "a&b=c", "\xff", "%zz"}
)

func c19() {
	polInit()
	c := lib.NewCheck("C19", "exploration")
	l := lib.NewLab()
	l.UserInfo = func(*lib.Rec) lib.Answer { return lib.Answer{Status: 401} }
	l.W = lib.NewWorld(polKube, nil)
	l.Secrets["cid"] = "secret-cid"
	l.W.Set(lib.JwtConfig("ns", "j", l.URL("jwks")))
	l.W.Set(lib.OidcConfig("ns", "o", "cid", l.URL("disc")))
	jwtP, oidcP := lib.Pol("jwt", "j"), lib.Pol("oidc", "o")
	l.W.Set(lib.Policy("ns", "pj", "jwtall", lib.Path("", "/", "ALL", jwtP)))
	l.W.Set(lib.Policy("ns", "po", "oidcall", lib.Path("", "/", "ALL", oidcP)))
	l.W.Set(lib.Policy("ns", "pe", "mixed", lib.Path("/a", "", "ALL", jwtP), lib.Path("", "/a/b", "ALL", oidcP), lib.Path("/p", "", "GET", oidcP), lib.Path("/p", "", "POST", jwtP)))
	l.W.Set(lib.Policy("ns", "pr", "root", lib.Path("/", "", "ALL", oidcP)))
	svcs := []string{"jwtall", "oidcall", "mixed", "root", "none"}

	// (a) every subset of missing message parts
	parts := []string{"request message", "instance", "target", "request", "headers", "params"}
	product(c, "missing parts", []int{1 << uint(len(parts)), len(svcs), 4}, func(i []int) (string, interface{}, string) {
		show := []string{}
		mask := i[0]
		for k, p := range parts {
			if mask&(1<<uint(k)) != 0 {
				show = append(show, p)
			}
		}
		m := lib.Req{NS: "ns", Svc: svcs[i[1]], Method: "GET", Path: []string{"/a", "/a/b/c/", "/a/oidc/callback", "/a/oidc/logout"}[i[2]]}.Msg()
		if mask&16 != 0 {
			m.Instance.Request.Headers = nil
		}
		if mask&32 != 0 {
			m.Instance.Request.Params = nil
		}
		if mask&8 != 0 {
			m.Instance.Request = nil
		}
		if mask&4 != 0 {
			m.Instance.Target = nil
		}
		if mask&2 != 0 {
			m.Instance = nil
		}
		if mask&1 != 0 {
			m = nil
		}
		res := lib.DoMsg(l.W.Adapter, m)
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, show, ""
		}
		if mask != 0 && res.Kind != lib.KError {
			return fmt.Sprintf("a message without %v for service %s is answered %v instead of an error", show, svcs[i[1]], res), show, ""
		}
		c.Count("distinct_nontrivial", 1)
		return "", show, res.Kind
	})

	// covered tells whether the policies of a service cover a path (after removal of trailing slashes): 1 yes, 0 no, 2 not asserted
	covered := func(svc, path string, method string) int {
		p := strings.TrimRight(path, "/")
		for _, s := range []string{"/oidc/callback", "/oidc/logout"} {
			if strings.HasSuffix(p, s) {
				return map[string]int{"jwtall": 1, "oidcall": 1, "mixed": 2, "root": 2, "none": 0}[svc]
			}
		}
		switch svc {
		case "jwtall", "oidcall":
			if p == "" || strings.HasPrefix(p, "/") {
				return 1
			}
			return 2 // not a path
		case "mixed":
			if p == "/a" || p == "/a/b" || strings.HasPrefix(p, "/a/b/") || p == "/p" && (method == "GET" || method == "POST") {
				return 1
			}
			if p == "/p" || !strings.HasPrefix(path, "/") || strings.Contains(p, "*") {
				return 2
			}
			return 0
		case "root":
			if path == "/" || path == "" {
				return 1
			}
			if p == "" {
				return 2
			}
			return 0
		}
		return 0
	}
	check := func(r lib.Req, show interface{}) (string, interface{}, string) {
		ask := func(p string) lib.Res { q := r; q.Path = p; return l.Do(q) }
		res := ask(r.Path)
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err + "\n" + res.Stack, show, ""
		}
		cov := covered(r.Svc, r.Path, r.Method)
		if r.NS != "ns" {
			cov = 0
		}
		if cov == 1 && res.Kind == lib.KOK {
			return fmt.Sprintf("a protected path is let through: %v", res), show, ""
		}
		if cov == 0 && res.Kind != lib.KOK {
			return fmt.Sprintf("a path without policy is answered %v", res), show, ""
		}
		// trailing slashes
		if r.Path != "" && !strings.HasSuffix(r.Path, "/") {
			for _, t := range []string{"/", "//", "////"} {
				x := ask(r.Path + t)
				if x.Kind == lib.KPanic {
					return "panic: " + x.Err, show, ""
				}
				if strings.HasSuffix(r.Path, "/oidc/callback") || strings.HasSuffix(r.Path, "/oidc/logout") {
					if (x.Kind == lib.KOK) != (res.Kind == lib.KOK) {
						return fmt.Sprintf("with %q appended the answer is %v instead of %v", t, x, res), show, ""
					}
					continue
				}
				if x.Kind != res.Kind || x.HTTP != res.HTTP || x.WWW != res.WWW {
					return fmt.Sprintf("with %q appended the answer is %v instead of %v", t, x, res), show, ""
				}
			}
		}
		c.Count("distinct_nontrivial", 1)
		return "", show, fmt.Sprintf("%s covered=%d", res.Kind, cov)
	}
	product(c, "paths and methods", []int{len(oddPaths), len(oddMethods), len(svcs), 3, 3}, func(i []int) (string, interface{}, string) {
		r := lib.Req{NS: "ns", Svc: svcs[i[2]], Path: oddPaths[i[0]], Method: oddMethods[i[1]], Auth: []string{"", "Bearer x", "Bearer a.b.c d.e.f"}[i[3]], Cookies: []string{"", "oidc-cookie-cid=x", ";=;"}[i[4]]}
		return check(r, fmt.Sprintf("%.200q", r))
	})
	product(c, "headers and parameters", []int{4, len(oddAuth), len(oddCookies), len(oddParams), len(oddParams), 3}, func(i []int) (string, interface{}, string) {
		r := lib.Req{NS: "ns", Svc: []string{"jwtall", "oidcall", "oidcall", "oidcall"}[i[0]], Path: []string{"/a", "/a", "/a/oidc/callback", "/a/oidc/logout"}[i[0]], Method: "GET", Auth: oddAuth[i[1]], Cookies: oddCookies[i[2]], Code: oddParams[i[3]], State: oddParams[i[4]], Error: oddParams[i[5]]}
		if r.Svc == "jwtall" && (i[2] > 1 || i[3] > 1) || r.Svc == "oidcall" && i[1] > 2 {
			return "", nil, "skip" // the other flow's inputs
		}
		return check(r, fmt.Sprintf("%.300q", r))
	})
	names := []string{"", "ns", "NS", "ns/jwtall", "n\x00", "*", "\u00fc", strings.Repeat("n", 300), "jwtall", "ns.svc.cluster.local"}
	product(c, "services", []int{len(names), len(names), 4, len(oddMethods)}, func(i []int) (string, interface{}, string) {
		r := lib.Req{NS: names[i[0]], Svc: names[i[1]], Path: []string{"/a", "/", "/a/oidc/callback", "/a/oidc/logout"}[i[2]], Method: oddMethods[i[3]]}
		if r.NS == "ns" && r.Svc == "jwtall" {
			return check(r, fmt.Sprintf("%.200q", r))
		}
		res := l.Do(r)
		if res.Kind != lib.KOK {
			return fmt.Sprintf("a service without policy is answered %v", res), fmt.Sprintf("%.200q", r), ""
		}
		return "", nil, "OK"
	})
	// target and request path need not agree; host and scheme are arbitrary
	hosts := []string{"app.test", "", "a b", "[::", "\x00", "evil.test/x?y", strings.Repeat("h", 2000), "user:pw@h"}
	product(c, "target and request differ", []int{len(oddPaths), len(oddPaths), 2, len(hosts)}, func(i []int) (string, interface{}, string) {
		m := lib.Req{NS: "ns", Svc: []string{"jwtall", "oidcall"}[i[2]], Method: "GET", Path: oddPaths[i[0]], Host: hosts[i[3]], Code: "c", State: "s", Cookies: "oidc-cookie-cid=x"}.Msg()
		if i[3] >= 3 && i[0]%5 != 1 {
			return "", nil, "skip"
		}
		m.Instance.Request.Path = oddPaths[i[1]]
		m.Instance.Request.Host = hosts[i[3]]
		if i[3]%2 == 1 {
			m.Instance.Request.Scheme = ":"
		}
		show := fmt.Sprintf("target %.100q request %.100q host %.50q", oddPaths[i[0]], oddPaths[i[1]], hosts[i[3]])
		res := lib.DoMsg(l.W.Adapter, m)
		if res.Kind == lib.KPanic {
			return "panic: " + res.Err, show, ""
		}
		if covered([]string{"jwtall", "oidcall"}[i[2]], oddPaths[i[0]], "GET") == 1 && res.Kind == lib.KOK {
			return fmt.Sprintf("a protected path is let through: %v", res), show, ""
		}
		return "", show, res.Kind
	})
	oddClaims(c)
	// empty structures inside the message
	for _, m := range []*authnz.HandleAuthnZRequest{{}, {Instance: &authnz.InstanceMsg{}}, {Instance: &authnz.InstanceMsg{Request: &authnz.RequestMsg{}, Target: &authnz.TargetMsg{}}}} {
		if res := lib.DoMsg(l.W.Adapter, m); res.Kind != lib.KError {
			c.Violation("empty", fmt.Sprintf("empty message %v is answered %v", m, res), fmt.Sprint(m), nil)
		}
	}
	c.Cov["rule"] = "every combination of the listed values per space; non-trivial: cases that reached their expected answer (not skipped)"
	c.Finish()
}

func init() { checks["C19"], checks["C21"], checks["C22"], checks["C23"] = c19, c21, c22, c23 }
