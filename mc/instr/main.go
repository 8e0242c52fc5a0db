//go:build go1.21

// Command instr rewrites Go source files for the model checks and prints a JSON overlay map.
//
//	instr -out DIR [-conc] FILE...
//
// It replaces time.Now/Since/Until/Sleep by the explorer's clock and, with -conc, package sync by the
// cooperative scheduler's, puts scheduling points before statements with atomic or channel operations,
// and starts goroutines as scheduled threads. Nothing else changes.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

const base = "github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/"

type edit struct {
	at, end int
	text    string
}

func main() {
	out := flag.String("out", "", "output directory")
	conc := flag.Bool("conc", false, "concurrency instrumentation")
	flag.Parse()
	rep := map[string]string{}
	for i, f := range flag.Args() {
		b, err := rewrite(f, *conc)
		if err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			os.Exit(1)
		}
		if b == nil {
			continue
		}
		p := filepath.Join(*out, fmt.Sprintf("i%d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		rep[f] = p
	}
	_ = json.NewEncoder(os.Stdout).Encode(rep)
}

func rewrite(file string, conc bool) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	names := map[string]string{} // import path -> local name
	var edits []edit
	useClock, useSched, useRuntime, useNet := false, false, false, false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		names[p] = n
		if conc && p == "sync" {
			text := strconv.Quote(base + "vsync")
			if im.Name == nil {
				text = "sync " + text
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
		}
	}
	timeName, atomicName := names["time"], names["sync/atomic"]
	isSel := func(e ast.Expr, pkg string) (string, bool) {
		s, ok := e.(*ast.SelectorExpr)
		if !ok || pkg == "" {
			return "", false
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Name != pkg || id.Obj != nil {
			return "", false
		}
		return s.Sel.Name, true
	}
	isAtomic := func(e ast.Expr) bool {
		if _, ok := isSel(e, atomicName); ok {
			return true
		}
		if c, ok := e.(*ast.CallExpr); ok && atomicName != "" { // methods of atomic types
			if m, ok := c.Fun.(*ast.SelectorExpr); ok {
				switch m.Sel.Name {
				case "Load", "Store", "Swap", "CompareAndSwap", "Add", "And", "Or":
					return true
				}
			}
		}
		return false
	}
	points := func(l []ast.Stmt) {
		for _, st := range l {
			if kind := needsPoint(st, isAtomic); kind != "" {
				edits = append(edits, edit{off(st.Pos()), off(st.Pos()), "vsched_.Point(\"" + kind + "\"); "})
				useSched = true
			}
		}
	}
	clockFn := map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(ast.Expr); ok {
			if name, ok := isSel(e, timeName); ok && clockFn[name] {
				edits = append(edits, edit{off(e.Pos()), off(e.End()), "vclock_." + name})
				useClock = true
			}
		}
		if e, ok := n.(ast.Expr); ok && isTransport(e, func(e ast.Expr) bool { name, ok := isSel(e, names["net/http"]); return ok && name == "Transport" }) {
			edits = append(edits, edit{off(e.Pos()), off(e.Pos()), "vnet_.Adopt("}, edit{off(e.End()), off(e.End()), ")"})
			useNet = true
		}
		if !conc {
			return true
		}
		if e, ok := n.(ast.Expr); ok {
			if name, ok := isSel(e, names["runtime"]); ok && name == "Gosched" {
				edits = append(edits, edit{off(e.Pos()), off(e.End()), "vsched_.Gosched"})
				useSched, useRuntime = true, true
			}
		}
		switch s := n.(type) {
		case *ast.BlockStmt:
			points(s.List)
		case *ast.CaseClause:
			points(s.Body)
		case *ast.CommClause:
			points(s.Body)
		case *ast.ForStmt:
			if s.Cond != nil && needsPoint(&ast.ExprStmt{X: s.Cond}, isAtomic) != "" {
				edits = append(edits, edit{off(s.Body.Lbrace) + 1, off(s.Body.Lbrace) + 1, " vsched_.Yield(\"spin\"); "})
				useSched = true
			}
		case *ast.GoStmt:
			edits = append(edits, goStmt(s, off)...)
			useSched = true
		}
		return true
	})
	if len(edits) == 0 {
		return nil, nil
	}
	imp := ""
	if useClock {
		imp += "; import vclock_ \"" + base + "vclock\""
	}
	if useSched {
		imp += "; import vsched_ \"" + base + "vsched\""
	}
	if useNet {
		imp += "; import vnet_ \"" + base + "vnet\""
	}
	if imp != "" {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), imp})
	}
	tail := ""
	if useClock {
		tail += "\nvar _ " + timeName + ".Duration\n"
	}
	if useRuntime {
		tail += "\nvar _ = " + names["runtime"] + ".NumCPU\n"
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var res []byte
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			continue // nested inside an edited range
		}
		res = append(res, src[pos:e.at]...)
		res = append(res, e.text...)
		pos = e.end
	}
	res = append(res, src[pos:]...)
	return append(res, tail...), nil
}

// goStmt makes a go statement start a scheduled thread; function and arguments are evaluated at once, as in Go.
func goStmt(s *ast.GoStmt, off func(token.Pos) int) []edit {
	c := s.Call
	builtin := false
	if id, ok := c.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "close", "delete", "panic", "print", "println", "copy":
			builtin = id.Obj == nil
		}
	}
	if builtin || (len(c.Args) == 0 && isFuncLit(c.Fun)) {
		return []edit{{off(s.Go), off(c.Pos()), "vsched_.Go(func() { "}, {off(c.End()), off(c.End()), " })"}}
	}
	var l []edit
	open, call := "{ vf_ := ", "vf_("
	at := off(s.Go)
	next := off(c.Fun.Pos())
	l = append(l, edit{at, next, open})
	at = off(c.Fun.End())
	pending := "; "
	for i, a := range c.Args {
		if i > 0 {
			call += ", "
		}
		switch x := a.(type) {
		case *ast.BasicLit:
			call += x.Value
			continue
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				call += x.Name
				continue
			}
		}
		v := fmt.Sprintf("va%d_", i)
		call += v
		l = append(l, edit{at, off(a.Pos()), pending + v + " := "})
		at = off(a.End())
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	return append(l, edit{at, off(c.End()), pending + "vsched_.Go(func() { " + call + ") }) }"})
}

// isTransport reports whether an expression makes a new *http.Transport: &http.Transport{}, new(http.Transport), or Clone of one.
func isTransport(e ast.Expr, is func(ast.Expr) bool) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return false // its content is
	case *ast.UnaryExpr:
		c, ok := x.X.(*ast.CompositeLit)
		return ok && x.Op == token.AND && c.Type != nil && is(c.Type)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "new" && len(x.Args) == 1 {
			return is(x.Args[0])
		}
		s, ok := x.Fun.(*ast.SelectorExpr)
		return ok && s.Sel.Name == "Clone" && len(x.Args) == 0 && holdsTransport(s.X, is)
	}
	return false
}

func holdsTransport(e ast.Expr, is func(ast.Expr) bool) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return holdsTransport(x.X, is)
	case *ast.TypeAssertExpr:
		p, ok := x.Type.(*ast.StarExpr)
		return ok && is(p.X)
	case *ast.Ident:
		if x.Obj == nil {
			return false
		}
		switch d := x.Obj.Decl.(type) {
		case *ast.AssignStmt:
			for i, r := range d.Rhs {
				if i == 0 && len(d.Rhs) == 1 || i < len(d.Lhs) && sameIdent(d.Lhs[i], x) {
					return isTransport(r, is) || holdsTransport(r, is)
				}
			}
		case *ast.ValueSpec:
			for _, r := range d.Values {
				if isTransport(r, is) || holdsTransport(r, is) {
					return true
				}
			}
			p, ok := d.Type.(*ast.StarExpr)
			return ok && is(p.X)
		case *ast.Field:
			p, ok := d.Type.(*ast.StarExpr)
			return ok && is(p.X)
		}
	}
	return isTransport(e, is)
}

func sameIdent(e ast.Expr, x *ast.Ident) bool { id, ok := e.(*ast.Ident); return ok && id.Name == x.Name }

func isFuncLit(e ast.Expr) bool { _, ok := e.(*ast.FuncLit); return ok }

// needsPoint reports whether a statement's own expressions (not nested blocks) use channels or atomics.
func needsPoint(st ast.Stmt, isAtomic func(ast.Expr) bool) string {
	found := ""
	ast.Inspect(st, func(n ast.Node) bool {
		switch e := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SendStmt, *ast.SelectStmt:
			found = "chan"
		case *ast.UnaryExpr:
			if e.Op == token.ARROW {
				found = "chan"
			}
		case ast.Expr:
			if found == "" && isAtomic(e) {
				found = "atomic"
			}
		}
		return true
	})
	return found
}
