// Command vwords collects the strings, characters and numbers that the sources
// under a directory mention, as JSON. They guide workloads towards what the
// code treats specially; nothing is judged by them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type words struct {
	strs map[string]bool
	ints map[int64]bool
	defs map[string]constant.Value // named constants, by name only
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vwords DIR")
		os.Exit(2)
	}
	w := words{map[string]bool{}, map[int64]bool{}, map[string]constant.Value{}}
	fset := token.NewFileSet()
	var files []*ast.File
	filepath.WalkDir(os.Args[1], func(p string, d fs.DirEntry, err error) error {
		switch {
		case err != nil:
			return nil
		case d.IsDir():
			if n := d.Name(); n == ".git" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		case !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go"):
			return nil
		}
		if i, err := d.Info(); err != nil || i.Size() > 60000 {
			return nil // a table
		}
		if f, err := parser.ParseFile(fset, p, nil, 0); err == nil || f != nil {
			files = append(files, f)
		}
		return nil
	})
	for pass := 0; pass < 3; pass++ {
		for _, f := range files {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok {
					w.consts(g)
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if g, ok := n.(*ast.GenDecl); ok {
					w.consts(g)
				}
				return true
			})
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				if len(n.Elts) > 600 { // a table
					return false
				}
			case ast.Expr:
				w.add(w.eval(n))
			}
			return true
		})
	}
	var out struct {
		Strings []string
		Ints    []int64
	}
	for s := range w.strs {
		out.Strings = append(out.Strings, s)
	}
	for i := range w.ints {
		out.Ints = append(out.Ints, i)
	}
	sort.Strings(out.Strings)
	sort.Slice(out.Ints, func(i, j int) bool { return out.Ints[i] < out.Ints[j] })
	// (JSON has no bytes: as hexadecimal)
	for i, s := range out.Strings {
		out.Strings[i] = fmt.Sprintf("%x", s)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func (w *words) consts(g *ast.GenDecl) {
	if g.Tok != token.CONST && g.Tok != token.VAR {
		return
	}
	for _, s := range g.Specs {
		if v, ok := s.(*ast.ValueSpec); ok && len(v.Values) == len(v.Names) {
			for i, n := range v.Names {
				if c := w.eval(v.Values[i]); c.Kind() != constant.Unknown {
					w.defs[n.Name] = c
				}
			}
		}
	}
}

func (w *words) add(v constant.Value) {
	switch v.Kind() {
	case constant.String:
		if s := constant.StringVal(v); len(s) > 0 && len(s) <= 200 {
			w.strs[s] = true
		}
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok && i >= 0 {
			w.ints[i] = true
		}
	}
}

var unknown = constant.MakeUnknown()

// eval folds what can be folded without types.
func (w *words) eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = unknown
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return w.eval(e.X)
	case *ast.Ident:
		if v, ok := w.defs[e.Name]; ok {
			return v
		}
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			switch x.Name + "." + e.Sel.Name {
			case "bufio.MaxScanTokenSize":
				return constant.MakeInt64(65536)
			case "math.MaxUint8":
				return constant.MakeInt64(255)
			case "math.MaxInt8":
				return constant.MakeInt64(127)
			case "math.MaxUint16":
				return constant.MakeInt64(65535)
			case "math.MaxInt16":
				return constant.MakeInt64(32767)
			case "unicode.MaxRune", "utf8.MaxRune":
				return constant.MakeInt64(0x10FFFF)
			}
		}
		if v, ok := w.defs[e.Sel.Name]; ok {
			return v
		}
	case *ast.CallExpr: // a conversion
		if len(e.Args) == 1 {
			if id, ok := e.Fun.(*ast.Ident); ok && strings.Contains(" int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 byte rune uintptr ", " "+id.Name+" ") {
				if v := w.eval(e.Args[0]); v.Kind() == constant.Int {
					return v
				}
			}
		}
	case *ast.UnaryExpr:
		if x := w.eval(e.X); x.Kind() == constant.Int && (e.Op == token.SUB || e.Op == token.ADD) {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := w.eval(e.X), w.eval(e.Y)
		if x.Kind() == constant.Unknown || y.Kind() == constant.Unknown {
			return unknown
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 63 && x.Kind() == constant.Int {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.QUO:
			return constant.BinaryOp(x, token.QUO_ASSIGN, y)
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return unknown
}
