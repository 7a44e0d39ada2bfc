// Command instr writes instrumented copies of the library's source files: a
// scheduling point before each statement, and lock types that block on
// channels. Scheduling points in files with concurrency of their own get
// labels that start with "!".
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const pkg = "github.com/go-oidfed/lib/zzsched"

func main() {
	repo, out := os.Args[1], os.Args[2]
	for _, dir := range []string{".", "cache", "jwks", "internal", "internal/http", "internal/jwx", "internal/utils", "unixtime", "apimodel"} {
		files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		for _, f := range files {
			base := filepath.Base(f)
			if strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "mock_") || base == "metadata_generated.go" || base == "metadata_input.go" {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			res, err := instrument(filepath.ToSlash(filepath.Join(dir, base)), src)
			if err != nil {
				fail(err)
			}
			if res == nil {
				continue
			}
			name := filepath.Join(out, strings.ReplaceAll(filepath.ToSlash(filepath.Join(dir, base)), "/", "@"))
			if err = os.WriteFile(name, res, 0o644); err != nil {
				fail(err)
			}
		}
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

func instrument(name string, src []byte) ([]byte, error) {
	if bytes.Contains(src, []byte("//go:build")) {
		return nil, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, err
	}
	conc := false
	syncName := ""
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if p == "C" {
			return nil, nil
		}
		if p == "sync" || strings.HasPrefix(p, "sync/") || strings.Contains(p, "singleflight") || strings.Contains(p, "errgroup") {
			conc = true
		}
		if p == "sync" {
			syncName = "sync"
			if i.Name != nil {
				syncName = i.Name.Name
			}
		}
	}
	hasFunc := false
	ast.Inspect(
		f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.GoStmt, *ast.ChanType:
				conc = true
			case *ast.FuncDecl:
				hasFunc = true
			}
			return true
		},
	)
	if !hasFunc {
		return nil, nil
	}
	prefix := ""
	if conc {
		prefix = "!"
	}
	shared := sharedStatements(f)
	point := func(s ast.Stmt) ast.Stmt {
		p := fset.Position(s.Pos())
		prefix := prefix
		if !shared[s] {
			prefix = strings.Replace(prefix, "!", "~", 1)
		}
		return &ast.ExprStmt{
			X: &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent("Y")},
				Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s%s:%d", prefix, name, p.Line))}},
			},
		}
	}
	weave := func(l []ast.Stmt) []ast.Stmt {
		var o []ast.Stmt
		for _, s := range l {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt:
			default:
				o = append(o, point(s))
			}
			o = append(o, s)
		}
		return o
	}
	ast.Inspect(
		f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.SwitchStmt:
				for _, c := range v.Body.List {
					cc := c.(*ast.CaseClause)
					cc.Body = weave(cc.Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range v.Body.List {
					cc := c.(*ast.CaseClause)
					cc.Body = weave(cc.Body)
				}
			case *ast.SelectStmt:
				for _, c := range v.Body.List {
					cc := c.(*ast.CommClause)
					cc.Body = weave(cc.Body)
				}
			case *ast.SelectorExpr:
				if x, ok := v.X.(*ast.Ident); ok && syncName != "" && x.Name == syncName && x.Obj == nil {
					switch v.Sel.Name {
					case "Mutex", "RWMutex", "Once", "OnceFunc", "OnceValue", "OnceValues":
						x.Name = "zzsched"
					}
				}
			}
			return true
		},
	)
	// block statements last, so that the inserted statements are not visited
	var blocks []*ast.BlockStmt
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(
		f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.SwitchStmt:
				skip[v.Body] = true
			case *ast.TypeSwitchStmt:
				skip[v.Body] = true
			case *ast.SelectStmt:
				skip[v.Body] = true
			case *ast.BlockStmt:
				blocks = append(blocks, v)
			}
			return true
		},
	)
	for _, b := range blocks {
		if !skip[b] {
			b.List = weave(b.List)
		}
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent("zzsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(pkg)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	var buf bytes.Buffer
	if err = format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	fmt.Fprintf(&buf, "\nvar _ = zzsched.Mark(%q)\n", name)
	if syncName != "" && syncName != "_" && syncName != "." {
		fmt.Fprintf(&buf, "\nvar _ %s.Locker\n", syncName)
	}
	return buf.Bytes(), nil
}

// sharedStatements are those statements that (themselves, not in nested blocks)
// may touch something other goroutines touch too: fields of receivers and of
// pointer, map, slice and channel parameters, package variables, variables
// captured by a closure and written, elements of maps and slices that are
// written, channels and go statements.
func sharedStatements(f *ast.File) map[ast.Stmt]bool {
	type scope struct {
		from, to token.Pos
		lit      bool
	}
	var funcs []scope
	sharedObj := map[*ast.Object]bool{}
	params := func(l *ast.FieldList) {
		if l == nil {
			return
		}
		for _, p := range l.List {
			switch p.Type.(type) {
			case *ast.StarExpr, *ast.MapType, *ast.ArrayType, *ast.ChanType:
				for _, n := range p.Names {
					if n.Obj != nil {
						sharedObj[n.Obj] = true
					}
				}
			}
		}
	}
	ast.Inspect(
		f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.FuncDecl:
				params(v.Recv)
				params(v.Type.Params)
				if v.Body != nil {
					funcs = append(funcs, scope{v.Pos(), v.End(), false})
				}
			case *ast.FuncLit:
				params(v.Type.Params)
				funcs = append(funcs, scope{v.Pos(), v.End(), true})
			case *ast.GenDecl:
				if v.Tok == token.VAR {
					for _, sp := range v.Specs {
						for _, n := range sp.(*ast.ValueSpec).Names {
							if n.Obj != nil && f.Scope.Lookup(n.Name) == n.Obj {
								sharedObj[n.Obj] = true
							}
						}
					}
				}
			}
			return true
		},
	)
	inner := func(p token.Pos) scope {
		var best scope
		for _, s := range funcs {
			if s.from <= p && p < s.to && (best.to == 0 || s.to-s.from < best.to-best.from) {
				best = s
			}
		}
		return best
	}
	captured := func(id *ast.Ident) bool {
		if id.Obj == nil || id.Obj.Kind != ast.Var {
			return false
		}
		s := inner(id.Pos())
		return s.lit && !(s.from <= id.Obj.Pos() && id.Obj.Pos() < s.to)
	}
	var root func(e ast.Expr) *ast.Ident
	root = func(e ast.Expr) *ast.Ident {
		switch v := e.(type) {
		case *ast.Ident:
			return v
		case *ast.SelectorExpr:
			return root(v.X)
		case *ast.IndexExpr:
			return root(v.X)
		case *ast.StarExpr:
			return root(v.X)
		case *ast.ParenExpr:
			return root(v.X)
		case *ast.UnaryExpr:
			return root(v.X)
		}
		return nil
	}
	// variables that some closure writes, or calls methods of
	isCaptured, written := map[*ast.Object]bool{}, map[*ast.Object]bool{}
	write := func(e ast.Expr) {
		if id := root(e); id != nil && id.Obj != nil {
			written[id.Obj] = true
		}
	}
	ast.Inspect(
		f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.Ident:
				if captured(v) {
					isCaptured[v.Obj] = true
				}
			case *ast.AssignStmt:
				for _, l := range v.Lhs {
					if id := root(l); id != nil && (captured(id) || v.Tok != token.DEFINE) {
						write(l)
					}
				}
			case *ast.IncDecStmt:
				write(v.X)
			case *ast.SendStmt:
				write(v.Chan)
			case *ast.UnaryExpr:
				if v.Op == token.AND || v.Op == token.ARROW {
					write(v.X)
				}
			case *ast.CallExpr:
				if sel, ok := v.Fun.(*ast.SelectorExpr); ok {
					if id := root(sel.X); id != nil && captured(id) {
						if _, direct := sel.X.(*ast.Ident); direct {
							write(sel.X)
						}
					}
				}
			}
			return true
		},
	)
	for o := range isCaptured {
		if written[o] {
			sharedObj[o] = true
		}
	}
	out := map[ast.Stmt]bool{}
	hit := func(s ast.Stmt) bool {
		res := false
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
				res = true
			case *ast.UnaryExpr:
				if v.Op == token.ARROW {
					res = true
				}
			case *ast.RangeStmt:
				if v.Value == nil && v.Key == nil {
					res = true
				}
			case *ast.AssignStmt:
				for _, l := range v.Lhs {
					if _, ok := l.(*ast.IndexExpr); ok {
						res = true
					}
				}
			case *ast.Ident:
				if v.Obj != nil && sharedObj[v.Obj] {
					res = true
				}
				if v.Obj == nil {
					// a package variable of another file cannot be told from a function
					return true
				}
			}
			return true
		}
		ast.Inspect(s, walk)
		return res
	}
	ast.Inspect(
		f, func(n ast.Node) bool {
			if s, ok := n.(ast.Stmt); ok {
				if _, block := s.(*ast.BlockStmt); !block && hit(s) {
					out[s] = true
				}
			}
			return true
		},
	)
	return out
}
