// Command instr inserts possible preemption points (runtime.SimYield) between the statements of Go
// packages, textually and without moving any line, and writes an overlay for them.
//
//	instr -out DIR -json FILE [-global dir,dir] dir...
//
// Packages listed in -global hold process-wide state that several simulated nodes share; their
// points use runtime.SimYieldGlobal, which the harness leaves off in runs that freeze nodes.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off int
	end int // replaced up to end (== off for pure insertion)
	s   string
	seq int
}

func main() {
	out := flag.String("out", "", "output directory")
	js := flag.String("json", "", "overlay file")
	glob := flag.String("global", "", "files (suffix match) with process wide state")
	flag.Parse()
	rep := map[string]string{}
	globs := strings.Split(*glob, ",")
	points := 0
	for _, dir := range flag.Args() {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			fail(err)
		}
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fn := "SimYieldAt"
			for _, g := range globs {
				if g != "" && strings.HasSuffix(f, g) {
					fn = "SimYieldGlobal"
				}
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			b, n, err := instrument(f, src, fn)
			if err != nil {
				fail(err)
			}
			points += n
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				fail(err)
			}
			rep[f] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(*js, b, 0o644); err != nil {
		fail(err)
	}
	fmt.Println("points:", points)
}

// is tells whether the statement gets a second point inside
func is(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.IncDecStmt, *ast.IfStmt, *ast.AssignStmt:
		return true
	}
	return false
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func instrument(name string, src []byte, fn string) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []ins
	points := 0
	add := func(o, e int, s string) { edits = append(edits, ins{o, e, s, len(edits)}) }
	// a number for each point which does not depend on where the repository lies
	rel := name
	for _, m := range []string{"/streams/", "/msk/"} {
		if i := strings.LastIndex(rel, m); i >= 0 {
			rel = rel[i:]
		}
	}
	sum := func(x string) uint64 { h := fnv.New64a(); h.Write([]byte(x)); return h.Sum64() }
	fnName, fnPoints := "", 0
	call := ""
	next := func() { // number: 16 bits file, 24 bits function, 24 bits statement
		id := sum(rel)<<48 | sum(rel+fnName)&0xffffff<<24 | sum(fmt.Sprint(rel, fnName, fnPoints))&0xffffff
		call = fmt.Sprintf("simrt.%s(0x%x); ", fn, id)
		if fn != "SimYieldAt" {
			call = "simrt." + fn + "(); "
		}
		points++
		fnPoints++
	}
	nosplit := map[ast.Node]bool{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") {
					nosplit[fd] = true
				}
			}
		}
	}
	simple := func(e ast.Expr) bool { // no calls, something shared is behind it
		shared := false
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit:
				ok = false
			case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
				shared = true
			}
			return true
		})
		return ok && shared
	}
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			next()
			add(off(s.Pos()), off(s.Pos()), call)
			if is(s) {
				next()
			}
			switch st := s.(type) {
			case *ast.IncDecStmt:
				if simple(st.X) {
					x := string(src[off(st.X.Pos()):off(st.X.End())])
					op := "+"
					if st.Tok == token.DEC {
						op = "-"
					}
					add(off(st.Pos()), off(st.End()), fmt.Sprintf("{ simt := %s; %s%s = simt %s 1 }", x, call, x, op))
				}
			case *ast.IfStmt:
				// if x++; cond {
				if in, ok := st.Init.(*ast.IncDecStmt); ok && simple(in.X) {
					x := string(src[off(in.X.Pos()):off(in.X.End())])
					op := "+"
					if in.Tok == token.DEC {
						op = "-"
					}
					add(off(in.Pos()), off(in.End()), fmt.Sprintf("func() { simt := %s; %s%s = simt %s 1 }()", x, call, x, op))
				}
			case *ast.AssignStmt:
				// x = x + e
				if bin, ok := st.Rhs[0].(*ast.BinaryExpr); ok && st.Tok == token.ASSIGN && len(st.Lhs) == 1 && len(st.Rhs) == 1 && simple(st.Lhs[0]) && simple2(bin.Y) {
					x := string(src[off(st.Lhs[0].Pos()):off(st.Lhs[0].End())])
					y := string(src[off(bin.X.Pos()):off(bin.X.End())])
					r := string(src[off(bin.Y.Pos()):off(bin.Y.End())])
					if x == y && (bin.Op == token.ADD || bin.Op == token.SUB) && !strings.Contains(r, "\n") {
						add(off(st.Pos()), off(st.End()), fmt.Sprintf("{ simt := %s; %s%s = simt %s (%s) }", x, call, x, bin.Op, r))
					}
				}
				if st.Tok != token.ASSIGN && st.Tok != token.DEFINE && len(st.Lhs) == 1 && simple(st.Lhs[0]) && simple2(st.Rhs[0]) {
					x := string(src[off(st.Lhs[0].Pos()):off(st.Lhs[0].End())])
					r := string(src[off(st.Rhs[0].Pos()):off(st.Rhs[0].End())])
					if !strings.Contains(x, "\n") && !strings.Contains(r, "\n") {
						op := strings.TrimSuffix(st.Tok.String(), "=")
						add(off(st.Pos()), off(st.End()), fmt.Sprintf("{ simt := %s; %s%s = simt %s (%s) }", x, call, x, op, r))
					}
				}
			}
		}
	}
	clauses := map[*ast.BlockStmt]bool{} // bodies that hold clauses, not statements
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.SelectStmt:
			clauses[b.Body] = true
		case *ast.SwitchStmt:
			clauses[b.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[b.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		if fd, ok := n.(*ast.FuncDecl); ok {
			if nosplit[fd] {
				return false
			}
			fnName, fnPoints = fd.Name.Name, 0
			if fd.Recv != nil {
				fnName = string(src[off(fd.Recv.Pos()):off(fd.Recv.End())]) + fnName
			}
		}
		switch b := n.(type) {
		case *ast.BlockStmt:
			if !clauses[b] {
				list(b.List)
			}
		case *ast.CaseClause:
			list(b.Body)
		case *ast.CommClause:
			list(b.Body)
		}
		return true
	})
	// import on the package line
	add(off(f.Name.End()), off(f.Name.End()), `; import simrt "runtime"`)
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var o []byte
	last := 0
	for _, e := range edits {
		if e.off < last {
			return nil, 0, fmt.Errorf("%s: overlapping edits", name)
		}
		o = append(o, src[last:e.off]...)
		o = append(o, e.s...)
		last = e.end
	}
	o = append(o, src[last:]...)
	o = append(o, "\nvar _ = simrt."+fn+"\n"...)
	return o, points, nil
}

// simple2: right hand side without function literals or calls (so that no edit is nested in it)
func simple2(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		case *ast.CallExpr:
			// conversions and len are as good as operands
			id, b := n.(*ast.CallExpr).Fun.(*ast.Ident)
			ok = ok && b && pure[id.Name]
		}
		return true
	})
	return ok
}

var pure = map[string]bool{"len": true, "cap": true, "int": true, "int64": true, "int32": true, "uint64": true, "uint32": true, "uint": true, "float64": true}
