// Command instr writes an instrumented copy of the library's sources and a go
// build overlay: a call of the scheduler stands before every statement, and
// packages sync and sync/atomic are replaced by ones which the scheduler sees. Line numbers
// are preserved.
//
//	instr REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off int
	del int
	s   string
}

var shims = map[string]string{
	`"sync"`:        `"verif/mc/sched/msync"`,
	`"sync/atomic"`: `"verif/mc/sched/matomic"`,
}

// channels tells whether the statement itself, leaving out the blocks and function
// literals in it, works on a channel.
func channels(s ast.Stmt) (yes bool) {
	if _, ok := s.(*ast.SelectStmt); ok {
		return true
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SendStmt:
			yes = true
		case *ast.UnaryExpr:
			yes = yes || t.Op == token.ARROW
		case *ast.CallExpr:
			if f, ok := t.Fun.(*ast.Ident); ok && f.Name == "close" && len(t.Args) == 1 {
				yes = true
			}
		}
		return true
	})
	return yes
}

func file(path string) ([]byte, int, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, 0, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, err
	}
	for _, d := range f.Imports {
		if d.Path.Value == `"C"` {
			return src, 0, nil
		}
	}
	var l []ins
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	points := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			call := "mcsched.P(); "
			if channels(s) {
				call = "mcsched.S(); "
			}
			l = append(l, ins{off: off(s.Pos()), s: call})
			points++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt:
			list(t.List)
		case *ast.CaseClause:
			list(t.Body)
		case *ast.CommClause:
			list(t.Body)
		}
		return true
	})
	// a switch or select body is a block of clauses: take those insertions out
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.CaseClause:
			bad[off(t.Pos())] = true
		case *ast.CommClause:
			bad[off(t.Pos())] = true
		}
		return true
	})
	k := l[:0]
	for _, i := range l {
		if !bad[i.off] {
			k = append(k, i)
		} else {
			points--
		}
	}
	l = k
	for _, d := range f.Imports {
		if path, base := shims[d.Path.Value], strings.Trim(filepath.Base(d.Path.Value), `"`); path != "" {
			name := ""
			if d.Name == nil {
				name = base + " "
			}
			l = append(l, ins{off: off(d.Path.Pos()), del: len(d.Path.Value), s: name + path})
		}
	}
	if points > 0 {
		l = append(l, ins{off: off(f.Name.End()), s: `; import mcsched "verif/mc/sched"`})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].off < l[j].off })
	var w strings.Builder
	at := 0
	for _, i := range l {
		w.Write(src[at:i.off])
		w.WriteString(i.s)
		at = i.off + i.del
	}
	w.Write(src[at:])
	return []byte(w.String()), points, nil
}

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instr REPO OUTDIR")
		os.Exit(2)
	}
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	total := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, n, err := file(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		q := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(q, b, 0644); err != nil {
			return err
		}
		overlay[p] = q
		total += n
		return nil
	})
	if err == nil {
		var b []byte
		b, err = json.Marshal(map[string]interface{}{"Replace": overlay})
		if err == nil {
			err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("instrumented %d files, %d scheduling points\n", len(overlay), total)
}
