package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// points is the table of scheduling points: id -> file:line.
type points struct {
	where []string
}

var syncNames = map[string]bool{
	"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true,
	"Wait": true, "Done": true, "Add": true, "Store": true, "Load": true, "Swap": true,
	"CompareAndSwap": true, "CAS": true, "Do": true, "Once": true, "Break": true, "IsBroken": true,
	"Watch": true, "Signal": true, "Broadcast": true, "Close": true, "close": true, "cancel": true,
	"Publish": true, "Send": true, "Recv": true, "Range": true, "Delete": true, "LoadOrStore": true,
	"Subscribe": true, "SubscribeQueue": true, "Err": true, "Inc": true, "Dec": true, "Stop": true, "Reset": true,
	"Get": true, "Put": true, "Flush": true, "Unsubscribe": true, "Drain": true, "Ack": true,
}

func isSync(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found || n == nil {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				found = found || syncNames[f.Name]
			case *ast.SelectorExpr:
				found = found || syncNames[f.Sel.Name]
			}
		}
		return !found
	})
	return found
}

// instrumentFile inserts a scheduling point before every statement. Insertion is
// textual and never adds a line, so positions stay those of the original.
func (p *points) instrumentFile(path, rel string) (string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	type ins struct {
		off  int
		text string
	}
	var inserts []ins
	inserts = append(inserts, ins{fset.Position(f.Name.End()).Offset, `; import _verif "runtime"`})
	add := func(list []ast.Stmt) {
		for _, st := range list {
			switch st.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			class := 0
			if isSync(st) {
				class = 1
			}
			pos := fset.Position(st.Pos())
			id := len(p.where)
			p.where = append(p.where, fmt.Sprintf("%s:%d", rel, pos.Line))
			inserts = append(inserts, ins{pos.Offset, fmt.Sprintf("_verif.VerifPoint(%d); ", id<<2|class)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(inserts) == 1 {
		return string(src), nil
	}
	sort.SliceStable(inserts, func(i, j int) bool { return inserts[i].off < inserts[j].off })
	var b strings.Builder
	last := 0
	for _, in := range inserts {
		b.Write(src[last:in.off])
		b.WriteString(in.text)
		last = in.off
	}
	b.Write(src[last:])
	return b.String(), nil
}

func (o *overlay) instrumentPackages(p *points, repo string, pkgs []string) error {
	for _, pkg := range pkgs {
		ents, err := os.ReadDir(filepath.Join(repo, pkg))
		if err != nil {
			return err
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") || n == "magefile.go" {
				continue
			}
			full := filepath.Join(repo, pkg, n)
			s, err := p.instrumentFile(full, filepath.Join(pkg, n))
			if err != nil {
				return err
			}
			if err := o.put(full, s); err != nil {
				return err
			}
		}
	}
	return nil
}
