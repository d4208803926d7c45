// Command instr writes an overlay in which every statement of the given
// packages is preceded by a scheduling point, and sync locks by visible ones.
//
// usage: instr OUTDIR point:DIR... step:DIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const vsched = "github.com/mmcloughlin/addchain/verifmc/vsched"

type edit struct {
	from, to int
	text     string
}

func instrument(file, call string) (string, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return "", err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	used := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			o := off(s.Pos())
			edits = append(edits, edit{o, o, "verifsched." + call + "(); "})
			used++
		}
	}
	// The file may import sync under another name.
	syncname := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			syncname = "sync"
			if im.Name != nil {
				syncname = im.Name.Name
			}
		}
	}
	keep := ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SelectorExpr:
			x, ok := n.X.(*ast.Ident)
			if !ok || syncname == "" || x.Name != syncname {
				return true
			}
			switch n.Sel.Name {
			case "Mutex", "RWMutex", "Once":
				edits = append(edits, edit{off(x.Pos()), off(x.End()), "verifsched"})
				used++
				keep = "\nvar _ " + syncname + ".Locker\n"
			}
		}
		return true
	})
	if used == 0 {
		return string(src), nil
	}
	o := off(f.Name.End())
	edits = append(edits, edit{o, o, fmt.Sprintf("; import verifsched %q", vsched)})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:])
	b.WriteString(keep)
	return b.String(), nil
}

func main() {
	out := os.Args[1]
	replace := map[string]string{}
	for _, arg := range os.Args[2:] {
		kind, dir, _ := strings.Cut(arg, ":")
		call := map[string]string{"point": "Point", "step": "Step"}[kind]
		p, err := build.ImportDir(dir, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, name := range p.GoFiles {
			file := filepath.Join(dir, name)
			s, err := instrument(file, call)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", len(replace), name))
			if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			replace[file] = dst
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
