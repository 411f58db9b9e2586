// Package instr writes an instrumented copy of velty's sources: a call of the scheduler before every statement, and the
// scheduler's Mutex, RWMutex, Once and Pool in place of those of package sync.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Module is the directory of velty's sources.
func Module(dir string) (string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/viant/velty")
	cmd.Dir = dir
	out, err := cmd.Output()
	return strings.TrimSpace(string(out)), err
}

// Files lists the source files in the order point numbers refer to.
func Files(root string) (files []string, err error) {
	err = filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := info.Name()
		if info.IsDir() {
			if path != root && (strings.HasPrefix(name, ".") || name == "bench" || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	sort.Strings(files)
	return
}

const lines = 100000

// Where names a point.
func Where(files []string, id int32) string {
	if id < 0 {
		return [...]string{"", "lock", "unlock", "pool", "pool choice"}[-id]
	}
	f, l := int(id)/lines, int(id)%lines
	if f >= len(files) {
		return "?"
	}
	return fmt.Sprintf("%s:%d", filepath.Base(files[f]), l)
}

// Overlay writes the instrumented files and the overlay file naming them; points adds the calls before statements.
func Overlay(root, dir string, points bool) (string, error) {
	files, err := Files(root)
	if err != nil {
		return "", err
	}
	replace := map[string]string{}
	for i, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		res, err := rewrite(src, i, points)
		if err != nil {
			return "", fmt.Errorf("%v: %w", f, err)
		}
		dest := filepath.Join(dir, fmt.Sprintf("%d_%s", i, filepath.Base(f)))
		if err = os.WriteFile(dest, res, 0o644); err != nil {
			return "", err
		}
		replace[f] = dest
	}
	data, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	path := filepath.Join(dir, "overlay.json")
	return path, os.WriteFile(path, data, 0o644)
}

type edit struct {
	at, end int
	text    string
}

func rewrite(src []byte, file int, points bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	syncName, atomicName := "", ""
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		switch path {
		case "sync":
			if syncName = name; name == "" {
				syncName = "sync"
			}
		case "sync/atomic":
			if atomicName = name; name == "" {
				atomicName = "atomic"
			}
		}
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	used := false
	isSync := func(s ast.Stmt) bool {
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch a := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if x, ok := a.X.(*ast.Ident); ok && atomicName != "" && x.Name == atomicName {
					found = true
				}
				switch a.Sel.Name {
				case "Load", "Store", "CompareAndSwap", "Swap", "LoadOrStore", "LoadAndDelete", "CompareAndDelete":
					found = true
				}
			}
			return !found
		})
		return found
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if !points {
				continue
			}
			fn := "Point"
			if isSync(s) {
				fn = "SyncPoint"
			}
			used = true
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzsched.%s(%d); ", fn, file*lines+fset.Position(s.Pos()).Line)})
		}
	}
	switched := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch a := n.(type) {
		case *ast.SwitchStmt:
			switched[a.Body] = true
		case *ast.TypeSwitchStmt:
			switched[a.Body] = true
		case *ast.SelectStmt:
			switched[a.Body] = true
		case *ast.BlockStmt:
			if !switched[a] {
				stmts(a.List)
			}
		case *ast.CaseClause:
			stmts(a.Body)
		case *ast.CommClause:
			stmts(a.Body)
		case *ast.SelectorExpr:
			x, ok := a.X.(*ast.Ident)
			if !ok || syncName == "" || x.Name != syncName || x.Obj != nil {
				return true
			}
			switch a.Sel.Name {
			case "Mutex", "RWMutex", "Once", "Pool":
				used = true
				edits = append(edits, edit{off(x.Pos()), off(x.End()), "zzsched"})
			}
		}
		return true
	})
	if !used {
		return src, nil
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import zzsched "verifmc/sched"`})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.at]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	if syncName != "" && syncName != "_" && syncName != "." {
		out = append(out, fmt.Sprintf("\n\nvar _ %s.Locker\n", syncName)...)
	}
	return out, nil
}
