// instr writes the build overlays: the runtime overlay that makes map iteration
// follow the simulator's seed, and (second file) in addition the library's
// sources with a yield point before every statement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 4 {
		die("usage: instr REPO GOROOT OUTDIR")
	}
	repo, goroot, out := os.Args[1], os.Args[2], os.Args[3]
	base := map[string]string{}
	rt := filepath.Join(goroot, "src/runtime/rand.go")
	b, err := os.ReadFile(rt)
	if err != nil {
		die("%v", err)
	}
	src := string(b)
	once := func(old, new string) {
		if strings.Count(src, old) != 1 {
			die("runtime/rand.go: %q occurs %d times", old, strings.Count(src, old))
		}
		src = strings.Replace(src, old, new, 1)
	}
	once("func rand() uint64 {\n", "func rand() uint64 {\n\tif simRand != 0 {\n\t\tsimRand += 0x9e3779b97f4a7c15\n\t\tz := simRand\n\t\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\t\tz = (z ^ (z >> 27)) * 0x94d049bb133111eb\n\t\treturn z ^ (z >> 31)\n\t}\n")
	once("readTimeRandom(seed[:])\n\t\t}\n\t}\n", "readTimeRandom(seed[:])\n\t\t}\n\t}\n\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 1)\n\t}\n")
	src += "\nvar simRand uint64\n\n//go:linkname simSetRand verifsim/simhook.setRand\nfunc simSetRand(x uint64) { simRand = x }\n\n//go:linkname simCurG verifsim/simhook.curG\n//go:nosplit\nfunc simCurG() uintptr { return uintptr(unsafe.Pointer(getg())) }\n\n//go:linkname simStatusG verifsim/simhook.statusG\nfunc simStatusG(x uintptr) uint32 { return readgstatus((*g)(unsafe.Pointer(x))) }\n"
	rtOut := filepath.Join(out, "rand.go")
	write(rtOut, src)
	base[rt] = rtOut
	writeJSON(filepath.Join(out, "plain.json"), base)

	inst := map[string]string{rt: rtOut}
	n, yields := 0, 0
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_") || fi.Name() == "testdata" || fi.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		text, y, err := instrument(p, data)
		if err != nil {
			return err
		}
		if y == 0 {
			return nil
		}
		dst := filepath.Join(out, fmt.Sprintf("inst_%03d_%s", n, filepath.Base(p)))
		n++
		yields += y
		write(dst, text)
		inst[p] = dst
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	writeJSON(filepath.Join(out, "inst.json"), inst)
	fmt.Printf("instrumented %d files, %d yield points\n", n, yields)
}

func instrument(path string, data []byte) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, data, parser.ParseComments)
	if err != nil {
		return "", 0, err
	}
	if f.Name.Name == "main" {
		return "", 0, nil
	}
	type ins struct {
		off, end int
		text     string
	}
	var list []ins
	at := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	yields := 0
	body := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			hook := "simhook_.Y(); "
			if channels(s) {
				hook = "simhook_.Chan(); "
			}
			list = append(list, ins{at(s.Pos()), at(s.Pos()), hook})
			yields++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			body(x.List)
		case *ast.CaseClause:
			body(x.Body)
		case *ast.CommClause:
			body(x.Body)
		}
		return true
	})
	if yields == 0 {
		return "", 0, nil
	}
	list = append(list, ins{at(f.Name.End()), at(f.Name.End()), "; import simhook_ \"verifsim/simhook\""})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync"
			if im.Name != nil {
				name = ""
			}
			list = append(list, ins{at(im.Path.Pos()), at(im.Path.End()), name + " \"verifsim/simsync\""})
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	pos := 0
	for _, x := range list {
		b.Write(data[pos:x.off])
		b.WriteString(x.text)
		pos = x.end
	}
	b.Write(data[pos:])
	return b.String(), yields, nil
}

// channels reports whether a statement itself, apart from the blocks and
// functions in it, may wait for a channel.
func channels(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.FuncLit:
			return false
		case *ast.SendStmt, *ast.SelectStmt:
			found = true
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func write(p, s string) {
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

func writeJSON(p string, m map[string]string) {
	b, _ := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	write(p, string(b))
}
