// Command instr writes copies of the engine's source files in which every
// statement is preceded by a call to verifsched.P, and an overlay file for the
// go command that puts them in the place of the originals. The calls perturb
// the schedule; they change nothing else. Lines keep their numbers.
//
// Usage: instr DIR  (the sources are those of the module's riot replacement)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const runtimeSrc = `// Package verifsched perturbs the schedule at the points where it is called.
package verifsched

import (
	"runtime"
	"time"
)

var (
	on    bool
	state uint64
	hot   [8]uint32
	rate  uint64 = 64
	naps  uint64 = 4096
	hits  uint64
)

// Sites is the number of places P is called from.
const Sites = %d

// first holds the first place of every function.
var first = [...]uint32{%s}

// marked holds the places that come before an atomic operation or a send:
// what others may wait for.
var marked = [...]uint32{%s}

// seen holds the places that were reached so far.
var seen [Sites]bool

// long marks schedules with a few places that are delayed for long.
var long bool

// pick chooses a place of a function that was reached before, every such
// function with the same probability.
//
//go:norace
func pick() uint32 {
	for try := 0; try < 1000; try++ {
		i := int(next() %% uint64(len(first)-1))
		var in []uint32
		for s := first[i]; s < first[i+1]; s++ {
			if seen[s] {
				in = append(in, s)
			}
		}
		if len(in) > 0 {
			return in[next()%%uint64(len(in))]
		}
	}
	return uint32(next() %% Sites)
}

// Set starts perturbing with a seed; 0 stops it.
//
//go:norace
func Set(seed uint64) {
	state = seed*0x9E3779B97F4A7C15 + 1
	hits = 0
	long = seed%%4 == 3 || seed%%8 == 2
	for i := range hot {
		hot[i] = Sites
		if !long || i <= int(seed>>3%%3) {
			hot[i] = pick()
		}
		if long && i == 0 && seed>>5%%2 == 0 && len(marked) > 1 {
			for try := 0; try < 100; try++ {
				if s := marked[next()%%uint64(len(marked)-1)]; seen[s] {
					hot[i] = s
					break
				}
			}
		}
	}
	switch seed %% 4 {
	case 0:
		rate, naps = 16, 1<<40
	case 1:
		rate, naps = 64, 2048
	case 2:
		rate, naps = 8, 512
	default:
		rate, naps = 1<<40, 1<<40
	}
	on = seed != 0
}

// Hits is the number of times the schedule was perturbed.
//
//go:norace
func Hits() uint64 { return hits }

// next is a plain generator: updates lost to races only change its sequence.
//
//go:norace
func next() uint64 {
	x := state
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	state = x
	return x
}

// P is a scheduling point.
//
//go:norace
func P(site uint32) {
	if !on {
		seen[site] = true
		return
	}
	r := next()
	for _, h := range hot {
		if h == site {
			if long {
				if r&3 != 0 {
					hits++
					time.Sleep(time.Duration(200+r>>8%%4000) * time.Microsecond)
				}
			} else if r&3 == 0 {
				hits++
				time.Sleep(time.Duration(20+r>>8%%300) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
			return
		}
	}
	if r%%naps == 1 {
		hits++
		time.Sleep(time.Duration(r>>16%%200) * time.Microsecond)
	} else if r%%rate == 0 {
		hits++
		runtime.Gosched()
	}
}
`

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func main() {
	if len(os.Args) != 2 {
		fatal(fmt.Errorf("usage: instr DIR"))
	}
	out := os.Args[1]
	b, err := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/go-ego/riot").Output()
	if err != nil {
		fatal(err)
	}
	repo := strings.TrimSpace(string(b))
	overlay := map[string]string{}
	site := 0
	var first, marked strings.Builder
	for _, pkg := range []string{".", "core", "store"} {
		dir := filepath.Join(repo, pkg)
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			n := site
			res, err := rewrite(f, src, &site, &first, &marked)
			if err != nil {
				// the compiler will have its say about this file
				continue
			}
			if site == n {
				continue
			}
			dst := filepath.Join(out, strings.ReplaceAll(pkg, ".", "root")+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal(err)
			}
			overlay[f] = dst
		}
	}
	fmt.Fprintf(&first, "%d", site+1)
	fmt.Fprintf(&marked, "%d", site)
	rt := filepath.Join(out, "verifsched.go.txt")
	if err := os.WriteFile(rt, []byte(fmt.Sprintf(runtimeSrc, site+1, first.String(), marked.String())), 0o644); err != nil {
		fatal(err)
	}
	overlay[filepath.Join(repo, "verifsched", "verifsched.go")] = rt
	j, _ := json.Marshal(map[string]any{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
}

// waited says whether the statement is a send or an atomic operation.
func waited(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.SendStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if f, ok := c.Fun.(*ast.SelectorExpr); ok {
				if p, ok := f.X.(*ast.Ident); ok {
					return p.Name == "atomic"
				}
			}
		}
	}
	return false
}

func rewrite(name string, src []byte, site *int, first, marked *strings.Builder) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, fmt.Errorf("cgo")
		}
	}
	ins := map[int]string{}
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			*site++
			if waited(s) {
				fmt.Fprintf(marked, "%d, ", *site)
			}
			ins[fset.Position(s.Pos()).Offset] = fmt.Sprintf("verifsched.P(%d);", *site)
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		fmt.Fprintf(first, "%d, ", *site+1)
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	if len(ins) == 0 {
		return src, nil
	}
	ins[fset.Position(f.Name.End()).Offset] = `; import verifsched "github.com/go-ego/riot/verifsched"`
	var at []int
	for o := range ins {
		at = append(at, o)
	}
	sort.Ints(at)
	var res []byte
	last := 0
	for _, o := range at {
		res = append(res, src[last:o]...)
		res = append(res, ins[o]...)
		last = o
	}
	return append(res, src[last:]...), nil
}
