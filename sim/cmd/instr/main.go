// instr writes instrumented copies of the repository's sources and the overlay that makes
// the go command use them: a yield point before every statement, and the packages sync, os,
// io/ioutil and time replaced by the simulator's. The repository itself is not touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off  int
	end  int // replaced up to end (end >= off)
	text string
}

var shims = map[string]string{
	"sync":      "verifsim/shim/sync",
	"os":        "verifsim/shim/os",
	"io/ioutil": "verifsim/shim/ioutil",
	"runtime":   "verifsim/shim/runtime",
	"time":      "verifsim/shim/time",
}

var noEcho, noNet, noReplMain bool

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the instrumented sources")
	overlay := flag.String("overlay", "", "overlay file to write")
	yields := flag.Bool("yields", true, "insert yield points")
	skipShims := flag.String("skip", "", "packages that are not replaced")
	flag.Parse()
	for _, p := range strings.Split(*skipShims, ",") {
		delete(shims, p)
		noEcho = noEcho || p == "echo"
		noNet = noNet || p == "net"
		noReplMain = noReplMain || p == "replmain"
	}

	dirs := map[string][]string{}
	for _, root := range []string{"pkg", "cmd/GoBCDiceAPI", "cmd/GoBCDiceREPL"} {
		filepath.Walk(filepath.Join(*repo, root), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if fi.IsDir() && (fi.Name() == "testdata" || strings.HasPrefix(fi.Name(), ".")) {
				return filepath.SkipDir
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			dir := filepath.Dir(p)
			if ok, err := build.Default.MatchFile(dir, filepath.Base(p)); err != nil || !ok {
				return nil
			}
			dirs[dir] = append(dirs[dir], p)
			return nil
		})
	}
	names := make([]string, 0, len(dirs))
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	exports := exportData(*repo)
	replace := map[string]string{}
	site := uint32(100)
	var sites []string
	for _, d := range names {
		files := dirs[d]
		sort.Strings(files)
		fset := token.NewFileSet()
		var parsed []*ast.File
		var srcs [][]byte
		skip := false
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			a, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			if a.Name.Name == "main" && filepath.Base(d) != "GoBCDiceAPI" && (noReplMain || filepath.Base(d) != "GoBCDiceREPL") {
				skip = true
			}
			parsed = append(parsed, a)
			srcs = append(srcs, src)
		}
		if skip {
			continue
		}
		// names of the package-level variables of the package
		globals := map[string]bool{}
		for _, a := range parsed {
			for _, decl := range a.Decls {
				g, ok := decl.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						globals[n.Name] = true
					}
				}
			}
		}
		maps := mapRanges(fset, parsed, exports)
		for i, a := range parsed {
			text := instrument(maps, fset, a, srcs[i], globals, &site, &sites, *repo, *yields)
			rel, _ := filepath.Rel(*repo, files[i])
			dst := filepath.Join(*out, rel)
			os.MkdirAll(filepath.Dir(dst), 0777)
			if old, err := os.ReadFile(dst); err != nil || string(old) != text {
				if err := os.WriteFile(dst, []byte(text), 0666); err != nil {
					fatal(err)
				}
			}
			replace[files[i]] = dst
		}
	}
	// a registry hook for simulated game systems, where the list is still kept this way
	listDir := filepath.Join(*repo, "pkg/dicebot/list")
	if registry[listDir] != "" {
		dst := filepath.Join(*out, "pkg/dicebot/list/zz_sim.go")
		os.MkdirAll(filepath.Dir(dst), 0777)
		if err := os.WriteFile(dst, []byte(fmt.Sprintf(listHook, registry[listDir])), 0666); err != nil {
			fatal(err)
		}
		replace[filepath.Join(listDir, "zz_sim.go")] = dst
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlay, b, 0666); err != nil {
		fatal(err)
	}
	os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0666)
}

const listHook = `package list

import (
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	"verifsim/simrt"
)

func init() {
	simrt.Hooks["games"] = func(id string, c dicebot.DiceBotConstructor) { %s }
}
`

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

// exportData finds the compiled packages the sources import.
func exportData(repo string) map[string]string {
	c := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./pkg/...", "./cmd/GoBCDiceAPI", "./cmd/GoBCDiceREPL/repl")
	c.Dir = repo
	out, err := c.Output()
	m := map[string]string{}
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(out), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 2 && f[1] != "" {
			m[f[0]] = f[1]
		}
	}
	return m
}

// mapRanges finds the range statements that walk through a map.
func mapRanges(fset *token.FileSet, files []*ast.File, exports map[string]string) map[*ast.RangeStmt]bool {
	out := map[*ast.RangeStmt]bool{}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if exports[path] == "" {
				return nil, os.ErrNotExist
			}
			return os.Open(exports[path])
		}),
		Error: func(error) {},
	}
	p, _ := conf.Check("p", fset, files, info)
	if p != nil && len(files) > 0 {
		if s := registryOf(p); s != "" {
			registry[filepath.Dir(fset.Position(files[0].Pos()).Filename)] = s
		}
	}
	for _, a := range files {
		ast.Inspect(a, func(x ast.Node) bool {
			if r, ok := x.(*ast.RangeStmt); ok && (named(r.Key) || named(r.Value)) {
				if t := info.Types[r.X].Type; t != nil {
					if _, ok := t.Underlying().(*types.Map); ok {
						out[r] = true
					}
				}
			}
			return true
		})
	}
	return out
}

// registry says how a game system is registered in a package, by directory.
var registry = map[string]string{}

// registryOf looks for the package-level map from ids to constructors of game systems.
func registryOf(p *types.Package) string {
	found := ""
	for _, n := range p.Scope().Names() {
		v, ok := p.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		f, ok := m.Elem().Underlying().(*types.Signature)
		if !ok || f.Params().Len() != 0 || f.Results().Len() != 1 || !strings.HasSuffix(f.Results().At(0).Type().String(), "/pkg/dicebot.DiceBot") {
			continue
		}
		if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		if found != "" {
			return "" // which?
		}
		found = n + "[id] = c"
	}
	return found
}

func named(e ast.Expr) bool {
	if e == nil {
		return false
	}
	id, ok := e.(*ast.Ident)
	return !ok || id.Name != "_"
}

func instrument(maps map[*ast.RangeStmt]bool, fset *token.FileSet, a *ast.File, src []byte, globals map[string]bool, site *uint32, sites *[]string, repo string, yields bool) string {
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	if a.Name.Name == "main" {
		// the program becomes a package the simulator can call
		edits = append(edits, ins{off(a.Name.Pos()), off(a.Name.End()), "apimain"})
		for _, d := range a.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Name.Name == "main" && f.Recv == nil {
				edits = append(edits, ins{off(f.Name.Pos()), off(f.Name.End()), "SimMain"})
			}
		}
	}
	api := strings.Contains(fset.Position(a.Pos()).Filename, "/cmd/GoBCDiceAPI/")
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := shims[path]
		if path == "github.com/labstack/echo" && api && !noEcho {
			to, ok = "verifsim/shim/echo", true
		}
		if path == "github.com/mattn/go-colorable" && a.Name.Name == "main" && !api {
			if to, ok = "verifsim/shim/colorable", true; im.Name == nil {
				edits = append(edits, ins{off(im.Path.Pos()), off(im.Path.End()), "colorable " + strconv.Quote(to)})
				continue
			}
		}
		if api && !noNet {
			switch path {
			case "net":
				to, ok = "verifsim/shim/net", true
			case "net/http":
				to, ok = "verifsim/shim/http", true
			}
		}
		if !ok || (im.Name != nil && (im.Name.Name == "." || im.Name.Name == "_")) {
			continue
		}
		text := strconv.Quote(to)
		if im.Name == nil {
			text = filepath.Base(path) + " " + text
		}
		edits = append(edits, ins{off(im.Path.Pos()), off(im.Path.End()), text})
	}
	n := 0
	if api {
		// the environment the program takes from the process's
		for _, d := range a.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Names) == 1 && v.Names[0].Name == "Environment" && strings.Contains(string(src[off(v.Pos()):off(v.End())]), `os.Getenv("ECHO_ENV")`) {
					edits = append(edits, ins{len(src), len(src), "\nfunc init() { simrt__.SetEnvironment = func(s string) { Environment = s } }\n"})
					n++
				}
			}
		}
	}
	if api && !noNet {
		// a server that makes its listener itself
		own := 0
		ast.Inspect(a, func(x ast.Node) bool {
			c, ok := x.(*ast.CallExpr)
			if !ok || len(c.Args) > 0 {
				return true
			}
			f, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || f.Sel.Name != "ListenAndServe" {
				return true
			}
			of := string(src[off(f.X.Pos()):off(f.X.End())])
			edits = append(edits, ins{off(c.Pos()), off(c.End()), "simnet__.ListenAndServe(" + of + ".Addr, " + of + ".Serve, " + of + ".ListenAndServe)"})
			own++
			return false
		})
		if own > 0 {
			p := off(a.Name.End())
			edits = append(edits, ins{p, p, "; import simnet__ \"verifsim/shim/net\""})
		}
	}
	// hot reports whether the statement itself (not the blocks inside it) mentions a
	// package-level variable.
	hot := func(s ast.Stmt) bool {
		found := false
		ast.Inspect(s, func(x ast.Node) bool {
			if found {
				return false
			}
			switch x := x.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				ast.Inspect(x.X, func(y ast.Node) bool {
					if id, ok := y.(*ast.Ident); ok && globals[id.Name] {
						found = true
					}
					return !found
				})
				return false
			case *ast.Ident:
				if globals[x.Name] {
					found = true
				}
			}
			return !found
		})
		return found
	}
	addList := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			*site++
			n++
			id := strconv.FormatUint(uint64(*site), 10)
			h := ""
			if hot(s) {
				id = "simrt__.HotBit|" + id
				h = " hot"
			}
			edits = append(edits, ins{off(s.Pos()), off(s.Pos()), "simrt__.Y(" + id + ");"})
			pos := fset.Position(s.Pos())
			rel, _ := filepath.Rel(repo, pos.Filename)
			*sites = append(*sites, fmt.Sprintf("%d %s:%d%s", *site, rel, pos.Line, h))
		}
	}
	// walks through maps
	walks := false
	ast.Inspect(a, func(x ast.Node) bool {
		r, ok := x.(*ast.RangeStmt)
		if !ok || !maps[r] || strings.Contains(string(src[:off(a.Package)]), "//go:build") {
			return true
		}
		text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
		lhs, rhs := []string{}, []string{}
		if named(r.Key) {
			lhs, rhs = append(lhs, text(r.Key)), append(rhs, "simrtE__.K")
		}
		if named(r.Value) {
			lhs, rhs = append(lhs, text(r.Value)), append(rhs, "simrtE__.V()")
		}
		edits = append(edits,
			ins{off(r.Key.Pos()), off(r.TokPos) + len(r.Tok.String()), "_, simrtE__ :="},
			ins{off(r.X.Pos()), off(r.X.Pos()), "simrt__.Entries("},
			ins{off(r.X.End()), off(r.X.End()), ")"},
			ins{off(r.Body.Lbrace) + 1, off(r.Body.Lbrace) + 1, "if !simrtE__.Live() { continue };" + strings.Join(lhs, ", ") + " " + r.Tok.String() + " " + strings.Join(rhs, ", ") + ";"})
		walks = true
		n++
		return true
	})
	if walks {
		// type parameters need a newer language version than the module's
		edits = append(edits, ins{0, 0, "//go:build go1.21\n\n//line " + fset.Position(a.Pos()).Filename + ":1\n"})
	}
	if yields {
		ast.Inspect(a, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.SwitchStmt:
				// the body's own list holds only clauses
				for _, c := range x.Body.List {
					addList(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					addList(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					addList(c.(*ast.CommClause).Body)
				}
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					p := off(x.Body.Lbrace) + 1
					*site++
					edits = append(edits, ins{p, p, "simrt__.Y(" + strconv.FormatUint(uint64(*site), 10) + ");"})
					n++
				}
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				addList(x.List)
			}
			return true
		})
	}
	if n > 0 {
		p := off(a.Name.End())
		edits = append(edits, ins{p, p, "; import simrt__ \"verifsim/simrt\""})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	return b.String()
}
