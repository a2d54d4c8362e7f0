// Command instr builds the overlay the simulator is compiled with: copies of
// the repository's packages in which every statement is preceded by a
// scheduling point and every source of nondeterminism is redirected to the
// simulator, plus re-exports that complete the hand-written shims.
//
// usage: instr -repo DIR -sim DIR -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/gostor/gotgt"
const simPath = modPath + "/zsim"

// import path -> shim import path
var shims = map[string]string{
	"fmt":                       simPath + "/shim/fmt",
	"sync":                      simPath + "/shim/sync",
	"sync/atomic":               simPath + "/shim/atomic",
	"time":                      simPath + "/shim/time",
	"net":                       simPath + "/shim/net",
	"net/http":                  simPath + "/shim/http",
	"os":                        simPath + "/shim/os",
	"io/ioutil":                 simPath + "/shim/ioutil",
	"os/signal":                 simPath + "/shim/signal",
	"syscall":                   simPath + "/shim/syscall",
	"path/filepath":             simPath + "/shim/filepath",
	"golang.org/x/sys/unix":     simPath + "/shim/unix",
	"context":                   simPath + "/shim/context",
	"math/rand":                 simPath + "/shim/rand",
	"math/rand/v2":              simPath + "/shim/randv2",
	"crypto/rand":               simPath + "/shim/crand",
	"encoding/json":             simPath + "/shim/json",
	"runtime":                   simPath + "/shim/runtime",
	"maps":                      simPath + "/shim/maps",
	"github.com/satori/go.uuid": simPath + "/shim/uuid",
	"github.com/docker/go-connections/sockets": simPath + "/shim/sockets",
	"golang.org/x/net/context":                 simPath + "/shim/context",
	"github.com/ceph/go-ceph/rados":            simPath + "/shim/rados",
	"github.com/ceph/go-ceph/rbd":              simPath + "/shim/rbd",
}

// packages the simulator does not contain
func ignorePkg(p string) bool {
	return strings.HasPrefix(p, simPath) || strings.HasPrefix(p, modPath+"/mock") || strings.HasPrefix(p, modPath+"/test") || p == modPath
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func must(err error) {
	if err != nil {
		log.Fatal("instr: ", err)
	}
}

func goList(dir string, args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-e", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Imports,Export,Standard,Module,Error"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	must(err)
	dec := json.NewDecoder(bytes.NewReader(out))
	var l []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			must(err)
		}
		l = append(l, p)
	}
	return l
}

type site struct {
	Pos string
}

var sites = []string{"?"}

func main() {
	log.SetFlags(0)
	repo := flag.String("repo", "/repo", "repository")
	sim := flag.String("sim", "/verif/sim", "simulator sources")
	out := flag.String("out", "/verif/.build", "output directory")
	ceph := flag.Bool("ceph", true, "include the ceph store")
	flag.Parse()
	gen := filepath.Join(*out, "gen")
	must(os.RemoveAll(gen))
	must(os.MkdirAll(gen, 0o755))

	overlay := map[string]string{}
	put := func(virtual string, data []byte) {
		rel, _ := filepath.Rel(*repo, virtual)
		f := filepath.Join(gen, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		must(os.WriteFile(f, data, 0o644))
		overlay[virtual] = f
	}

	// 1. the packages of the repository and the export data of what they import
	pk := goList(*repo, "./...")
	var mine []*listPkg
	isMine := map[string]*listPkg{}
	for _, p := range pk {
		if ignorePkg(p.ImportPath) || len(p.GoFiles)+len(p.CgoFiles) == 0 {
			continue
		}
		mine = append(mine, p)
		isMine[p.ImportPath] = p
	}
	need := map[string]bool{}
	for _, p := range mine {
		for _, i := range p.Imports {
			if isMine[i] == nil && i != "C" && !strings.HasPrefix(i, "github.com/ceph/") {
				need[i] = true
			}
		}
	}
	for i := range shims {
		if !strings.Contains(i, ".") || strings.HasPrefix(i, "golang.org/x/net/context") || need[i] {
			if !strings.HasPrefix(i, "github.com/ceph/") {
				need[i] = true
			}
		}
	}
	args := []string{"-export", "-deps"}
	for i := range need {
		args = append(args, i)
	}
	sort.Strings(args[2:])
	exports := map[string]string{}
	for _, p := range goList(*repo, args...) {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	// 2. complete the shims
	genShims(*sim, *repo, gc, put)

	// the simulator's own files
	must(filepath.Walk(*sim, func(path string, fi os.FileInfo, err error) error {
		must(err)
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*sim, path)
		v := filepath.Join(*repo, "zsim", rel)
		if _, dup := overlay[v]; dup {
			log.Fatalf("instr: %s is both generated and hand-written", v)
		}
		overlay[v] = path
		return nil
	}))

	// 3. type-check the repository from source, in dependency order
	done := map[string]*types.Package{}
	imp := &chainImporter{gc: gc, done: done}
	var order []*listPkg
	var visit func(p *listPkg)
	seen := map[string]bool{}
	visit = func(p *listPkg) {
		if seen[p.ImportPath] {
			return
		}
		seen[p.ImportPath] = true
		for _, i := range p.Imports {
			if q := isMine[i]; q != nil {
				visit(q)
			}
		}
		order = append(order, p)
	}
	for _, p := range mine {
		visit(p)
	}
	var boot []string
	for _, p := range order {
		files := append([]string{}, p.GoFiles...)
		isCeph := strings.HasSuffix(p.ImportPath, "/cephstore")
		_ = isCeph
		_ = ceph
		var asts []*ast.File
		var names []string
		for _, f := range files {
			fn := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, fn, nil, parser.ParseComments|parser.SkipObjectResolution)
			must(err)
			asts = append(asts, a)
			names = append(names, fn)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, FakeImportC: true, Error: func(err error) {}}
		tp, err := conf.Check(p.ImportPath, fset, asts, info)
		if err != nil {
			log.Fatalf("instr: type-checking %s: %v", p.ImportPath, err)
		}
		done[p.ImportPath] = tp
		w := &rewriter{fset: fset, info: info, pkg: tp, repo: *repo}
		for i, a := range asts {
			put(names[i], w.file(a, i))
		}
		put(filepath.Join(p.Dir, "zsim_reset.go"), w.resetFile(p.Name))
		boot = append(boot, p.ImportPath)
	}

	// 4. the generated boot package and site table
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.25\n\npackage boot\n\nimport (\n\t\"%s/rt\"\n", simPath)
	for i, p := range boot {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	fmt.Fprintf(&b, ")\n\n// Reset puts the daemon's packages into the state of a fresh process.\nfunc Reset() {\n")
	for i := range boot {
		fmt.Fprintf(&b, "\tp%d.ZsimReset()\n", i)
	}
	fmt.Fprintf(&b, "}\n\nfunc init() {\n\trt.SiteName = func(s uint32) string {\n\t\tif int(s) < len(sites) {\n\t\t\treturn sites[s]\n\t\t}\n\t\treturn \"?\"\n\t}\n\trt.NumSites = len(sites)\n}\n\nvar sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	fmt.Fprintf(&b, "}\n")
	put(filepath.Join(*repo, "zsim", "boot", "boot.go"), b.Bytes())

	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
}

type chainImporter struct {
	gc   types.Importer
	done map[string]*types.Package
}

func (c *chainImporter) Import(path string) (*types.Package, error) {
	if p := c.done[path]; p != nil {
		return p, nil
	}
	return c.gc.Import(path)
}
