package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// functions of the real package that are safe to pass through
var pure = map[string]string{
	"os":                        " IsNotExist IsExist IsPermission IsTimeout IsPathSeparator Getpid Getppid Getuid Geteuid Getgid Getegid Getpagesize NewSyscallError SameFile Expand ",
	"net":                       " ParseIP ParseCIDR ParseMAC IPv4 IPv4Mask CIDRMask SplitHostPort JoinHostPort TCPAddrFromAddrPort UDPAddrFromAddrPort ",
	"time":                      " Date Unix UnixMilli UnixMicro Parse ParseInLocation ParseDuration FixedZone LoadLocation ",
	"net/http":                  " StatusText Error NotFound NotFoundHandler Redirect RedirectHandler StripPrefix TimeoutHandler MaxBytesReader MaxBytesHandler SetCookie CanonicalHeaderKey DetectContentType NewRequest NewRequestWithContext ReadRequest ReadResponse NewServeMux ParseHTTPVersion ParseTime ParseCookie ParseSetCookie AllowQuerySemicolons NewResponseController ",
	"syscall":                   " BytePtrFromString ByteSliceFromString StringBytePtr StringByteSlice Getpagesize Getpid TimespecToNsec NsecToTimespec ",
	"os/signal":                 " ",
	"context":                   " Background TODO WithValue Cause ",
	"math/rand":                 " ",
	"math/rand/v2":              " ",
	"crypto/rand":               " ",
	"encoding/json":             " Valid Compact Indent HTMLEscape ",
	"path/filepath":             " Base Clean Dir Ext FromSlash HasPrefix IsAbs IsLocal Join Localize Match Rel Split SplitList ToSlash VolumeName ",
	"golang.org/x/sys/unix":     " ErrnoName SignalName ByteSliceFromString BytePtrFromString ",
	"io/ioutil":                 " ReadAll NopCloser ",
	"runtime":                   " NumCPU GOROOT Version Caller Callers CallersFrames FuncForPC KeepAlive GC NumGoroutine ReadMemStats Stack SetFinalizer GOMAXPROCS ",
	"maps":                      " ",
	"sync":                      " ",
	"sync/atomic":               " ",
	"github.com/satori/go.uuid": " And Equal FromBytes FromBytesOrNil FromString FromStringOrNil Must NewV3 NewV5 ",
	"github.com/docker/go-connections/sockets": " ",
	"fmt": " Append Appendf Appendln Errorf FormatString Fprint Fprintf Fprintln Fscan Fscanf Fscanln Sprint Sprintf Sprintln Sscan Sscanf Sscanln ",
}

func genShims(sim, repo string, imp types.Importer, put func(string, []byte)) {
	paths := make([]string, 0, len(shims))
	for p := range shims {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if p == "golang.org/x/net/context" || strings.HasPrefix(p, "github.com/ceph/") {
			continue
		}
		rel := strings.TrimPrefix(shims[p], simPath+"/")
		dir := filepath.Join(sim, rel)
		have := map[string]bool{}
		fset := token.NewFileSet()
		ents, err := os.ReadDir(dir)
		if err != nil {
			log.Fatalf("instr: no shim directory for %s: %v", p, err)
		}
		name := ""
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
			must(err)
			name = f.Name.Name
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						have[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							have[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		tp, err := imp.Import(p)
		if err != nil {
			log.Fatalf("instr: shim %s: %v", p, err)
		}
		put(filepath.Join(repo, "zsim", rel, "zz_reexport.go"), reexport(tp, p, name, have))
	}
}

func reexport(tp *types.Package, path, name string, have map[string]bool) []byte {
	imports := map[string]string{}
	qual := func(q *types.Package) string {
		if q.Path() == path {
			return "real"
		}
		n := "i_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(q.Path())
		imports[q.Path()] = n
		return n
	}
	var body bytes.Buffer
	var usesReal, usesRT bool
	for _, n := range tp.Scope().Names() {
		if have[n] || !ast.IsExported(n) {
			continue
		}
		o := tp.Scope().Lookup(n)
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&body, "const %s = real.%s\n", n, n)
			usesReal = true
		case *types.Var:
			fmt.Fprintf(&body, "var %s = real.%s\n", n, n)
			usesReal = true
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&body, "type %s = real.%s\n", n, n)
			usesReal = true
		case *types.Func:
			sig := x.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				continue
			}
			if strings.Contains(pure[path], " "+n+" ") {
				fmt.Fprintf(&body, "var %s = real.%s\n", n, n)
				usesReal = true
				continue
			}
			// signatures that mention unexported or overridden types are left out
			var b bytes.Buffer
			types.WriteSignature(&b, sig, qual)
			s := b.String()
			if mentionsUnexported(sig) {
				continue
			}
			usesRT = true
			fmt.Fprintf(&body, "func %s%s {\n\trt.NotSupported(%q)\n\tpanic(\"unreachable\")\n}\n", n, s, path+"."+n)
		}
	}
	text := regexp.MustCompile(`\breal\.([A-Z]\w*)\b`).ReplaceAllStringFunc(body.String(), func(m string) string {
		if n := m[len("real."):]; have[n] {
			return n
		}
		return m
	})
	usesReal = strings.Contains(text, "real.")
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.25\n\npackage %s\n\nimport (\n", name)
	if usesReal {
		fmt.Fprintf(&b, "\treal %q\n", path)
	}
	if usesRT {
		fmt.Fprintf(&b, "\t\"%s/rt\"\n", simPath)
	}
	var ks []string
	for k, n := range imports {
		if strings.Contains(text, n+".") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "\t%s %q\n", imports[k], k)
	}
	fmt.Fprintf(&b, ")\n\n%s", text)
	return b.Bytes()
}

func mentionsUnexported(sig *types.Signature) bool {
	bad := false
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch x := t.(type) {
		case *types.Named:
			o := x.Obj()
			if o.Pkg() != nil && (!o.Exported() || strings.Contains(o.Pkg().Path(), "internal")) {
				bad = true
			}
		case *types.Pointer:
			walk(x.Elem())
		case *types.Slice:
			walk(x.Elem())
		case *types.Array:
			walk(x.Elem())
		case *types.Map:
			walk(x.Key())
			walk(x.Elem())
		case *types.Chan:
			walk(x.Elem())
		case *types.Signature:
			for i := 0; i < x.Params().Len(); i++ {
				walk(x.Params().At(i).Type())
			}
			for i := 0; i < x.Results().Len(); i++ {
				walk(x.Results().At(i).Type())
			}
		}
	}
	walk(sig)
	return bad
}
