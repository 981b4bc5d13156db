package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const mod = "github.com/brevis-network/zk-utils/"
const gnarkMod = "github.com/consensys/gnark"

var debugOn = os.Getenv("GOVC_DEBUG") != ""

type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Repo  string
	infos map[*ssa.Function]*fnInfo
	src   map[string]bool // packages with syntax
	fns   map[string]*ssa.Function
	errs  []string
}

// dependency packages whose real source is interpreted (not assumed)
var depSyntax = []string{
	"github.com/consensys/gnark/std/math/bits",
	"github.com/consensys/gnark/std/permutation/keccakf",
	"github.com/consensys/gnark/std/math/bitslice",
	"github.com/consensys/gnark/std/math/cmp",
	"github.com/consensys/gnark/std/lookup/logderivlookup",
	"github.com/consensys/gnark/std/multicommit",
	"github.com/ethereum/go-ethereum/common",
	"github.com/consensys/gnark/std/hash/mimc",
	"github.com/consensys/gnark/std/selector",
}

func (p *Program) scope(path string) bool { return p.src[path] }
func (p *Program) inRepo(pos token.Pos) bool {
	f := p.Fset.File(pos)
	return f != nil && strings.HasPrefix(f.Name(), p.Repo+"/")
}

func LoadProgram(repo string, overlay map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Fset: fset,
		Overlay: overlay, Env: os.Environ(),
	}
	pats := append([]string{"./..."}, presentDeps()...)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	P := &Program{Fset: fset, Repo: repo, infos: map[*ssa.Function]*fnInfo{}, src: map[string]bool{}, fns: map[string]*ssa.Function{}}
	for _, p := range ps {
		for _, e := range p.Errors {
			P.errs = append(P.errs, e.Error())
		}
		if len(p.Syntax) > 0 && p.Types != nil {
			P.src[p.PkgPath] = true
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	P.Prog = prog
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil {
			P.fns[f.String()] = f
			if os.Getenv("GOVC_FNS") != "" && strings.Contains(f.String(), os.Getenv("GOVC_FNS")) {
				fmt.Println("fn", f.String())
			}
		}
	}
	if len(P.fns) == 0 {
		return nil, fmt.Errorf("no functions loaded: %v", P.errs)
	}
	return P, nil
}

func presentDeps() []string { return depSyntax }

func (p *Program) Lookup(name string) *ssa.Function { return p.fns[name] }

// ---- overlay files exporting the functions under contract ----

type expEntry struct{ key, expr string }

// exportOverlay builds, per package directory, a file exporting the functions under contract.
func exportOverlay(repo string, cs []*Contract) map[string][]byte {
	by := map[string]map[string]string{}
	for _, c := range cs {
		if c.NoNative || c.Native == "" {
			continue
		}
		if by[c.Pkg] == nil {
			by[c.Pkg] = map[string]string{}
		}
		by[c.Pkg][c.Key()] = c.Native
	}
	out := map[string][]byte{}
	for pkg, m := range by {
		dir := filepath.Join(repo, strings.TrimPrefix(pkg, mod))
		name := pkgName(dir)
		if name == "" {
			continue
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", name)
		for _, im := range nativeImports[pkg] {
			fmt.Fprintf(&b, "import %q\n", im)
		}
		b.WriteString("var VerifFuncs = map[string]any{\n")
		decl := declared(dir)
		for _, k := range ks {
			if !decl[declName(k)] {
				continue
			}
			fmt.Fprintf(&b, "\t%q: %s,\n", k, m[k])
		}
		b.WriteString("}\n")
		out[filepath.Join(dir, "zz_verif_export.go")] = []byte(b.String())
	}
	return out
}

var nativeImports = map[string][]string{}

func pkgName(dir string) string {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1]
			}
		}
	}
	return ""
}

// declared lists the functions and methods ("T.M") declared in the non-test files of a directory.
func declared(dir string) map[string]bool {
	out := map[string]bool{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			n := fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				switch x := t.(type) {
				case *ast.IndexExpr:
					t = x.X
				case *ast.IndexListExpr:
					t = x.X
				}
				if id, ok := t.(*ast.Ident); ok {
					n = id.Name + "." + n
				}
			}
			out[n] = true
		}
	}
	return out
}

// declName: "pkg/path.Flip[uint]" -> "Flip", "(*pkg/path.T[x]).M" -> "T.M".
func declName(key string) string {
	if i := strings.IndexByte(key, '['); i >= 0 {
		j := strings.LastIndexByte(key, ']')
		key = key[:i] + key[j+1:]
	}
	if i := strings.LastIndexByte(key, '/'); i >= 0 {
		key = key[i+1:]
	}
	key = strings.NewReplacer("(", "", ")", "", "*", "").Replace(key)
	if i := strings.IndexByte(key, '.'); i >= 0 {
		key = key[i+1:]
	}
	return key
}
