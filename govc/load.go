package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Program is the type-checked package under verification (the real sources of
// /repo/ecore as they are on disk at this run) plus the contract files.
type Program struct {
	Fset      *token.FileSet
	Pkg       *types.Package
	Info      *types.Info
	Files     []*ast.File
	Funcs     map[*types.Func]*ast.FuncDecl
	FileOf    map[*ast.FuncDecl]string
	SpecFuncs map[string]*ast.FuncDecl // functions declared in contract files, by name
	SpecFile  map[string]bool          // file name -> is a contract file
	TypeErrs  []error
	Dropped   map[string]string // contract declarations that do not type-check against the current sources
	BuildErrs []error           // type errors of the sources themselves
	SpecSrc   map[string][]byte // contract files as used (dropped declarations blanked out)
	taken     map[types.Object]bool
	named     []*types.Named // concrete named types of the package and of contract files
	deps      map[string]map[string]bool
	depsOnce  sync.Once
}

// specClosure lists the contract files that the given one depends on (itself
// included): those declaring something it, or one it depends on, mentions.
func (p *Program) specClosure(files ...string) map[string]bool {
	p.depsOnce.Do(func() {
		p.deps = map[string]map[string]bool{}
		for id, o := range p.Info.Uses {
			if o == nil || o.Pkg() != p.Pkg {
				continue
			}
			from, to := p.Fset.Position(id.Pos()).Filename, p.Fset.Position(o.Pos()).Filename
			if from != to && p.SpecFile[from] && p.SpecFile[to] {
				if p.deps[from] == nil {
					p.deps[from] = map[string]bool{}
				}
				p.deps[from][to] = true
			}
		}
	})
	r := map[string]bool{}
	for len(files) > 0 {
		f := files[0]
		files = files[1:]
		if r[f] {
			continue
		}
		r[f] = true
		for g := range p.deps[f] {
			files = append(files, g)
		}
	}
	return r
}

type srcImporter struct {
	fset  *token.FileSet
	ctx   build.Context
	pkgs  map[string]*types.Package
	mods  map[string]string // module path -> dir
	paths []string
	fake  []string
}

func newSrcImporter(fset *token.FileSet, repo string) *srcImporter {
	ctx := build.Default
	ctx.CgoEnabled = false
	ctx.GOROOT = goRoot()
	im := &srcImporter{fset: fset, ctx: ctx, pkgs: map[string]*types.Package{}, mods: map[string]string{}}
	im.fake = []string{"zombiezen.com/", "modernc.org/", "github.com/panjf2000/", "github.com/chebyrash/", "go.uber.org/", "github.com/rqlite/", "github.com/stretchr/", "github.com/karlseguin/", "golang.org/x/net/", "github.com/petermattis/", "testing", "os/exec", "net/http"}
	modcache := os.Getenv("GOMODCACHE")
	if modcache == "" {
		modcache = "/root/go/pkg/mod"
	}
	if data, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, line := range strings.Split(string(data), "\n") {
			f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(line), "require "))
			if len(f) >= 2 && strings.Contains(f[0], ".") && strings.HasPrefix(f[1], "v") {
				im.mods[f[0]] = filepath.Join(modcache, escapeMod(f[0])+"@"+f[1])
				im.paths = append(im.paths, f[0])
			}
		}
	}
	sort.Slice(im.paths, func(i, j int) bool { return len(im.paths[i]) > len(im.paths[j]) })
	return im
}

func goRoot() string {
	if _, err := os.Stat("/opt/veriftools/go1.23.12/src"); err == nil {
		return "/opt/veriftools/go1.23.12"
	}
	return build.Default.GOROOT
}

func escapeMod(p string) string {
	var b strings.Builder
	for _, r := range p {
		if r >= 'A' && r <= 'Z' {
			b.WriteByte('!')
			b.WriteRune(r + 32)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (im *srcImporter) Import(path string) (*types.Package, error) {
	return im.ImportFrom(path, "", 0)
}

func (im *srcImporter) dirOf(path string) string {
	root := im.ctx.GOROOT
	d := filepath.Join(root, "src", path)
	if st, err := os.Stat(d); err == nil && st.IsDir() {
		return d
	}
	d = filepath.Join(root, "src", "vendor", path)
	if st, err := os.Stat(d); err == nil && st.IsDir() {
		return d
	}
	for _, m := range im.paths {
		if path == m || strings.HasPrefix(path, m+"/") {
			return filepath.Join(im.mods[m], strings.TrimPrefix(path, m))
		}
	}
	return ""
}

func (im *srcImporter) ImportFrom(path, srcDir string, mode types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := im.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle %s", path)
		}
		return p, nil
	}
	mk := func() *types.Package {
		name := path[strings.LastIndex(path, "/")+1:]
		p := types.NewPackage(path, name)
		p.MarkComplete()
		im.pkgs[path] = p
		return p
	}
	for _, f := range im.fake {
		if strings.HasPrefix(path, f) {
			return mk(), nil
		}
	}
	dir := im.dirOf(path)
	if dir == "" {
		return mk(), nil
	}
	bp, err := im.ctx.ImportDir(dir, 0)
	if err != nil {
		return mk(), nil
	}
	im.pkgs[path] = nil
	var files []*ast.File
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(im.fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err == nil {
			files = append(files, af)
		}
	}
	conf := types.Config{Importer: im, IgnoreFuncBodies: true, FakeImportC: true, Error: func(error) {}, GoVersion: "go1.23"}
	p, _ := conf.Check(path, im.fset, files, nil)
	if p == nil {
		p = types.NewPackage(path, bp.Name)
	}
	p.MarkComplete()
	im.pkgs[path] = p
	return p, nil
}

// LoadProgram parses and type-checks pkgDir together with the contract files.
// A contract declaration that does not type-check against the current sources
// is blanked out (and recorded), and loading starts over.
func LoadProgram(repo, pkgDir string, specFiles []string) (*Program, error) {
	src := map[string][]byte{}
	for _, f := range specFiles {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		src[f] = b
	}
	dropped := map[string]string{}
	fset := token.NewFileSet()
	im := newSrcImporter(fset, repo)
	for round := 0; ; round++ {
		p, err := loadOnce(im, fset, pkgDir, specFiles, src)
		if err != nil {
			return nil, err
		}
		p.Dropped = dropped
		p.SpecSrc = src
		n := 0
		for _, e := range p.TypeErrs {
			te, ok := e.(types.Error)
			if !ok {
				continue
			}
			pos := p.Fset.Position(te.Pos)
			if p.SpecFile[pos.Filename] {
				if p.dropAt(src, pos.Filename, te, dropped) {
					n++
				}
			}
		}
		if n == 0 || round > 20 {
			return p, nil
		}
	}
}

// dropAt blanks out the declaration of a contract file enclosing a type error.
func (p *Program) dropAt(src map[string][]byte, file string, te types.Error, dropped map[string]string) bool {
	for _, af := range p.Files {
		if p.Fset.Position(af.Pos()).Filename != file {
			continue
		}
		for _, d := range af.Decls {
			if te.Pos < d.Pos() || te.Pos > d.End() {
				continue
			}
			from, to := d.Pos(), d.End()
			name := "declaration"
			switch x := d.(type) {
			case *ast.FuncDecl:
				name = x.Name.Name
				if x.Recv != nil && len(x.Recv.List) > 0 {
					name = types.ExprString(x.Recv.List[0].Type) + "." + name
				}
				if x.Doc != nil {
					from = x.Doc.Pos()
				}
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					for _, sp := range x.Specs {
						if is := sp.(*ast.ImportSpec); te.Pos >= is.Pos() && te.Pos <= is.End() && is.Name == nil {
							o := p.Fset.Position(is.Pos()).Offset
							b := src[file]
							src[file] = append(append(append([]byte{}, b[:o]...), []byte("_ ")...), b[o:]...)
							return true
						}
					}
					return false
				}
				for _, sp := range x.Specs {
					if ts, ok := sp.(*ast.TypeSpec); ok {
						name = ts.Name.Name
					}
				}
			}
			b := append([]byte{}, src[file]...)
			for i := p.Fset.Position(from).Offset; i < p.Fset.Position(to).Offset && i < len(b); i++ {
				if b[i] != '\n' {
					b[i] = ' '
				}
			}
			src[file] = b
			if _, has := dropped[name]; !has {
				dropped[name] = te.Msg
			}
			return true
		}
	}
	return false
}

func loadOnce(im *srcImporter, fset *token.FileSet, pkgDir string, specFiles []string, src map[string][]byte) (*Program, error) {
	bp, err := im.ctx.ImportDir(pkgDir, 0)
	if err != nil {
		return nil, err
	}
	p := &Program{Fset: fset, Funcs: map[*types.Func]*ast.FuncDecl{}, FileOf: map[*ast.FuncDecl]string{}, SpecFuncs: map[string]*ast.FuncDecl{}, SpecFile: map[string]bool{}}
	for _, f := range bp.GoFiles {
		if strings.HasPrefix(f, "mock_") || strings.HasSuffix(f, "_mock.go") {
			continue
		}
		af, err := parser.ParseFile(fset, filepath.Join(pkgDir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.Files = append(p.Files, af)
	}
	for _, f := range specFiles {
		af, err := parser.ParseFile(fset, f, src[f], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.Files = append(p.Files, af)
		p.SpecFile[f] = true
	}
	p.Info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{},
		Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: im, FakeImportC: true, GoVersion: "go1.23", Error: func(err error) { p.TypeErrs = append(p.TypeErrs, err) }}
	pkg, _ := conf.Check("github.com/masagroup/soft.go/ecore", fset, p.Files, p.Info)
	p.Pkg = pkg
	for _, af := range p.Files {
		fn := fset.Position(af.Pos()).Filename
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if o, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
					p.Funcs[o] = fd
					p.FileOf[fd] = fn
				}
				if p.SpecFile[fn] && fd.Recv == nil {
					p.SpecFuncs[fd.Name.Name] = fd
				}
			}
		}
	}
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok {
				if _, isI := nt.Underlying().(*types.Interface); !isI {
					p.named = append(p.named, nt)
				}
			}
		}
	}
	return p, nil
}

// SpecErrors returns the type errors located in contract files (a contract
// that does not type-check against the current sources cannot be discharged).
func (p *Program) SpecErrors() []error {
	var r []error
	for n, e := range p.Dropped {
		r = append(r, fmt.Errorf("%s: %s", n, e))
	}
	for _, e := range p.TypeErrs {
		if te, ok := e.(types.Error); ok {
			if p.SpecFile[p.Fset.Position(te.Pos).Filename] {
				r = append(r, e)
			}
		}
	}
	return r
}

// inSpec tells whether a position lies in a contract file.
func (p *Program) inSpec(pos token.Pos) bool { return p.SpecFile[p.Fset.Position(pos).Filename] }
