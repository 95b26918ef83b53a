// Command instr rewrites the packages of one module so that every
// synchronisation operation goes through the controlled scheduler mc. It works
// on type-checked syntax and writes the result to a scratch directory together
// with an overlay file for the go command.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	SFiles     []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

var wrap = map[string]string{
	"sync":        "msync",
	"sync/atomic": "matomic",
	"time":        "mtime",
	"context":     "mcontext",
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "", "module root")
	overlay := flag.String("overlay", "", "input overlay")
	target := flag.String("target", "", "package to build, as ./path")
	outDir := flag.String("out", "", "output directory")
	ovOut := flag.String("ovout", "", "output overlay")
	skip := flag.String("skip", "", "comma separated import paths that stay as they are")
	flag.Parse()

	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(*overlay)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &ov); err != nil {
		die("%v", err)
	}
	cmd := exec.Command("go", "list", "-overlay", *overlay, "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,SFiles,Export,Standard,Module,ImportMap,Error", *target)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*listPkg
	byPath := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}
	main := pkgs[len(pkgs)-1]
	if main.Module == nil {
		die("no module")
	}
	mod := main.Module.Path
	mcPath := mod + "/zzmc/mc"
	skips := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skips[s] = true
	}
	os.MkdirAll(*outDir, 0755)
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != mod || skips[p.ImportPath] {
			continue
		}
		rel := strings.TrimPrefix(p.ImportPath, mod+"/")
		if strings.HasPrefix(rel, "zzmc/") && p != main {
			continue
		}
		instrument(p, p == main, mod, mcPath, byPath, &ov.Replace, *outDir)
	}
	res, _ := json.MarshalIndent(map[string]interface{}{"Replace": ov.Replace}, "", " ")
	if err := os.WriteFile(*ovOut, res, 0644); err != nil {
		die("%v", err)
	}
}

type ins struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	mod     string
	mc      string // import path of the scheduler
	useMC   bool
	n       int
	mapIter string
}

func instrument(p *listPkg, isMain bool, mod, mcPath string, byPath map[string]*listPkg, rep *map[string]string, outDir string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		full := f
		if !filepath.IsAbs(full) {
			full = filepath.Join(p.Dir, f)
		}
		src := full
		if r, ok := (*rep)[full]; ok {
			src = r
		}
		data, err := os.ReadFile(src)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, full, data, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, full)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := byPath[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), GoVersion: "go1.21"}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	var initNames []string
	var resetStmts []string
	if !isMain {
		resetStmts = resets(fset, pkg, info, files)
	}
	for i, f := range files {
		x := &ins{fset: fset, info: info, pkg: pkg, mod: mod, mc: mcPath, mapIter: "MapIter"}
		if isMain {
			x.mapIter = "MapIterFixed"
		}
		x.file(f, isMain, &initNames)
		f.Comments = nil
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), f); err != nil {
			die("print %s: %v", names[i], err)
		}
		dst := filepath.Join(outDir, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+filepath.Base(names[i]))
		if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
			die("%v", err)
		}
		(*rep)[names[i]] = dst
	}
	if !isMain {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport zzmc %q\n\nfunc init() {\n", p.Name, mcPath)
		for _, n := range initNames {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		fmt.Fprintf(&b, "\tzzmc.RegisterReset(zzReset)\n}\n\nfunc zzReset() {\n")
		for _, s := range resetStmts {
			fmt.Fprintf(&b, "\t%s()\n", s)
		}
		for _, n := range initNames {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		fmt.Fprintf(&b, "}\n")
		dst := filepath.Join(outDir, strings.ReplaceAll(p.ImportPath, "/", "_")+"_zzreset.go")
		if err := os.WriteFile(dst, b.Bytes(), 0644); err != nil {
			die("%v", err)
		}
		(*rep)[filepath.Join(p.Dir, "zzreset.go")] = dst
	}
}

// resets adds functions to the files that initialise the package variables
// again, and returns their names in initialisation order.
func resets(fset *token.FileSet, pkg *types.Package, info *types.Info, files []*ast.File) []string {
	var out []string
	n := 0
	// the extent of a file is gone once declarations are added to it
	ends := make([]token.Pos, len(files))
	for i, f := range files {
		ends[i] = f.End()
	}
	fileOf := func(pos token.Pos) *ast.File {
		for i, f := range files {
			if f.Pos() <= pos && pos <= ends[i] {
				return f
			}
		}
		return nil
	}
	initialised := map[types.Object]bool{}
	addFn := func(f *ast.File, lhs []ast.Expr, rhs []ast.Expr) {
		name := fmt.Sprintf("zzReset%d", n)
		n++
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}}}})
		out = append(out, name)
	}
	// zero values first
	type zv struct {
		f  *ast.File
		id *ast.Ident
		t  ast.Expr
	}
	var zeros []zv
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					for _, id := range vs.Names {
						if o := info.Defs[id]; o != nil {
							initialised[o] = true
						}
					}
					continue
				}
				for _, id := range vs.Names {
					if id.Name != "_" {
						zeros = append(zeros, zv{f, id, vs.Type})
					}
				}
			}
		}
	}
	for _, z := range zeros {
		obj := info.Defs[z.id]
		lhs := ast.NewIdent(z.id.Name)
		info.Uses[lhs] = obj
		star := &ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{z.t}}}
		addFn(z.f, []ast.Expr{lhs}, []ast.Expr{star})
	}
	for _, in := range info.InitOrder {
		var lhs []ast.Expr
		blank := true
		skip := true
		for _, v := range in.Lhs {
			id := ast.NewIdent(v.Name())
			if v.Name() != "_" {
				blank = false
				info.Uses[id] = v
			}
			if !skipType(v.Type()) {
				skip = false
			}
			lhs = append(lhs, id)
		}
		if blank || skip || bigLiteral(in.Rhs) {
			continue
		}
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			die("no file declares %v", in.Lhs)
		}
		addFn(f, lhs, []ast.Expr{in.Rhs})
	}
	return out
}

// skipType: values of these types are never modified after initialisation.
func skipType(t types.Type) bool {
	s := t.String()
	switch s {
	case "error", "*regexp.Regexp", "reflect.Type", "string":
		return true
	}
	return false
}

func bigLiteral(e ast.Expr) bool {
	n := 0
	ast.Inspect(e, func(ast.Node) bool { n++; return true })
	return n > 400
}

func (x *ins) fresh() *ast.Ident {
	x.n++
	return ast.NewIdent(fmt.Sprintf("zz%d", x.n))
}

func (x *ins) mcSel(name string) ast.Expr {
	x.useMC = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzmc"), Sel: ast.NewIdent(name)}
}

func (x *ins) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: x.mcSel(name), Args: args}
}

func (x *ins) file(f *ast.File, isMain bool, initNames *[]string) {
	for _, imp := range f.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		if w, ok := wrap[path]; ok {
			if imp.Name == nil {
				imp.Name = ast.NewIdent(filepath.Base(path))
			}
			imp.Path.Value = strconv.Quote(x.mod + "/zzmc/" + w)
			imp.EndPos = 0
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fd.Body == nil {
			link := directive(f, fd, fd.Name.Name)
			switch link {
			case "runtime.nanotime", "runtime.nanotime1":
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{x.call("Nanotime")}}}}
				fd.Doc = nil
			}
		}
		if fd.Name.Name == "init" && fd.Recv == nil && !isMain {
			name := fmt.Sprintf("zzInit%d", len(*initNames))
			*initNames = append(*initNames, name)
			fd.Name = ast.NewIdent(name)
		}
	}
	for i, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		f.Decls[i] = x.node(d).(ast.Decl)
	}
	keepDirectives(f)
	// runtime.Gosched may leave an unused import behind
	if x.useMC {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzmc"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(x.mc)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	// keep every import used
	for _, imp := range f.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		name := ""
		if imp.Name != nil {
			name = imp.Name.Name
		} else if path == "runtime" || path == "reflect" {
			name = path
		}
		var ref string
		switch path {
		case "runtime":
			ref = "Gosched"
		case "reflect":
			ref = "TypeOf"
		}
		if ref != "" && name != "_" && name != "." {
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(ref)}}}}})
		}
	}
}

// directive returns the target of a linkname directive for the function.
func directive(f *ast.File, fd *ast.FuncDecl, name string) string {
	for _, g := range f.Comments {
		for _, c := range g.List {
			fs := strings.Fields(c.Text)
			if len(fs) == 3 && fs[0] == "//go:linkname" && fs[1] == name {
				return fs[2]
			}
		}
	}
	return ""
}

// keepDirectives drops all comments but directives of declarations.
func keepDirectives(f *ast.File) {
	f.Doc = nil
	var walk func(n ast.Node) bool
	strip := func(g *ast.CommentGroup) *ast.CommentGroup {
		if g == nil {
			return nil
		}
		var l []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") && !strings.HasPrefix(c.Text, "//go:build") {
				l = append(l, c)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return &ast.CommentGroup{List: l}
	}
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = strip(n.Doc)
		case *ast.GenDecl:
			n.Doc = strip(n.Doc)
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		}
		return true
	}
	ast.Inspect(f, walk)
}

func constantOf(tv types.TypeAndValue) constant.Value { return tv.Value }
