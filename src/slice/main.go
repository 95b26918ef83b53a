// Command slice makes the largest compilable part of a package that does not
// compile as a whole. It keeps every declaration of the original files word
// for word and in place, and blanks the ones that cannot be parsed or that the
// compiler rejects; names that are then missing come from a file of stubs.
//
//	slice -repo R -pkg rpc -at zzslice/rpc -with DIR -out O -ovout F
//
// DIR/stubs.go holds the stubs (a stub is used only if the package itself has
// no such declaration left), the other files of DIR are added as they are. F
// receives the overlay entries.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "slice: "+f+"\n", a...)
	os.Exit(2)
}

// unit is one declaration, or one specification of an import.
type unit struct {
	names      []string
	start, end int // byte offsets
	l0, l1     int // lines
	gone       bool
	imp        bool
}

type file struct {
	name  string
	src   []byte
	units []*unit
	stub  bool
}

func recv(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return d.Name.Name
	}
	t := d.Recv.List[0].Type
	for {
		switch x := t.(type) {
		case *ast.StarExpr:
			t = x.X
		case *ast.IndexExpr:
			t = x.X
		case *ast.ParenExpr:
			t = x.X
		case *ast.Ident:
			return x.Name + "." + d.Name.Name
		default:
			return "?." + d.Name.Name
		}
	}
}

func load(path string, stub bool, swap map[string]string) *file {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	f := &file{name: filepath.Base(path), src: src, stub: stub}
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, path, src, parser.AllErrors|parser.SkipObjectResolution)
	if a == nil {
		die("%v", err)
	}
	var bad []int
	if l, ok := err.(scanner.ErrorList); ok {
		for _, e := range l {
			bad = append(bad, e.Pos.Offset)
		}
	}
	off := func(p token.Pos) int {
		o := fset.Position(p).Offset
		if o < 0 || o > len(src) {
			o = len(src)
		}
		return o
	}
	add := func(n ast.Node, names []string, imp bool) *unit {
		u := &unit{names: names, start: off(n.Pos()), end: off(n.End()), imp: imp}
		if n.End() == token.NoPos || u.end < u.start {
			u.end = len(src)
		}
		for _, b := range bad {
			if b >= u.start && b <= u.end {
				u.gone = true
			}
		}
		f.units = append(f.units, u)
		return u
	}
	for _, d := range a.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			u := add(d, []string{recv(d)}, false)
			if d.Body == nil || d.Name.Name == "" || d.Name.Name == "_" && len(bad) > 0 {
				u.gone = true
			}
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				for _, s := range d.Specs {
					is := s.(*ast.ImportSpec)
					p, _ := strconv.Unquote(is.Path.Value)
					if n := swap[p]; n != "" {
						// keep the length of the line, the column does not matter
						o := off(is.Path.Pos())
						e := off(is.Path.End())
						q := strconv.Quote(n)
						src = append(append(append([]byte{}, src[:o]...), q...), src[e:]...)
						f.src = src
						os.WriteFile(filepath.Join(tmp, f.name), src, 0644)
						ns := map[string]string{}
						for k, v := range swap {
							if k != p {
								ns[k] = v
							}
						}
						return load(filepath.Join(tmp, f.name), stub, ns)
					}
					add(is, nil, true)
				}
				continue
			}
			var names []string
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					names = append(names, s.Name.Name)
				case *ast.ValueSpec:
					for _, n := range s.Names {
						if n.Name != "_" {
							names = append(names, n.Name)
						}
					}
				}
			}
			add(d, names, false)
		default:
			add(d, nil, false).gone = true
		}
	}
	// what follows the last declaration that parsed
	if len(bad) > 0 {
		end := 0
		for _, u := range f.units {
			if !u.gone && u.end > end {
				end = u.end
			}
		}
		for _, b := range bad {
			if b >= end {
				f.units = append(f.units, &unit{start: end, end: len(src), gone: true})
				break
			}
		}
	}
	for _, u := range f.units {
		u.l0 = 1 + bytes.Count(src[:u.start], []byte("\n"))
		u.l1 = 1 + bytes.Count(src[:u.end], []byte("\n"))
	}
	return f
}

func (f *file) text() []byte {
	b := append([]byte{}, f.src...)
	for _, u := range f.units {
		if !u.gone {
			continue
		}
		for i := u.start; i < u.end; i++ {
			if b[i] != '\n' {
				b[i] = ' '
			}
		}
	}
	return b
}

var tmp string

func main() {
	repo := flag.String("repo", "", "module root")
	pkg := flag.String("pkg", "", "directory of the package")
	at := flag.String("at", "", "directory of the result")
	with := flag.String("with", "", "directory of the stubs and additions")
	out := flag.String("out", "", "output directory")
	ovout := flag.String("ovout", "", "overlay entries")
	also := flag.String("also", "", "further packages to add, DIR=AT,...")
	swaps := flag.String("swap", "", "imports to replace, old=new,...")
	flag.Parse()
	swap := map[string]string{}
	for _, s := range strings.Split(*swaps, ",") {
		if i := strings.IndexByte(s, '='); i > 0 {
			swap[s[:i]] = s[i+1:]
		}
	}
	os.MkdirAll(*out, 0755)
	tmp = filepath.Join(*out, "swapped")
	os.MkdirAll(tmp, 0755)

	var fs []*file
	paths, _ := filepath.Glob(filepath.Join(*repo, *pkg, "*.go"))
	sort.Strings(paths)
	for _, p := range paths {
		if !strings.HasSuffix(p, "_test.go") {
			fs = append(fs, load(p, false, swap))
		}
	}
	var fixed []string
	adds, _ := filepath.Glob(filepath.Join(*with, "*.go"))
	for _, p := range adds {
		if filepath.Base(p) == "stubs.go" {
			f := load(p, true, nil)
			f.name = "zz_stubs.go"
			fs = append(fs, f)
		} else {
			fixed = append(fixed, p)
		}
	}
	more := map[string]string{}
	for _, s := range strings.Split(*also, ",") {
		if i := strings.IndexByte(s, '='); i > 0 {
			l, _ := filepath.Glob(filepath.Join(s[:i], "*.go"))
			for _, p := range l {
				more[filepath.Join(*repo, s[i+1:], filepath.Base(p))] = p
			}
		}
	}
	dropped := map[string]string{}
	// stubs first: one is used if there is no other declaration of its name
	settle := func() {
		have := map[string]bool{}
		for _, f := range fs {
			for _, u := range f.units {
				if !f.stub && !u.gone {
					for _, n := range u.names {
						have[n] = true
					}
				}
			}
		}
		for _, f := range fs {
			if !f.stub {
				continue
			}
			for _, u := range f.units {
				if u.imp {
					u.gone = false
				}
				if len(u.names) > 0 {
					u.gone = have[u.names[0]]
				}
			}
		}
	}
	errRe := regexp.MustCompile(`(?m)^([^\s:]+\.go):(\d+):(?:\d+:)? (.*)$`)
	for round := 0; ; round++ {
		settle()
		ov := map[string]string{}
		for _, f := range fs {
			p := filepath.Join(*out, f.name)
			if err := os.WriteFile(p, f.text(), 0644); err != nil {
				die("%v", err)
			}
			ov[filepath.Join(*repo, *at, f.name)] = p
		}
		for at, p := range more {
			ov[at] = p
		}
		for _, p := range fixed {
			ov[filepath.Join(*repo, *at, filepath.Base(p))] = p
		}
		var impOut string
		for {
			b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
			op := filepath.Join(*out, "ov.json")
			os.WriteFile(op, b, 0644)
			cmd := exec.Command("go", "build", "-buildvcs=false", "-overlay", op, "-gcflags=-e", "./"+*at)
			cmd.Dir = *repo
			o, err := cmd.CombinedOutput()
			if err == nil {
				names := make([]string, 0, len(dropped))
				for n := range dropped {
					names = append(names, n)
				}
				sort.Strings(names)
				b, _ := json.MarshalIndent(map[string]interface{}{"Replace": ov, "Dropped": names}, "", " ")
				if err := os.WriteFile(*ovout, b, 0644); err != nil {
					die("%v", err)
				}
				return
			}
			impOut = string(o)
			// drop at most the imports in a first step, they depend on the rest
			break
		}
		n := 0
		var outer []string
		for _, m := range errRe.FindAllStringSubmatch(impOut, -1) {
			line, _ := strconv.Atoi(m[2])
			hit := false
			for _, f := range fs {
				if f.name != filepath.Base(m[1]) {
					continue
				}
				for _, u := range f.units {
					if u.gone || line < u.l0 || line > u.l1 || u.imp != (strings.Contains(m[3], "imported and not used") || strings.Contains(m[3], "is not in std") || strings.Contains(m[3], "no required module")) {
						continue
					}
					hit = true
					u.gone = true
					n++
					if !f.stub {
						for _, nm := range u.names {
							dropped[nm] = m[3]
						}
					}
				}
			}
			if !hit {
				outer = append(outer, m[0])
			}
		}
		if n == 0 || round > 25 {
			die("the slice of %s does not compile:\n%s\n%s", *pkg, strings.Join(outer, "\n"), impOut)
		}
	}
}
