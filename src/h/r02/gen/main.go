// The generation stage of R02: it enumerates struct types, runs the generator
// program on each and type-checks what comes out. The accepted code goes into
// packages that the second stage runs; everything else is recorded as outcome.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const base = "flychain/zzmc/r02"

// ---- driver mode: answers the package queries of the generator ----

type pkgJSON struct {
	ID              string
	Name            string
	PkgPath         string
	GoFiles         []string
	CompiledGoFiles []string
	Imports         map[string]string
}

func driver() {
	var roots []string
	ids := map[string]pkgJSON{}
	stubs := os.Getenv("R02_STUBS")
	rlpPath := "rlp"
	std := func(path, name string, imports ...string) {
		m := map[string]string{}
		for _, i := range imports {
			m[i] = i
		}
		f := []string{filepath.Join(stubs, name+".go")}
		ids[path] = pkgJSON{path, name, path, f, f, m}
	}
	for _, w := range os.Args[1:] {
		if w == "." {
			wd, _ := os.Getwd()
			path := base + "/" + filepath.Base(wd)
			f := []string{filepath.Join(wd, "types.go")}
			m := map[string]string{}
			fs, err := parser.ParseFile(token.NewFileSet(), f[0], nil, parser.ImportsOnly)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			for _, i := range fs.Imports {
				p, _ := strconv.Unquote(i.Path.Value)
				m[p] = p
			}
			ids[path] = pkgJSON{path, fs.Name.Name, path, f, f, m}
			roots = append(roots, path)
			continue
		}
		rlpPath = w
		roots = append(roots, w)
	}
	std("errors", "errors")
	std("io", "io", "errors")
	std("unsafe", "unsafe")
	std("math/big", "big")
	std(rlpPath, "rlp", "errors", "io", "math/big")
	std(base+"/ext", "ext", "errors", "io", rlpPath)
	var l []pkgJSON
	for _, p := range ids {
		l = append(l, p)
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"Sizes": map[string]int{"WordSize": 8, "MaxAlign": 8}, "Roots": roots, "Packages": l})
}

// ---- the space of types ----

type want int

const (
	ok     want = iota // must be generated
	bad                // must be rejected
	either             // may be rejected, must be right otherwise
)

type ftype struct {
	src  string
	w    want
	opt  want // when the field is optional
	ptr  bool
	nils bool // nil tags are specified for it
}

func plain(src string) ftype   { return ftype{src, ok, ok, false, false} }
func pointer(src string) ftype { return ftype{src, ok, ok, true, true} }
func reject(src string) ftype  { return ftype{src, bad, bad, strings.HasPrefix(src, "*"), true} }

var fieldTypes = []ftype{
	plain("bool"), plain("uint8"), plain("byte"), plain("uint16"), plain("uint32"), plain("uint64"), plain("string"),
	plain("[]byte"), plain("[2]byte"), plain("[1]byte"), plain("[0]byte"), plain("MyU"), plain("MyU64"), plain("MyB"), plain("MyS"), plain("MyBytes"), plain("MyHash"), plain("MyNums"),
	plain("MyByte"), plain("Ali"), plain("ext.Num"), plain("ext.Text"), plain("ext.Hash"), plain("ext.Blob"), plain("ext.Rec"), plain("ext.Nums"),
	{"big.Int", ok, either, false, false}, {"*big.Int", ok, ok, true, false}, plain("rlp.RawValue"),
	plain("Aux"), plain("Aux0"), plain("Opt"), {"Nest", ok, either, false, false}, {"NonCmp", ok, either, false, false}, {"Mixed", ok, either, false, false}, plain("Two"),
	plain("struct{ A uint8 }"), plain("struct{}"), plain("struct{ A *uint8 `rlp:\"nil\"`; B string }"), {"struct{ L []uint16 }", ok, either, false, false},
	plain("[]uint16"), plain("[]bool"), plain("[]string"), plain("[][]byte"), plain("[][2]byte"), plain("[][]uint16"), plain("[]Aux"), plain("[]*Aux"), plain("[]Opt"), plain("[]*uint16"),
	plain("[]MyU"), plain("[]MyS"), plain("[]MyBytes"), plain("[]MyHash"), plain("[]*MyU"), plain("[]MyNums"), plain("[]ext.Num"), plain("[]*ext.Rec"), plain("[]big.Int"), plain("[]*big.Int"), plain("[]rlp.RawValue"), plain("[]*rlp.RawValue"), plain("[]*ext.Cust"), plain("[]struct{ A uint8 }"), plain("[]Ali"), plain("[]Aux0"), plain("[]struct{ B Aux0 }"), plain("[][]Aux0"), plain("[]*Aux0"),
	pointer("*bool"), pointer("*uint8"), pointer("*uint16"), pointer("*uint64"), pointer("*string"), pointer("*[]byte"), pointer("*[2]byte"), pointer("*MyU"), pointer("*MyB"), pointer("*MyS"), pointer("*MyBytes"), pointer("*MyHash"), pointer("*MyNums"), pointer("*ext.Num"), pointer("*ext.Hash"), pointer("*ext.Blob"), pointer("*ext.Rec"),
	pointer("*Aux"), pointer("*Aux0"), pointer("*Opt"), pointer("*Nest"), pointer("*NonCmp"), pointer("*struct{ A uint8 }"), pointer("*struct{ A []uint16 }"), pointer("*[]uint16"), pointer("*[]Aux"), pointer("*[]*Aux"), pointer("*[][]byte"), pointer("*rlp.RawValue"), pointer("*Ali"),
	{"*ext.Cust", ok, ok, true, false}, {"MyPtr", ok, ok, true, true},
	{"**uint8", either, either, true, true}, {"**Aux", either, either, true, true}, {"**big.Int", either, either, true, false}, {"[]MyByte", either, either, false, false}, {"[2]MyByte", either, either, false, false}, {"*[]MyByte", either, either, true, true}, {"*[2]MyByte", either, either, true, true}, {"MyByteArr", either, either, false, false},
	{"big.Float", either, either, false, false}, {"*big.Rat", either, either, true, true}, {"[]big.Float", either, either, false, false},
	reject("int"), reject("int8"), reject("int64"), reject("uint"), reject("uintptr"), reject("float64"), reject("complex128"), reject("map[string]uint8"), reject("chan bool"), reject("func()"), reject("interface{}"), reject("error"), reject("rlp.Encoder"), reject("unsafe.Pointer"), reject("MyInt"),
	reject("[2]uint16"), reject("[2]string"), reject("[2]Aux"), reject("[2][2]byte"), reject("[]int"), reject("*int"), reject("*map[string]uint8"), reject("[]interface{}"), reject("BadStruct"), reject("*BadStruct"), reject("[]BadStruct"), reject("BadTag"), reject("struct{ A []uint8 `rlp:\"tail\"` }"),
	reject("*EncOnly"), reject("*DecOnly"), reject("ValDec"), reject("[]ValDec"), reject("*ValDec"), reject("[]*EncOnly"),
	reject("*Rcv"), reject("[]Rcv"), reject("RecSlice"), reject("*RecA"), reject("RecPtr"),
}

const auxSrc = `
type (
	MyU     uint16
	MyU64   uint64
	MyB     bool
	MyS     string
	MyBytes []byte
	MyHash  [2]byte
	MyByte  byte
	MyNums  []uint16
	MyPtr   *uint16
	MyInt   int
	MyByteArr [2]MyByte
	Ali     = Aux
	Aux     struct{ A uint8 }
	Aux0    struct{}
	Opt     struct {
		A uint8
		B *uint8 ` + "`rlp:\"nil,optional\"`" + `
		C uint16 ` + "`rlp:\"optional\"`" + `
	}
	Nest struct {
		N Aux
		L []Aux
		P *Aux ` + "`rlp:\"nil\"`" + `
	}
	NonCmp struct{ L []uint16 }
	Two struct{ A, B uint8 }
	Mixed  struct {
		a int
		A uint8 ` + "`json:\"a\"`" + `
		_ string
		B string ` + "`rlp:\"-\"`" + `
		Aux
		c map[string]int
	}
	BadStruct struct{ A uint8; F float32 }
	BadTag    struct{ A uint8 ` + "`rlp:\"nil\"`" + ` }
	EncOnly   struct{ A uint8 }
	DecOnly   struct{ A uint8 }
	ValDec    struct{ A uint8 }
	Rcv      struct { A uint8; Next *Rcv ` + "`rlp:\"nil\"`" + ` }
	RecSlice []RecSlice
	RecPtr   *RecPtr
	RecA     struct{ L []RecB }
	RecB     struct{ A *RecA ` + "`rlp:\"optional\"`" + `}
	Gen[T any] struct { A uint8 }
	GenF[T any] struct { A T }
	AliStruct = struct{ A uint8 }
	AliPtr    = *Aux
	NotStruct uint8
	Iface     interface{}
)

func NotType() {}

var Variable uint8

func (*EncOnly) EncodeRLP(io.Writer) error  { return nil }
func (*DecOnly) DecodeRLP(*rlp.Stream) error { return nil }
func (ValDec) DecodeRLP(*rlp.Stream) error   { return nil }

var _ big.Int
var _ ext.Num
var _ unsafe.Pointer
`

type item struct {
	Name string
	Src  string // struct body
	Want want
	// outcome
	Err   string // the generator's error
	Fault string // what is wrong
	code  []byte
	pkg   int
}

var items []*item

type field struct {
	t   ftype
	tag string
}

func joinWant(a, b want) want {
	if a == bad || b == bad {
		return bad
	}
	if a == either || b == either {
		return either
	}
	return ok
}

// expect says what the generator has to do with a list of fields.
func expect(fs []field) want {
	w := ok
	seen := false
	for _, f := range fs {
		opt, ign, tail := false, false, false
		for _, t := range strings.Split(f.tag, ",") {
			switch t {
			case "optional":
				opt = true
			case "-":
				ign = true
			case "tail":
				tail = true
			case "nil", "nilString", "nilList":
				if !f.t.ptr || f.t.src == "MyPtr" && !named {
					w = bad
				}
			case "":
			default:
				w = bad
			}
		}
		if tail {
			w = bad
		}
		if ign {
			continue
		}
		if seen && !opt {
			w = bad
		}
		seen = seen || opt
		if opt {
			w = joinWant(w, f.t.opt)
		} else {
			w = joinWant(w, f.t.w)
		}
	}
	return w
}

const named = true // named pointer types count as pointers

func body(fs []field) string {
	var b strings.Builder
	for i, f := range fs {
		fmt.Fprintf(&b, "\t%c %s", 'A'+i, f.t.src)
		if f.tag != "" {
			fmt.Fprintf(&b, " `rlp:%q`", f.tag)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func add(src string, w want) *item {
	it := &item{Name: fmt.Sprintf("T%d", len(items)), Src: src, Want: w}
	items = append(items, it)
	return it
}

func addFields(fs ...field) { add(body(fs), expect(fs)) }

func find(src string) ftype {
	for _, f := range fieldTypes {
		if f.src == src {
			return f
		}
	}
	panic(src)
}

func sel(l ...string) (r []field) {
	for _, s := range l {
		p := strings.SplitN(s, " | ", 2)
		f := field{t: find(p[0])}
		if len(p) == 2 {
			f.tag = p[1]
		}
		r = append(r, f)
	}
	return
}

func with(f field, tag string) field {
	if f.tag != "" {
		tag = f.tag + "," + tag
	}
	f.tag = strings.TrimSuffix(tag, ",")
	return f
}

// patterns of optional fields
func products(n int, fs []field, patterns ...string) {
	pick := make([]field, n)
	var rec func(i int, p string)
	rec = func(i int, p string) {
		if i == n {
			addFields(pick...)
			return
		}
		for _, f := range fs {
			pick[i] = f
			if p[i] == 'o' {
				pick[i] = with(f, "optional")
			}
			rec(i+1, p)
		}
	}
	for _, p := range patterns {
		rec(0, p)
	}
}

func enumerate(thorough bool) {
	add("", ok)
	for _, t := range fieldTypes {
		tags := []string{"", "optional", "-", "tail", "nil", "nope"}
		if t.ptr {
			tags = append(tags, "nilString", "nilList", "nil,optional", "nilString,optional", "optional,nilList")
		}
		for _, tag := range tags {
			if strings.Contains(tag, "nil") && t.ptr && !t.nils {
				continue
			}
			addFields(field{t, tag})
		}
		// ignored in other ways
		add("\ta "+t.src+"\n\tB uint8\n", ok)
		add("\t_ "+t.src+"\n\tB uint8\n", ok)
		// as element of a larger shape
		if t.ptr && !t.nils || t.src == "[]MyByte" {
			continue
		}
		w := t.w
		if w == ok {
			add("\tA struct{ B "+t.src+" }\n", w)
			add("\tA []struct{ B "+t.src+"; C bool `rlp:\"optional\"` }\n", w)
			add("\tA *struct{ B "+t.src+" } `rlp:\"nil\"`\n", w)
			add("\tA, B "+t.src+"\n", w)
			add("\tA "+t.src+"\n\tB "+t.src+" `rlp:\"optional\"`\n", t.opt)
		}
	}
	for _, e := range []string{"Aux", "*Aux", "ext.Rec", "*ext.Rec", "Opt", "MyU", "*MyU"} {
		add("\t"+e+"\n", ok)
		add("\t"+e+" `rlp:\"optional\"`\n", ok)
		add("\tX uint8\n\t"+e+"\n\tY string\n", ok)
	}
	add("\tx uint8\n\tA uint8\n\ty string\n\tB []uint16\n\tz bool\n", ok)
	add("\tA uint8 `json:\"nil\"`\n\tB string `yaml:\"x\" rlp:\"optional\"`\n", ok)
	add("\tG Gen[uint8]\n", either)
	add("\tG GenF[uint16]\n", either)
	add("\tG *GenF[MyU]\n", either)

	// many imports, many fields, deep nesting
	addFields(sel("ext.Num", "[]big.Int", "[]rlp.RawValue", "*ext.Rec | nil")...)
	addFields(sel("[]big.Int", "[]*ext.Cust", "*rlp.RawValue | nil,optional")...)
	var wide []field
	for i := 0; i < 24; i++ {
		wide = append(wide, sel("uint8", "bool", "string", "*Aux | nil", "Opt", "[]uint16", "*uint16", "[2]byte")[i%8])
	}
	addFields(wide...)
	for _, from := range []int{0, 1, 12, 23} {
		var l []field
		for i, f := range wide {
			if i >= from {
				f = with(f, "optional")
			}
			l = append(l, f)
		}
		addFields(l...)
	}
	var all []field
	for _, t := range fieldTypes {
		if t.w == ok && len(all) < 26 {
			all = append(all, field{t: t})
		}
	}
	addFields(all...)
	add("\tA struct{ B struct{ C struct{ D []struct{ E *struct{ F uint8 `rlp:\"optional\"` } `rlp:\"nil\"`; G bool } } } }\n", ok)
	add("\tA [][][][]uint8\n\tB bool\n", ok)

	two := sel("bool", "uint16", "string", "[]byte", "[2]byte", "MyU", "big.Int", "*big.Int", "rlp.RawValue", "Aux", "Opt", "[]uint16", "[]*Aux", "*uint8", "*uint16 | nil", "*Aux | nil", "*Aux | nilString", "*MyS | nilList", "ext.Rec", "*ext.Cust")
	products(2, two, "--", "-o", "oo")
	products(2, sel("uint16", "*Aux", "[]uint16", "bool"), "o-")
	three := sel("uint16", "*Aux | nil", "[]byte", "bool", "Aux", "*ext.Cust")
	if thorough {
		three = sel("uint16", "*Aux | nil", "*Aux", "[]byte", "bool", "Aux", "rlp.RawValue", "*big.Int", "string", "[2]byte", "*uint16 | nilList")
		products(4, sel("uint16", "[]byte", "*Aux | nil", "bool"), "--oo", "-ooo", "oooo", "----")
	}
	products(3, three, "---", "--o", "-oo", "ooo")
	products(3, sel("uint16", "[]uint16"), "-o-", "o--", "oo-", "o-o")
}

// ---- running the generator ----

var (
	rlpgen, work, self string
	npkg               = 64
)

func pkgDir(i int) string { return filepath.Join(work, fmt.Sprintf("p%d", i)) }

func typesSource(i int) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package p%d\n\nimport (\n\t\"io\"\n\t\"math/big\"\n\t\"rlp\"\n\t\"unsafe\"\n\n\t%q\n)\n", i, base+"/ext")
	b.WriteString(auxSrc)
	for _, it := range items {
		if it.pkg == i {
			fmt.Fprintf(&b, "\ntype %s struct {\n%s}\n", it.Name, it.Src)
		}
	}
	return b.Bytes()
}

func runGen(dir string, args ...string) (stdout, stderr []byte, code int, fault string) {
	for try := 0; ; try++ {
		cmd := exec.Command(rlpgen, append([]string{"-dir", dir}, args...)...)
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "GOPACKAGESDRIVER="+self, "R02_DRIVER=1", "R02_STUBS="+filepath.Join(work, "stubs"), "GOTRACEBACK=single", "GOMAXPROCS=2", "GOGC=off", "GOMEMLIMIT=500MiB")
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		timeout := false
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
			timeout = true
		}
		if timeout {
			if try == 0 {
				continue
			}
			return nil, nil, -1, "the generator does not finish within 60 s"
		}
		code = cmd.ProcessState.ExitCode()
		stdout, stderr = so.Bytes(), se.Bytes()
		if code != 0 && code != 1 || bytes.Contains(stderr, []byte("goroutine ")) {
			s := stderr
			if len(s) > 600 {
				s = s[:600]
			}
			return stdout, stderr, code, fmt.Sprintf("the generator crashes (%d): %s", code, s)
		}
		if code == 0 && len(stdout) == 0 && !strings.Contains(strings.Join(args, " "), "-out") {
			return stdout, stderr, code, "the generator succeeds without output"
		}
		if code == 1 && len(bytes.TrimSpace(stderr)) == 0 {
			return stdout, stderr, code, "the generator fails without a message"
		}
		return stdout, stderr, code, ""
	}
}

// constraints tells whether a normal build includes the file.
func included(code []byte) bool {
	for _, l := range strings.Split(string(code), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			e, err := constraint.Parse(l)
			return err == nil && e.Eval(func(string) bool { return false })
		}
	}
	return true
}

// ---- type checking ----

type imp struct {
	mu   sync.Mutex
	fset *token.FileSet
	std  types.Importer
	m    map[string]*types.Package
	dirs map[string]string
}

func (i *imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := i.m[path]; p != nil {
		return p, nil
	}
	f, mine := i.dirs[path]
	if !mine {
		if path == "io" || path == "errors" || path == "math/big" || path == "bytes" || path == "fmt" {
			p, err := i.std.Import(path)
			i.m[path] = p
			return p, err
		}
		return nil, fmt.Errorf("no package %s", path)
	}
	af, err := parser.ParseFile(i.fset, f, nil, 0)
	if err != nil {
		return nil, err
	}
	p, err := (&types.Config{Importer: i}).Check(path, i.fset, []*ast.File{af}, nil)
	i.m[path] = p
	return p, err
}

// Import is called by concurrent checks through this.
type locked struct{ *imp }

func (l locked) Import(path string) (*types.Package, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.imp.Import(path)
}

func main() {
	if os.Getenv("R02_DRIVER") == "1" {
		driver()
		return
	}
	// gen RLPGEN SRC OUT TIER
	var src, out, tier string
	rlpgen, src, out, tier = os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	self, _ = os.Executable()
	work = filepath.Join(out, "work")
	must(os.MkdirAll(filepath.Join(work, "stubs"), 0755))
	for _, n := range []string{"errors", "io", "unsafe", "big"} {
		b, err := os.ReadFile(filepath.Join(src, "stubs", n+".txt"))
		must(err)
		must(os.WriteFile(filepath.Join(work, "stubs", n+".go"), b, 0644))
	}
	for _, n := range []string{"rlp", "ext"} {
		b, err := os.ReadFile(filepath.Join(src, n, n+".go"))
		must(err)
		must(os.WriteFile(filepath.Join(work, "stubs", n+".go"), b, 0644))
	}
	enumerate(tier == "thorough")
	for i, it := range items {
		it.pkg = i % npkg
	}
	for i := 0; i < npkg; i++ {
		must(os.MkdirAll(pkgDir(i), 0755))
		must(os.WriteFile(filepath.Join(pkgDir(i), "types.go"), typesSource(i), 0644))
	}

	// 1. run the generator
	var wg sync.WaitGroup
	ch := make(chan *item)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range ch {
				so, se, code, fault := runGen(pkgDir(it.pkg), "-type", it.Name, "-encoder", "-decoder")
				switch {
				case fault != "":
					it.Fault = fault
				case code == 0:
					it.code = so
					if it.Want == bad {
						it.Fault = "an unsupported type is accepted"
					} else if !included(so) {
						it.Fault = "a normal build excludes the generated file"
					}
				default:
					it.Err = strings.TrimSpace(string(se))
					if it.Want == ok {
						it.Fault = "a supported type is rejected: " + it.Err
					}
				}
			}
		}()
	}
	for _, it := range items {
		ch <- it
	}
	close(ch)
	wg.Wait()

	lap("generate")
	// 2. type-check
	fset := token.NewFileSet()
	im := locked{&imp{fset: fset, std: importer.ForCompiler(fset, "source", nil), m: map[string]*types.Package{}, dirs: map[string]string{
		"rlp": filepath.Join(work, "stubs", "rlp.go"), base + "/ext": filepath.Join(work, "stubs", "ext.go")}}}
	for _, p := range []string{"io", "errors", "math/big", "rlp", base + "/ext"} {
		_, err := im.Import(p)
		must(err)
	}
	for i := 0; i < npkg; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			checkPkg(fset, im, i)
		}(i)
	}
	wg.Wait()

	lap("check")
	// 3. command line behaviour
	cmdline(fset, im)

	lap("command line")
	// 4. emit
	emit(out)
}

var t0 = time.Now()

func lap(what string) {
	if os.Getenv("R02_TIMES") != "" {
		fmt.Fprintln(os.Stderr, what, time.Since(t0), len(items), len(outcomes))
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func checkPkg(fset *token.FileSet, im types.Importer, i int) {
	tf, err := parser.ParseFile(fset, filepath.Join(pkgDir(i), "types.go"), nil, 0)
	must(err)
	files := []*ast.File{tf}
	by := map[string]*item{}
	for _, it := range items {
		if it.pkg != i || it.code == nil || it.Fault != "" {
			continue
		}
		name := it.Name + ".go"
		f, err := parser.ParseFile(fset, name, it.code, 0)
		if err != nil {
			it.Fault = "the generated code does not parse: " + err.Error()
			continue
		}
		if f.Name.Name != fmt.Sprintf("p%d", i) {
			it.Fault = "the generated code is in package " + f.Name.Name
			continue
		}
		by[name] = it
		files = append(files, f)
	}
	conf := types.Config{Importer: im, Error: func(err error) {
		te := err.(types.Error)
		it := by[fset.Position(te.Pos).Filename]
		if it == nil {
			if fset.Position(te.Pos).Filename != tf.Name.Name && strings.HasSuffix(fset.Position(te.Pos).Filename, "types.go") {
				must(fmt.Errorf("the tested types do not compile: %v", err))
			}
			return
		}
		if it.Fault == "" {
			it.Fault = "the generated code does not compile: " + err.Error()
		}
	}}
	pkg, _ := conf.Check(fmt.Sprintf("%s/p%d", base, i), fset, files, nil)
	// the methods are there
	for _, it := range by {
		if it.Fault != "" {
			continue
		}
		t := types.NewPointer(pkg.Scope().Lookup(it.Name).Type())
		for iface, pp := range map[string]string{"Encoder": "rlp", "Decoder": "rlp"} {
			rp, _ := im.Import(pp)
			if !types.Implements(t, rp.Scope().Lookup(iface).Type().Underlying().(*types.Interface)) {
				it.Fault = "the generated code does not implement rlp." + iface
			}
		}
	}
}

// ---- command line ----

type outcome struct{ Name, Fault string }

var outcomes []outcome

func methods(fset *token.FileSet, im types.Importer, code []byte, typ string, pkg int) (enc, dec bool, err error) {
	tf, err := parser.ParseFile(fset, filepath.Join(pkgDir(pkg), "types.go"), nil, 0)
	if err != nil {
		return
	}
	f, err := parser.ParseFile(fset, "gen.go", code, 0)
	if err != nil {
		return
	}
	conf := types.Config{Importer: im}
	p, err := conf.Check(fmt.Sprintf("%s/p%d", base, pkg), fset, []*ast.File{tf, f}, nil)
	if err != nil {
		return
	}
	ms := types.NewMethodSet(types.NewPointer(p.Scope().Lookup(typ).Type()))
	return ms.Lookup(p, "EncodeRLP") != nil, ms.Lookup(p, "DecodeRLP") != nil, nil
}

func cmdline(fset *token.FileSet, im types.Importer) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	put := func(name, fault string) {
		mu.Lock()
		defer mu.Unlock()
		outcomes = append(outcomes, outcome{name, fault})
	}
	par := func(f func()) {
		wg.Add(1)
		slots <- true
		go func() {
			defer wg.Done()
			f()
			<-slots
		}()
	}
	defer func() {
		wg.Wait()
		sort.Slice(outcomes, func(i, j int) bool { return outcomes[i].Name < outcomes[j].Name })
	}()
	// every combination of the two switches, for a few types
	n := 0
	for _, it := range items {
		if it.Want != ok || it.code == nil || it.Fault != "" {
			continue
		}
		n++
		if n%37 != 0 && !strings.Contains(it.Src, "ext.") {
			continue
		}
		if n%7 != 0 {
			continue
		}
		for _, enc := range []string{"", "-encoder=true", "-encoder=false"} {
			for _, dec := range []string{"", "-decoder=true", "-decoder=false"} {
				args := []string{"-type", it.Name}
				for _, a := range []string{enc, dec} {
					if a != "" {
						args = append(args, a)
					}
				}
				name := fmt.Sprintf("%s of {%s}", strings.Join(args[2:], " "), it.Src)
				we, wd := enc != "-encoder=false", dec == "-decoder=true"
				it := it
				par(func() {
					so, se, code, fault := runGen(pkgDir(it.pkg), args...)
					if !we && !wd {
						put(name, fault) // nothing to generate: any answer but a crash
						return
					}
					if fault == "" && code != 0 {
						fault = string(se)
					}
					if fault == "" {
						e, d, err := methods(fset, im, so, it.Name, it.pkg)
						if err != nil {
							fault = "the generated code does not compile: " + err.Error()
						} else if e != we || d != wd {
							fault = fmt.Sprintf("EncodeRLP generated: %v, DecodeRLP generated: %v", e, d)
						}
					}
					put(name, fault)
				})
			}
		}
	}
	// things that are no struct types
	for _, t := range []string{"NotStruct", "Iface", "NotType", "Variable", "Missing", "MyU", "MyBytes", "MyPtr", "AliStruct", "AliPtr", "RecSlice", "RecPtr", "Gen", "GenF", "", "big.Int", "T0 ", "t0", "*T0", "int", "error"} {
		t := t
		par(func() {
			_, _, code, fault := runGen(pkgDir(0), "-type", t, "-decoder")
			if fault == "" && code == 0 {
				fault = "accepted"
			}
			put("type "+strconv.Quote(t), fault)
		})
	}
	// an output file
	f := filepath.Join(work, "out.go")
	_, se, code, fault := runGen(pkgDir(0), "-type", items[0].Name, "-decoder", "-out", f)
	b, err := os.ReadFile(f)
	if fault == "" && (code != 0 || err != nil || !bytes.Equal(b, items[0].code)) && items[0].code != nil {
		fault = fmt.Sprintf("exit %d, %v, %s; the file differs from what is printed otherwise", code, err, se)
	}
	put("-out", fault)
}

// ---- emission ----

func emit(out string) {
	fix := func(b []byte) []byte {
		return bytes.Replace(b, []byte(`"rlp"`), []byte(`"`+base+`/rlp"`), 1)
	}
	write := func(rel string, b []byte) {
		p := filepath.Join(out, "tree", rel)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, b, 0644))
	}
	for _, n := range []string{"rlp", "ext"} {
		b, err := os.ReadFile(filepath.Join(work, "stubs", n+".go"))
		must(err)
		write("zzmc/r02/"+n+"/"+n+".go", fix(b))
	}
	for i := 0; i < npkg; i++ {
		dir := fmt.Sprintf("zzmc/r02/p%d", i)
		b, err := os.ReadFile(filepath.Join(pkgDir(i), "types.go"))
		must(err)
		write(dir+"/types.go", fix(b))
		var reg bytes.Buffer
		fmt.Fprintf(&reg, "package p%d\n\nvar All = map[string]interface{}{\n", i)
		for _, it := range items {
			if it.pkg == i && it.code != nil && it.Fault == "" {
				write(dir+"/"+strings.ToLower(it.Name)+"gen.go", fix(it.code))
				fmt.Fprintf(&reg, "\t%q: (*%s)(nil),\n", it.Name, it.Name)
			}
		}
		reg.WriteString("}\n")
		write(dir+"/all.go", reg.Bytes())
	}
	var a bytes.Buffer
	a.WriteString("package results\n\nimport (\n")
	for i := 0; i < npkg; i++ {
		fmt.Fprintf(&a, "\t\"%s/p%d\"\n", base, i)
	}
	a.WriteString(")\n\nvar Pkgs = []map[string]interface{}{\n")
	for i := 0; i < npkg; i++ {
		fmt.Fprintf(&a, "\tp%d.All,\n", i)
	}
	a.WriteString("}\n")
	write("zzmc/r02/results/all.go", a.Bytes())
	var r bytes.Buffer
	fmt.Fprintf(&r, "package results\n\ntype Item struct {\n\tName, Src, Want, Err, Fault string\n\tPkg int\n}\n\nvar Items = []Item{\n")
	wants := []string{"ok", "bad", "either"}
	for _, it := range items {
		fmt.Fprintf(&r, "\t{%q, %q, %q, %q, %q, %d},\n", it.Name, it.Src, wants[it.Want], it.Err, it.Fault, it.pkg)
	}
	r.WriteString("}\n\nvar Outcomes = []struct{ Name, Fault string }{\n")
	for _, o := range outcomes {
		fmt.Fprintf(&r, "\t{%q, %q},\n", o.Name, o.Fault)
	}
	r.WriteString("}\n")
	write("zzmc/r02/results/results.go", r.Bytes())
}
