// J01: structured file and compiler output parsing.
package main

import (
	"encoding/json"
	"flychain/common"
	"flychain/common/compiler"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

var dir string

func tmp(c *enum.C) string {
	if dir == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "j01-")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	return filepath.Join(dir, "f.json")
}

var lineRe = regexp.MustCompile(`f\.json:(\d+)`)

func load(c *enum.C, content string) {
	f := tmp(c)
	if err := os.WriteFile(f, []byte(content), 0600); err != nil {
		panic(err)
	}
	c.Step(3)
	targets := []func() interface{}{
		func() interface{} { var x interface{}; return &x },
		func() interface{} { return &map[string]int{"old": 1} },
		func() interface{} { return &struct{ A, B int }{5, 6} },
	}
	for _, mk := range targets {
		a, b := mk(), mk()
		werr := json.Unmarshal([]byte(content), b)
		err := common.LoadJSON(f, a)
		c.Check((err == nil) == (werr == nil), "LoadJSON: %v, decoding the content: %v", err, werr)
		c.Check(reflect.DeepEqual(a, b), "LoadJSON = %v, decoding the content gives %v", a, b)
		if werr == nil {
			c.State("ok")
			continue
		}
		se, ok := werr.(*json.SyntaxError)
		m := lineRe.FindStringSubmatch(err.Error())
		if !ok {
			c.State("type error")
			c.Check(m == nil, "a type error is reported with a line: %v", err)
			continue
		}
		c.Check(m != nil, "no line in %q", err)
		line, _ := strconv.Atoi(m[1])
		// the offending byte is the last one read
		lo := 1 + strings.Count(content[:max(0, int(se.Offset)-1)], "\n")
		hi := 1 + strings.Count(content[:min(len(content), int(se.Offset))], "\n")
		c.State("syntax", line, se.Error())
		c.Check(line >= lo && line <= hi, "error %q reported in line %d, want %d", se, line, lo)
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// contract is one abstract contract of the compiler output.
type contract struct {
	bin, rt, smap, smaprt, meta string
	abi, user, dev              string // JSON texts
	hashes                      map[string]string
}

func render(cs map[string]contract, v8 bool, omit string) string {
	m := map[string]interface{}{}
	for n, x := range cs {
		e := map[string]interface{}{"bin": x.bin, "bin-runtime": x.rt, "srcmap": x.smap, "srcmap-runtime": x.smaprt, "metadata": x.meta}
		if x.hashes != nil {
			e["hashes"] = x.hashes
		}
		if v8 {
			e["abi"], e["userdoc"], e["devdoc"] = json.RawMessage(x.abi), json.RawMessage(x.user), json.RawMessage(x.dev)
		} else {
			e["abi"], e["userdoc"], e["devdoc"] = x.abi, x.user, x.dev
		}
		delete(e, omit)
		m[n] = e
	}
	b, err := json.Marshal(map[string]interface{}{"contracts": m, "version": "0.x"})
	if err != nil {
		panic(err)
	}
	return string(b)
}

func parsed(s string) interface{} {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return nil
	}
	return v
}

func expect(cs map[string]contract, p [4]string, omit string) map[string]*compiler.Contract {
	out := map[string]*compiler.Contract{}
	for n, x := range cs {
		switch omit {
		case "bin":
			x.bin = ""
		case "bin-runtime":
			x.rt = ""
		case "srcmap":
			x.smap = ""
		case "srcmap-runtime":
			x.smaprt = ""
		case "metadata":
			x.meta = ""
		case "hashes":
			x.hashes = nil
		}
		out[n] = &compiler.Contract{Code: "0x" + x.bin, RuntimeCode: "0x" + x.rt, Hashes: x.hashes, Info: compiler.ContractInfo{
			Source: p[0], Language: "Solidity", LanguageVersion: p[1], CompilerVersion: p[2], CompilerOptions: p[3],
			SrcMap: x.smap, SrcMapRuntime: x.smaprt, AbiDefinition: parsed(x.abi), UserDoc: parsed(x.user), DeveloperDoc: parsed(x.dev), Metadata: x.meta}}
	}
	return out
}

func solc(c *enum.C, cs map[string]contract, v8 bool, omit string, docsOK bool) {
	solcWith(c, cs, v8, omit, docsOK, [4]string{"SRC", "LV", "CV", "CO"})
}

func solcWith(c *enum.C, cs map[string]contract, v8 bool, omit string, docsOK bool, p [4]string) {
	c.Step(1)
	in := render(cs, v8, omit)
	got, err := compiler.ParseCombinedJSON([]byte(in), p[0], p[1], p[2], p[3])
	c.State(in)
	if !docsOK && len(cs) > 0 {
		c.Check(err != nil, "accepted although an embedded document is malformed: %s", in)
		return
	}
	c.Check(err == nil, "%s: %v", in, err)
	want := expect(cs, p, omit)
	c.Check(reflect.DeepEqual(got, want), "%s\n parses to %s\n want %s", in, js(got), js(want))
	if v8 {
		got, err = compiler.ParseCombinedJSONV8([]byte(in), p[0], p[1], p[2], p[3])
		c.Check(err == nil && reflect.DeepEqual(got, want), "V8: %s\n parses to %s, %v", in, js(got), err)
	}
}

func js(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func mkc(i int) contract {
	return contract{fmt.Sprintf("60%02x", i), fmt.Sprintf("61%02x", i), fmt.Sprintf("s:%d", i), fmt.Sprintf("r:%d", i), fmt.Sprintf("{\"m\":%d}", i),
		fmt.Sprintf(`[{"type":"function","name":"f%d","inputs":[]}]`, i), fmt.Sprintf(`{"methods":{"u%d":1}}`, i), fmt.Sprintf(`{"methods":{"d%d":null}}`, i), map[string]string{fmt.Sprintf("f%d()", i): fmt.Sprintf("%08x", i)}}
}

func main() {
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
		}
	}()
	enum.Main(
		own.Section("J01"),
		enum.Section{Name: "load", Shards: 6, Run: func(c *enum.C) {
			toks := []string{"\n", "{", "}", "[", "]", `"A"`, ":", ",", "1", "x", "é", "\"", " ", "null"}
			n := c.Pick(4, 5)
			c.Bound("every sequence of <= %d tokens out of %d as file content, 3 targets", n, len(toks))
			ref.Strings(toks, n, func(s string) {
				if c.Mine() {
					c.Case(func() { load(c, s) }, "%q", s)
				}
			})
		}},
		enum.Section{Name: "values", Run: func(c *enum.C) {
			odd := []string{"", "0x", "0x6060", "0X60", "x", "__Lib.sol:L____", "__$aBc$__", "60 60", "\n", "é\u2028", "<&>", "null", "{}", "[]", "\"", "\\", "0", "0.8.0", " ", "Vyper", strings.Repeat("60", 600)}
			c.Bound("each of %d texts as the value of every string field, parameter, contract name, hash and hash name, both layouts, one and two at a time", len(odd))
			for _, v8 := range []bool{false, true} {
				for i, a := range odd {
					for j, b := range odd {
						for f := 0; f < 7; f++ {
							c.Case(func() {
								x, p, name := mkc(1), [4]string{"SRC", "LV", "CV", "CO"}, "f.sol:C"
								one := func(f int, v string) {
									switch f % 7 {
									case 6:
										x.hashes = map[string]string{v: a, "f()": v}
									case 5:
										name = v
									default:
										*[]*string{&x.bin, &x.rt, &x.smap, &x.smaprt, &x.meta}[f%7] = v
									}
								}
								one(f, a)
								one(f+1, b)
								p[f%4], p[(f+1)%4] = b, a
								solcWith(c, map[string]contract{name: x, "other": mkc(2)}, v8, "-", true, p)
								solcWith(c, map[string]contract{name: x, "other": x}, v8, "-", true, [4]string{a, a, b, b})
							}, "v8=%v fields %d: %d %d", v8, f, i, j)
						}
					}
				}
			}
		}},
		enum.Section{Name: "encodings", Run: func(c *enum.C) {
			frames := []string{"\ufeff", "\ufffe", "\xff\xfe", "\xfe\xff", "\x00", "\xef\xbb", "\x1f\x8b", "// a\n", "/* a */", "#\n", "\u00a0", "\v", "\f", "\r", "\u2028", "\u0085", "\x1a", "\xc3", "\xc0\x8a", "\xed\xa0\x80", "\t"}
			docs := []string{"", "{\"A\": 1}", "{\n\"A\": 1,\n\"B\": 2\n}\n", "[\n1,\n2", "\"a\nb\"", "{\n\"A\" 1}"}
			c.Bound("%d marks, invalid UTF-8, comments and odd white space before, within and after %d documents, up to two of them", len(frames), len(docs))
			for _, d := range docs {
				for _, f := range frames {
					for _, g := range append([]string{""}, frames...) {
						for i := 0; i <= len(d); i++ {
							s := f + d[:i] + g + d[i:]
							c.Case(func() { load(c, s) }, "%q", s)
							s = d[:i] + f + d[i:] + g
							c.Case(func() { load(c, s) }, "%q", s)
						}
					}
				}
			}
		}},
		enum.Section{Name: "lines", Run: func(c *enum.C) {
			c.Bound("a valid multi-line document of 30 lines with one corruption at every byte, LF and CRLF, ASCII and multi-byte text before the error")
			for _, nl := range []string{"\n", "\r\n", "\n\n"} {
				for _, txt := range []string{"v", "日本", "é\u2028"} {
					doc := "{" + nl
					for i := 0; i < 10; i++ {
						doc += fmt.Sprintf("  \"k%d\": [%d, \"%s\"],%s", i, i, txt, nl)
					}
					doc += "  \"A\": 1" + nl + "}" + nl
					c.Case(func() { load(c, doc) }, "valid %q", doc)
					for i := range doc {
						for _, bad := range []string{"!", "\n", ""} {
							s := doc[:i] + bad + doc[i+1:]
							c.Case(func() { load(c, s) }, "%q", s)
						}
						s := doc[:i]
						c.Case(func() { load(c, s) }, "%q", s)
					}
				}
			}
		}},
		enum.Section{Name: "huge", Shards: 4, Run: func(c *enum.C) {
			dense, max := c.Pick(300, 1200), c.Pick(1<<14, 1<<17)
			c.Bound("0..%d lines, and the numbers of lines around every power of two and of ten up to %d, before the error; lines as long; as many list elements", dense, max)
			ref.Sizes(dense, max, func(n int) {
				if !c.Mine() {
					return
				}
				c.Case(func() { load(c, "["+strings.Repeat("\n", n)+"x]") }, "%d empty lines, then an error", n)
				c.Case(func() { load(c, "["+strings.Repeat(" 1,\n", n)+"\"A\" 1]\n") }, "%d lines, then an error", n)
				c.Case(func() { load(c, "[\""+strings.Repeat("é", n)+"\",\n\""+strings.Repeat("y", n)+"\",\n}]") }, "lines of %d characters, then an error", n)
				c.Case(func() { load(c, "["+strings.Repeat("1,", n)+"1]") }, "%d elements", n)
				if n > 5000 && !c.Thorough() {
					return
				}
				for _, v8 := range []bool{false, true} {
					v8 := v8
					c.Case(func() {
						x := mkc(1)
						for _, s := range []*string{&x.bin, &x.rt, &x.smap, &x.smaprt, &x.meta} {
							*s = strings.Repeat(*s, n)
						}
						x.abi = "[" + strings.Repeat(x.abi+",", n) + "1]"
						x.hashes = map[string]string{}
						for i := 0; i < n; i++ {
							x.hashes[fmt.Sprintf("f%d()", i)] = fmt.Sprintf("%08x", i)
						}
						solc(c, map[string]contract{"f.sol:C": x}, v8, "-", true)
					}, "a contract with %d fold content v8=%v", n, v8)
					if n <= 300 {
						c.Case(func() {
							cs := map[string]contract{}
							for i := 0; i < n; i++ {
								cs[fmt.Sprintf("f%d.sol:C%d", i, i)] = mkc(i)
							}
							solc(c, cs, v8, "-", true)
						}, "%d contracts v8=%v", n, v8)
					}
				}
			})
		}},
		enum.Section{Name: "missing", Run: func(c *enum.C) {
			c.Bound("missing file, missing directory, directory, no permission to matter as root")
			c.Case(func() {
				c.Step(3)
				c.State("missing")
				base := filepath.Dir(tmp(c))
				var v interface{} = "untouched"
				for _, p := range []string{"nope.json", "no/such/dir.json"} {
					err := common.LoadJSON(filepath.Join(base, p), &v)
					c.Check(err != nil && os.IsNotExist(err), "missing file: %v", err)
				}
				err := common.LoadJSON(base, &v)
				c.Check(err != nil, "directory: %v", err)
				c.Check(v == "untouched", "target changed to %v", v)
			}, "missing")
		}},
		enum.Section{Name: "solc", Run: func(c *enum.C) {
			c.Bound("0..3 contracts, both layouts, every field omitted in turn, every embedded document malformed in 8 ways, document kinds: object, list, string, number, null, nested")
			docs := []string{"{}", "[]", `"text"`, "7", "null", `{"a":{"b":[1,2,{"c":null}]}}`, `[true,"é\n"]`}
			bad := []string{"", "{", "[1,", "x", "{}{}", "{'a':1}", "nul", "[1] x"}
			for n := 0; n <= 3; n++ {
				cs := map[string]contract{}
				for i := 0; i < n; i++ {
					cs[fmt.Sprintf("f%d.sol:C%d", i, i)] = mkc(i)
				}
				for _, v8 := range []bool{false, true} {
					for _, omit := range []string{"-", "bin", "bin-runtime", "srcmap", "srcmap-runtime", "metadata", "hashes"} {
						cs, v8, omit := cs, v8, omit
						c.Case(func() { solc(c, cs, v8, omit, true) }, "%d contracts v8=%v without %s", n, v8, omit)
					}
					if n == 0 {
						continue
					}
					for f := 0; f < 3; f++ {
						for _, omit := range []string{"abi", "userdoc", "devdoc"} {
							if !v8 {
								cs, omit := cs, omit
								c.Case(func() { solc(c, cs, false, omit, false) }, "%d contracts without %s", n, omit)
							}
						}
						set := func(doc string) map[string]contract {
							m := map[string]contract{}
							for k, x := range cs {
								m[k] = x
							}
							k := fmt.Sprintf("f%d.sol:C%d", n-1, n-1)
							x := m[k]
							*[]*string{&x.abi, &x.user, &x.dev}[f] = doc
							m[k] = x
							return m
						}
						for _, d := range docs {
							if v8 && d == `"text"` {
								// all three documents must be strings for the old layout; one alone stays new
							}
							m, v8, d := set(d), v8, d
							c.Case(func() { solc(c, m, v8, "-", true) }, "%d contracts v8=%v field %d = %s", n, v8, f, d)
						}
						if !v8 {
							for _, d := range bad {
								m, d := set(d), d
								c.Case(func() { solc(c, m, false, "-", false) }, "%d contracts field %d malformed %s", n, f, d)
							}
						}
					}
				}
			}
			for _, raw := range []string{"", "{", "null", "[]", "1", `{"contracts":[]}`, `{"contracts":{"a":1}}`, `{"contracts":{"a":{"bin":1}}}`, `{"contracts":{"a":{"bin":"x","hashes":{"f":1}}}}`, `{}`, `{"version":"1"}`} {
				raw := raw
				c.Case(func() {
					c.Step(1)
					got, err := compiler.ParseCombinedJSON([]byte(raw), "", "", "", "")
					ok := raw == "{}" || raw == "null" || strings.HasPrefix(raw, `{"version`)
					c.Check((err == nil) == ok, "%s: %v", raw, err)
					c.Check(!ok || len(got) == 0, "%s: %v", raw, js(got))
					c.Check(ok || got == nil, "an error comes with contracts: %v", js(got))
				}, "raw %s", raw)
			}
		}},
	)
}
