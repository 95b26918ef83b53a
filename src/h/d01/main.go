// Command d01 model-checks the expectations of package cmdtest on scripted
// children.
package main

import (
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"text/template"
	"time"

	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
	"flychain/zzslice/cmdtest"
	exec "flychain/zzslice/fexec"
	testing "flychain/zzslice/ftesting"
)

// run starts a child and returns the command and the child.
func start(data interface{}, args []string, child func(p *exec.Proc)) (*cmdtest.TestCmd, *testing.T, func() *exec.Proc) {
	t := &testing.T{}
	tt := cmdtest.NewTestCmd(t, data)
	if tt == nil {
		mc.Failf("NewTestCmd gives no command")
	}
	if tt.T != t || !reflect.DeepEqual(tt.Data, data) {
		mc.Failf("NewTestCmd drops an argument")
	}
	var proc *exec.Proc
	up := make(chan struct{})
	exec.Child = func(p *exec.Proc) {
		proc = p
		close(up)
		child(p)
	}
	tt.SetTemplateFunc("up", strings.ToUpper)
	tt.Run("name", args...)
	return tt, t, func() *exec.Proc { <-up; return proc }
}

// fatal runs f and returns the message with which it ended the test.
func fatal(f func()) (msg string, ended bool) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(testing.Fatality)
			if !ok {
				panic(x)
			}
			msg, ended = e.Msg, true
		}
	}()
	f()
	return "", false
}

// match is ExpectRegexp. If it panics with an index or a slice out of range, as on every
// match of the tree that this was written for, which is reported by the
// scenario "a match", it says so.
func match(tt *cmdtest.TestCmd, re string) (r *regexp.Regexp, subs []string, broken bool) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(runtime.Error); !ok || !strings.Contains(e.Error(), "out of range") {
				panic(x)
			}
			broken = true
		}
	}()
	r, subs = tt.ExpectRegexp(re)
	return
}

// constructor: there is a function that makes a command.
func constructor() *mc.Scenario {
	return &mc.Scenario{Name: "the constructor", MaxBound: -1, Straight: true, Idle: true, Body: func() {
		file, _ := runtime.FuncForPC(reflect.ValueOf(cmdtest.NewTestCmd).Pointer()).FileLine(reflect.ValueOf(cmdtest.NewTestCmd).Pointer())
		if strings.HasSuffix(file, "stubs.go") {
			mc.Failf("NewTestCmd has no body or no result, the package does not compile")
		}
	}}
}

// matches: what ExpectRegexp gives for a match without groups.
func matches() *mc.Scenario {
	return &mc.Scenario{Name: "a match", MaxBound: -1, Straight: true, Idle: true, Body: func() {
		tt, _, _ := start(nil, nil, func(p *exec.Proc) { p.Out("a") })
		_, subs, broken := match(tt, "a")
		if broken {
			mc.Failf("ExpectRegexp panics on a match")
		}
		if len(subs) != 1 || subs[0] != "a" {
			mc.Failf("the submatches are %q", subs)
		}
		tt.ExpectExit()
	}}
}

func chunks(s string, cut int) (l []string) {
	from := 0
	for i := 1; i < len(s); i++ {
		if cut&(1<<(i-1)) != 0 {
			l, from = append(l, s[from:i]), i
		}
	}
	return append(l, s[from:])
}

const limit = 5 * time.Second

// A model is what the reference knows about the child.
type model struct {
	tt    *cmdtest.TestCmd
	t     *testing.T
	proc  func() *exec.Proc
	rest  string // output not yet consumed
	loose bool   // more of it may have been consumed
	hangs bool   // the child lives until it is killed
	dead  bool   // the child has been killed
	code  int
	log   []string
	clean int32
}

func (m *model) fail(f string, a ...interface{}) {
	mc.Failf("%v: %s", m.log, fmt.Sprintf(f, a...))
}

func (m *model) cleaned() int32 { return atomic.LoadInt32(&m.clean) }

// timed runs f, which must (not) wait for the limit.
func (m *model) timed(f func(), waits, free bool) (string, bool) {
	before, kills := mc.Now(), m.cleaned()
	msg, ended := fatal(f)
	d := mc.Now().Sub(before)
	if free && d >= limit {
		waits = true
	}
	switch {
	case waits && m.hangs && !m.dead:
		if d != limit {
			m.fail("the child was given %v, not %v", d, limit)
		}
		m.dead = true
		<-m.proc().Done()
		if !m.proc().Killed() {
			m.fail("the child was not killed")
		}
		time.Sleep(time.Millisecond)
		if m.cleaned() == kills {
			m.fail("there was no cleanup after the child was killed")
		}
	case d != 0:
		m.fail("it took %v", d)
	}
	return msg, ended
}

func (m *model) expect(tpl string) (over bool) {
	m.log = append(m.log, fmt.Sprintf("Expect %q", tpl))
	var b strings.Builder
	template.Must(template.New("").Funcs(template.FuncMap{"up": strings.ToUpper}).Parse(tpl)).Execute(&b, m.tt.Data)
	want := strings.TrimPrefix(b.String(), "\n")
	msg, ended := m.timed(func() { m.tt.Expect(tpl) }, len(want) > len(m.rest), false)
	if strings.HasPrefix(m.rest, want) {
		if ended {
			m.fail("the output %q was rejected: %s", m.rest, msg)
		}
		m.rest = m.rest[len(want):]
		return false
	}
	if !ended {
		m.fail("the output %q was accepted", m.rest)
	}
	i := 0
	for i < len(want) && i < len(m.rest) && want[i] == m.rest[i] {
		i++
	}
	if !strings.Contains(msg, "\n"+want[:i]+"◊") {
		m.fail("the output is %q, the message does not mark position %d: %s", m.rest, i, msg)
	}
	if !strings.Contains(strings.ReplaceAll(msg, "◊", ""), want) {
		m.fail("the message does not hold what was expected: %s", msg)
	}
	return true
}

func (m *model) regexp(re string) (over bool) {
	m.log = append(m.log, fmt.Sprintf("ExpectRegexp %q", re))
	r := regexp.MustCompile(strings.TrimPrefix(re, "\n"))
	want := r.FindStringSubmatch(m.rest)
	var got []string
	var gre *regexp.Regexp
	broken := false
	msg, ended := m.timed(func() { gre, got, broken = match(m.tt, re) }, false, true)
	if broken && want != nil {
		return true
	}
	if broken {
		m.fail("ExpectRegexp panics without a match")
	}
	if want == nil {
		if !ended {
			m.fail("the output %q was accepted", m.rest)
		}
		if !strings.Contains(msg, r.String()) {
			m.fail("the message does not hold the expression: %s", msg)
		}
		return true
	}
	if ended {
		m.fail("the output %q was rejected: %s", m.rest, msg)
	}
	if gre == nil || gre.String() != r.String() {
		m.fail("another expression is returned: %v", gre)
	}
	if len(got) != len(want) || strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		m.fail("on %q the submatches are %q, want %q", m.rest, got, want)
	}
	m.rest = m.rest[r.FindStringIndex(m.rest)[1]:]
	m.loose = true
	return false
}

func (m *model) output() {
	m.log = append(m.log, "Output")
	var got []byte
	_, ended := m.timed(func() { got = m.tt.Output() }, true, false)
	if s := string(got); ended || s != m.rest && !(m.loose && strings.HasSuffix(m.rest, s)) {
		m.fail("the output left is %q, want %q", got, m.rest)
	}
	m.rest, m.loose = "", false
}

func (m *model) exit() {
	m.log = append(m.log, "ExpectExit")
	clean := m.cleaned()
	_, ended := m.timed(m.tt.ExpectExit, true, false)
	errs := m.t.Errors()
	switch {
	case ended:
		m.fail("the test ends")
	case m.cleaned() == clean:
		m.fail("there is no cleanup")
	case m.rest == "" && len(errs) > 0:
		m.fail("errors %q", errs)
	case m.rest != "" && !m.loose && (len(errs) != 1 || !strings.HasSuffix(errs[0], "\n"+m.rest)):
		m.fail("the output %q was left, errors %q", m.rest, errs)
	case len(errs) > 1 || len(errs) == 1 && (!strings.Contains(errs[0], "\n") || !strings.HasSuffix(m.rest, errs[0][strings.Index(errs[0], "\n")+1:])):
		m.fail("the output %q was left, errors %q", m.rest, errs)
	}
	code := m.code
	if m.dead {
		code = -1
	}
	if s := m.tt.ExitStatus(); s != code {
		m.fail("the exit status is %d, want %d", s, code)
	}
}

// texts: all outputs, in all chunkings, against all pairs of expectations.
func texts(name string, end int, outs []string, first []func(m *model) bool) *mc.Scenario {
	exps := []string{"", "a", "ab", "\n", "\na", "\n\n", "b\n", "aab", "é", "{{.X}}", `{{up "a"}}b`}
	res := []string{"a", "a+", "(a)(b)?", "^b", "(?s).*\n", "b$", "(a)|(b)", "\né", "x*", "(?:a|b)(a|\n)"}
	var steps []func(m *model) bool
	for _, e := range exps {
		e := e
		steps = append(steps, func(m *model) bool { return m.expect(e) })
	}
	for _, e := range res {
		e := e
		steps = append(steps, func(m *model) bool { return m.regexp(e) })
	}
	steps = append(steps, func(m *model) bool { m.output(); return false })
	return &mc.Scenario{Name: name, MaxBound: -1, Straight: true, Idle: true, Body: func() {
		out := outs[mc.Choose(len(outs))]
		cut := 0
		if len(out) > 1 {
			cut = mc.Choose(1 << (len(out) - 1))
		}
		m := &model{rest: out, hangs: end < 0, code: end}
		if end < 0 {
			m.code = -1
		}
		m.log = []string{fmt.Sprintf("output %q, exit %d", chunks(out, cut), end)}
		m.tt, m.t, m.proc = start(map[string]string{"X": "b"}, []string{"x", "y"}, func(p *exec.Proc) {
			if strings.Join(p.Args, " ") != "name x y" {
				mc.Failf("the child is run with %q", p.Args)
			}
			for _, c := range chunks(out, cut) {
				p.Out(c)
			}
			if end < 0 {
				p.Hang()
			}
			p.Exit(end)
		})
		m.tt.Cleanup = func() { atomic.AddInt32(&m.clean, 1) }
		over := false
		for i := 0; i < 2 && !over; i++ {
			if m.loose {
				break
			}
			over = steps[mc.Choose(len(steps))](m)
		}
		if over || mc.Choose(2) == 1 {
			m.log = append(m.log, "Kill")
			clean := m.cleaned()
			m.tt.Kill()
			m.tt.WaitExit()
			if m.cleaned() == clean {
				m.fail("there is no cleanup after Kill")
			}
			if !m.hangs && m.tt.ExitStatus() != m.code && !m.proc().Killed() {
				m.fail("the exit status is %d, want %d", m.tt.ExitStatus(), m.code)
			}
		} else {
			m.exit()
		}
		mc.Outcome("%v", over)
	}}
}

// large: long outputs in chunks of all sizes.
func large(dense, max int) *mc.Scenario {
	sizes := ref.SizeList(dense, max)
	return &mc.Scenario{Name: fmt.Sprintf("outputs of up to %d bytes", max), MaxBound: -1, Straight: true, Idle: true, Steps: 4000000, Body: func() {
		n := sizes[mc.Choose(len(sizes))]
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "%d,", i)
		}
		out := b.String()[:n]
		size := []int{1 + n/50, 4096, 4095, n + 1}[mc.Choose(4)]
		mode := mc.Choose(4)
		m := &model{rest: out, log: []string{fmt.Sprintf("%d bytes by %d, mode %d", n, size, mode)}}
		m.tt, m.t, m.proc = start(nil, nil, func(p *exec.Proc) {
			for s := out; s != ""; {
				k := size
				if k > len(s) {
					k = len(s)
				}
				p.Out(s[:k])
				s = s[k:]
			}
		})
		m.tt.Cleanup = func() { atomic.AddInt32(&m.clean, 1) }
		short := func(over bool) {
			if over {
				mc.Failf("harness")
			}
		}
		switch mode {
		case 0:
			short(m.expect(out))
		case 1:
			short(m.expect(out[:n/2]))
			short(m.expect(out[n/2:]))
		case 2:
			if n == 0 {
				return
			}
			if !m.expect(out[:n-1] + "!") {
				mc.Failf("harness")
			}
			m.tt.Kill()
			m.tt.WaitExit()
			return
		case 3:
			if m.regexp("(?s)^(.*)$") {
				m.tt.Kill()
				m.tt.WaitExit()
				return
			}
		}
		m.exit()
	}}
}

// timing: the child takes its time.
func timing() *mc.Scenario {
	return &mc.Scenario{Name: "slow children", Idle: true, Body: func() {
		delays := []time.Duration{0, 4 * time.Second, 6 * time.Second}
		d := []time.Duration{delays[mc.Choose(3)], delays[mc.Choose(3)]}
		mode := mc.Choose(3)
		var clean int32
		tt, t, proc := start(nil, nil, func(p *exec.Proc) {
			p.Sleep(d[0])
			p.Out("a")
			p.Sleep(d[1])
			p.Out("b")
		})
		tt.Cleanup = func() { atomic.AddInt32(&clean, 1) }
		began := mc.Now()
		late := func(at time.Duration) bool { return at > limit }
		switch mode {
		case 0: // both at once
			_, ended := fatal(func() { tt.Expect("ab") })
			if ended != late(d[0]+d[1]) {
				mc.Failf("after %v Expect fails: %v", d, ended)
			}
			if took := mc.Now().Sub(began); ended && took != limit || !ended && took != d[0]+d[1] {
				mc.Failf("after %v Expect takes %v", d, took)
			}
			if ended {
				<-proc().Done()
				if !proc().Killed() {
					mc.Failf("the child was not killed")
				}
				return
			}
		case 1: // one after the other: each has its own time
			_, ended := fatal(func() { tt.Expect("a"); tt.Expect("b") })
			if ended != (late(d[0]) || late(d[1])) {
				mc.Failf("after %v one Expect fails: %v", d, ended)
			}
			if ended {
				<-proc().Done()
				if !proc().Killed() {
					mc.Failf("the child was not killed")
				}
				return
			}
		case 2:
			_, ended := fatal(func() { tt.Expect("a"); match(tt, "(.)$") })
			if ended != (late(d[0]) || late(d[1])) {
				mc.Failf("after %v one expectation fails: %v", d, ended)
			}
			if ended {
				return
			}
		}
		tt.ExpectExit()
		time.Sleep(20 * time.Second)
		if proc().Killed() || len(t.Errors()) > 0 || atomic.LoadInt32(&clean) != 1 {
			mc.Failf("after %v the child was killed: %v, errors %q, %d cleanups", d, proc().Killed(), t.Errors(), clean)
		}
		mc.Outcome("%v %d", d, mode)
	}}
}

// rush: the limit may be reached at any moment.
func rush(mode int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprint("the limit at any moment, ", mode), Body: func() {
		tt, t, proc := start(nil, nil, func(p *exec.Proc) {
			p.Err("x\n")
			p.Out("a")
			p.Out("b")
		})
		clean := make(chan bool, 9)
		tt.Cleanup = func() { clean <- true }
		began := mc.Now()
		_, ended := fatal(func() {
			switch mode {
			case 0:
				tt.Expect("ab")
			case 1:
				match(tt, "b")
			case 2:
				tt.Expect("a")
				tt.Output()
			}
		})
		took := mc.Now().Sub(began)
		if !ended {
			tt.ExpectExit()
		} else {
			<-proc().Done()
			clean <- <-clean
			if took < limit || !proc().Killed() {
				mc.Failf("the expectation fails after %v, killed %v", took, proc().Killed())
			}
		}
		if proc().Killed() && mc.Now().Sub(began) < limit {
			mc.Failf("the child was killed after %v", mc.Now().Sub(began))
		}
		if len(clean) == 0 {
			mc.Failf("there was no cleanup")
		}
		if e := t.Errors(); len(e) > 0 && !proc().Killed() {
			mc.Failf("errors %q", e)
		}
		mc.Outcome("%v %v", ended, proc().Killed())
	}}
}

// lives: a child that was in time goes on.
func lives() *mc.Scenario {
	return &mc.Scenario{Name: "long lives", Idle: true, Body: func() {
		tt, _, proc := start(nil, nil, func(p *exec.Proc) {
			p.Out("a")
			p.Sleep(8 * time.Second)
			p.Out("b")
			p.Sleep(3 * time.Second)
			p.Exit(7)
		})
		tt.Expect("a")
		time.Sleep(7 * time.Second)
		if mc.Choose(2) == 0 {
			tt.Expect("b")
		} else {
			match(tt, "b")
		}
		tt.ExpectExit()
		if proc().Killed() || tt.ExitStatus() != 7 {
			mc.Failf("killed %v, status %d", proc().Killed(), tt.ExitStatus())
		}
	}}
}

// stderr: what the child writes on its standard error, read at any time.
func stderr(n int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("standard error, %d writes", n), Idle: true, Body: func() {
		parts := []string{"one\n", "two", "\n\nthree\n"}[:n]
		tt, t, _ := start(nil, nil, func(p *exec.Proc) {
			for i, s := range parts {
				p.Err(s)
				p.Out(fmt.Sprint(i))
			}
		})
		all := strings.Join(parts, "")
		var seen []string
		mc.Par(func() {
			for i := 0; i < 2; i++ {
				seen = append(seen, tt.StderrText())
			}
		}, func() {
			tt.Expect("0")
			if s := tt.StderrText(); !strings.HasPrefix(s, parts[0]) {
				mc.Failf("the error text %q was written before the output that has been read, StderrText is %q", parts[0], s)
			}
			tt.Output()
			tt.ExpectExit()
			if s := tt.StderrText(); s != all {
				mc.Failf("StderrText is %q after the end, want %q", s, all)
			}
		})
		prev := ""
		for _, s := range append(seen, all) {
			if !strings.HasPrefix(s, prev) {
				mc.Failf("StderrText goes from %q to %q", prev, s)
			}
			prev = s
		}
		logs := strings.Join(t.Logs(), "\n")
		for _, l := range strings.Fields(strings.Join(parts, "")) {
			if !strings.Contains(logs, " "+l) && l != "" {
				mc.Failf("the line %q of the standard error is not logged: %q", l, logs)
			}
		}
		mc.Outcome("%q", seen)
	}}
}

// dialogue: the child answers every line of its input.
func dialogue(lines []string, reader bool) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("dialogue of %d lines, template %v", len(lines), reader), Idle: true, Body: func() {
		var heard []string
		tt, _, proc := start(nil, nil, func(p *exec.Proc) {
			for {
				p.Out("> ")
				l, ok := p.Line()
				if !ok {
					if l != "" {
						p.Out("rest " + l)
					}
					break
				}
				heard = append(heard, l)
				p.Out("got " + l + "\n")
			}
			p.Out("bye")
			p.Exit(len(heard))
		})
		if reader {
			tt.SetTemplateFunc("InputLine", tt.InputLine)
		}
		for _, l := range lines {
			if reader {
				tt.Expect("> {{InputLine " + fmt.Sprintf("%q", l) + "}}got " + l + "\n")
			} else {
				if s := tt.InputLine(l); s != "" {
					mc.Failf("InputLine returns %q", s)
				}
			}
		}
		tt.CloseStdin()
		if !reader {
			for _, l := range lines {
				tt.Expect("> got " + l + "\n")
			}
		}
		tt.Expect("> bye")
		tt.ExpectExit()
		if strings.Join(heard, "|") != strings.Join(lines, "|") || proc().Killed() {
			mc.Failf("the child heard %q, want %q", heard, lines)
		}
		if tt.ExitStatus() != len(lines) {
			mc.Failf("the exit status is %d, want %d", tt.ExitStatus(), len(lines))
		}
	}}
}

// interrupt: signals reach the child.
func interrupt() *mc.Scenario {
	return &mc.Scenario{Name: "interrupt", Idle: true, Body: func() {
		tt, _, _ := start(nil, nil, func(p *exec.Proc) {
			p.Out("up")
			s := p.Signal()
			p.Out(s.String())
			p.Exit(4)
		})
		mc.Par(func() { tt.Expect("upinterrupt") }, tt.Interrupt)
		tt.ExpectExit()
		if tt.ExitStatus() != 4 {
			mc.Failf("the exit status is %d", tt.ExitStatus())
		}
	}}
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var outs []string
		n := 3
		if thorough {
			n = 5
		}
		level := []string{""}
		for i := 0; i <= n; i++ {
			outs = append(outs, level...)
			var next []string
			for _, s := range level {
				for _, c := range []string{"a", "b", "\n"} {
					next = append(next, s+c)
				}
			}
			level = next
		}
		outs = append(outs, "aab", "abb", "ab\n", "b\na", "é", "aé", "éa", "Ab", "bAb", "aaaa")
		out := []*mc.Scenario{constructor(), matches(), timing(), lives(), interrupt(), stderr(1), stderr(2), stderr(3), rush(0), rush(1), rush(2)}
		for _, e := range []int{0, 3, -1} {
			out = append(out, texts(fmt.Sprintf("outputs to %d characters, exit %d", n, e), e, outs, nil))
		}
		out = append(out, dialogue([]string{"x"}, false), dialogue([]string{"x", "", "z z"}, false), dialogue([]string{"x", "y"}, true))
		if thorough {
			out = append(out, large(50, 300000))
		} else {
			out = append(out, large(20, 20000))
		}
		return out
	})
}
