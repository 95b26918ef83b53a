// L07: handlers that write to files, connections and a syslog daemon.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log/syslog"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"flychain/log"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
)

var dir string

func scratch(name string) string { return filepath.Join(dir, name) }

func record(lvl log.Lvl, msg string, ctx ...interface{}) *log.Record {
	return &log.Record{Time: time.Unix(1700000000, 0).UTC(), Lvl: lvl, Msg: msg, Ctx: ctx,
		KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
}

type format struct {
	name string
	f    func() log.Format
}

var formats = []format{
	{"logfmt", log.LogfmtFormat},
	{"json", log.JSONFormat},
	{"terminal", func() log.Format { return log.TerminalFormat(false) }},
	{"raw", func() log.Format { return log.FormatFunc(func(r *log.Record) []byte { return []byte(r.Msg) }) }},
}

// ---- files ----

// An inode is a file of the model. Handlers keep it when the name is gone.
type inode struct {
	data []byte
	mode fs.FileMode
}

type files struct {
	c     *enum.C
	names [2]string
	at    [2]*inode // by name, nil if there is none
	hs    []log.Handler
	to    []*inode
	n     int
	log   []string
	f     format
	ref   []log.Format
}

func (s *files) open(k int) {
	if len(s.hs) == 3 {
		return
	}
	h, err := log.FileHandler(s.names[k], s.f.f())
	s.c.Check(err == nil && h != nil, "%v: FileHandler: %v", s.log, err)
	if s.at[k] == nil {
		s.at[k] = &inode{mode: 0644}
	}
	s.hs, s.to = append(s.hs, h), append(s.to, s.at[k])
	s.ref = append(s.ref, s.f.f())
}

func (s *files) write(i int) {
	if i >= len(s.hs) {
		return
	}
	s.n++
	lvl := log.Lvl(s.n % 6)
	msg := fmt.Sprintf("record %d", s.n)
	err := s.hs[i].Log(record(lvl, msg, "k", log.Lazy{Fn: func() int { return s.n }}))
	s.c.Check(err == nil, "%v: Log fails: %v", s.log, err)
	s.to[i].data = append(s.to[i].data, s.ref[i].Format(record(lvl, msg, "k", s.n))...)
}

func (s *files) other(k int) { // somebody else appends to the file
	f, err := os.OpenFile(s.names[k], os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		panic(err)
	}
	f.Write([]byte("other\n"))
	f.Close()
	if s.at[k] == nil {
		s.at[k] = &inode{mode: 0600}
	}
	s.at[k].data = append(s.at[k].data, "other\n"...)
}

func (s *files) cut(k int) {
	if s.at[k] == nil {
		return
	}
	if err := os.Truncate(s.names[k], 0); err != nil {
		panic(err)
	}
	s.at[k].data = nil
}

func (s *files) remove(k int) {
	os.Remove(s.names[k])
	s.at[k] = nil
}

func (s *files) check() {
	for k, p := range s.names {
		got, err := os.ReadFile(p)
		if s.at[k] == nil {
			s.c.Check(errors.Is(err, fs.ErrNotExist), "%v: file %d exists with %q", s.log, k, got)
			continue
		}
		s.c.Check(err == nil && bytes.Equal(got, s.at[k].data), "%v: file %d holds %q (%v), want %q", s.log, k, got, err, s.at[k].data)
		st, err := os.Stat(p)
		s.c.Check(err == nil && st.Mode() == s.at[k].mode, "%v: file %d has mode %v, want %v", s.log, k, st.Mode(), s.at[k].mode)
	}
}

func (s *files) close() {
	for k := range s.names {
		os.Remove(s.names[k])
	}
	release(s.hs...)
	s.hs = nil
}

// release closes what handlers left open, if it can be found, since they
// cannot be closed. What cannot be found is collected now and then.
func release(hs ...log.Handler) {
	for _, h := range hs {
		v := reflect.ValueOf(h)
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			continue
		}
		if f := v.FieldByName("WriteCloser"); f.IsValid() && f.CanInterface() {
			if x, ok := f.Interface().(io.Closer); ok {
				x.Close()
			}
		}
	}
	if released++; released%100 == 0 {
		runtime.GC()
	}
}

var released int

func fileHistories(c *enum.C) {
	type op struct {
		name string
		f    func(s *files)
	}
	ops := []op{
		{"open 0", func(s *files) { s.open(0) }},
		{"open 1", func(s *files) { s.open(1) }},
		{"log by 0", func(s *files) { s.write(0) }},
		{"log by 1", func(s *files) { s.write(1) }},
		{"log by 2", func(s *files) { s.write(2) }},
		{"append to 0", func(s *files) { s.other(0) }},
		{"truncate 0", func(s *files) { s.cut(0) }},
		{"remove 0", func(s *files) { s.remove(0) }},
	}
	depth := c.Pick(6, 7)
	c.Bound("all histories of %d operations out of %d on two paths with up to three file handlers", depth, len(ops))
	idx := make([]int, depth)
	var rec func(p int)
	rec = func(p int) {
		if p == 2 && !c.Mine() {
			return
		}
		if p < depth {
			for k := range ops {
				idx[p] = k
				rec(p + 1)
			}
			return
		}
		c.Case(func() {
			s := &files{c: c, f: formats[(idx[0]+idx[1]+idx[2])%2], names: [2]string{scratch(fmt.Sprint("a", os.Getpid())), scratch(fmt.Sprint("b", os.Getpid()))}}
			defer s.close()
			for _, k := range idx {
				s.log = append(s.log, ops[k].name)
				c.Step(1)
				ops[k].f(s)
				s.check()
			}
			c.State(idx[:3])
		}, "%v", idx)
	}
	rec(0)
}

func fileLarge(c *enum.C) {
	max := c.Pick(1<<18, 1<<22)
	c.Bound("one record of every size to 300 and of the sizes around the powers of 2 and 10 up to %d, with others before and after", max)
	for _, n := range ref.SizeList(300, max) {
		if !c.Mine() {
			continue
		}
		c.Case(func() {
			p := scratch(fmt.Sprint("large", os.Getpid()))
			defer os.Remove(p)
			var want []byte
			h, err := log.FileHandler(p, formats[3].f())
			c.Check(err == nil, "FileHandler: %v", err)
			defer release(h)
			for _, m := range []string{"a\n", strings.Repeat("x", n), "\n", strings.Repeat("yz", n/2)} {
				err := h.Log(record(3, m))
				c.Check(err == nil, "Log: %v", err)
				want = append(want, m...)
				got, _ := os.ReadFile(p)
				c.Check(bytes.Equal(got, want), "after a record of %d bytes the file has %d bytes, want %d", len(m), len(got), len(want))
				c.Step(1)
			}
			c.State(n)
		}, "%d", n)
	}
}

func failures(c *enum.C) {
	file := scratch("plain")
	os.WriteFile(file, []byte("x"), 0600)
	sock := scratch("nobody.sock")
	bad := []struct {
		name string
		open func() (log.Handler, error)
		must func() log.Handler
	}{}
	add := func(name string, o func() (log.Handler, error), m func() log.Handler) {
		bad = append(bad, struct {
			name string
			open func() (log.Handler, error)
			must func() log.Handler
		}{name, o, m})
	}
	f := log.LogfmtFormat()
	for k, p := range []string{dir, scratch("missing/file"), scratch("plain/file"), scratch("zero\x00byte"), ""} {
		p := p
		add(fmt.Sprint("file ", k), func() (log.Handler, error) { return log.FileHandler(p, f) }, func() log.Handler { return log.Must.FileHandler(p, f) })
	}
	for k, a := range [][2]string{{"unix", sock}, {"unixgram", sock}, {"tcp", "127.0.0.1:1"}, {"nonet", "x"}, {"tcp", "127.0.0.1:99999999"}} {
		a := a
		add(fmt.Sprint("net ", k), func() (log.Handler, error) { return log.NetHandler(a[0], a[1], f) }, func() log.Handler { return log.Must.NetHandler(a[0], a[1], f) })
		add(fmt.Sprint("syslog ", k), func() (log.Handler, error) {
			return log.SyslogNetHandler(a[0], a[1], syslog.LOG_USER, "t", f)
		}, func() log.Handler { return log.Must.SyslogNetHandler(a[0], a[1], syslog.LOG_USER, "t", f) })
	}
	add("syslog priority", func() (log.Handler, error) { return log.SyslogHandler(syslog.Priority(1<<20), "t", f) }, func() log.Handler { return log.Must.SyslogHandler(syslog.Priority(1<<20), "t", f) })
	c.Bound("%d targets that cannot be opened", len(bad))
	for i, b := range bad {
		c.Case(func() {
			c.Step(2)
			h, err := b.open()
			c.Check(err != nil, "no error")
			c.Check(h == nil, "a handler comes with the error %v", err)
			var got interface{}
			p, _ := enum.Panics(func() {
				defer func() { got = recover(); panic(got) }()
				b.must()
			})
			c.Check(p, "Must does not panic")
			e, ok := got.(error)
			c.Check(ok && e != nil, "Must panics with %v", got)
			c.State(i)
		}, "%s", b.name)
	}
	// a full device: every record is refused
	c.Case(func() {
		if _, err := os.Stat("/dev/full"); err != nil {
			return
		}
		for _, f := range formats {
			h, err := log.FileHandler("/dev/full", f.f())
			c.Check(err == nil, "FileHandler: %v", err)
			for i := 0; i < 3; i++ {
				c.Step(1)
				err := h.Log(record(3, "m"))
				c.Check(errors.Is(err, syscall.ENOSPC), "on a full device Log returns %v", err)
			}
		}
		// as part of other handlers
		h := log.Must.FileHandler("/dev/full", log.LogfmtFormat())
		n := 0
		good := log.FuncHandler(func(r *log.Record) error { n++; return nil })
		err := log.FailoverHandler(h, good).Log(record(3, "m"))
		c.Check(err == nil && n == 1, "failover from a full device: %v, %d", err, n)
	}, "full device")
	for _, f := range formats {
		c.Case(func() {
			c.Step(1)
			p := scratch("must")
			log.Must.FileHandler(p, f.f()).Log(record(2, "m"))
			got, err := os.ReadFile(p)
			c.Check(err == nil && string(got) == string(f.f().Format(record(2, "m"))), "Must.FileHandler wrote %q %v", got, err)
			os.Remove(p)
		}, "must %s", f.name)
	}
}

// ---- the end of the process ----

var ends = []string{"return", "exit", "kill", "panic", "crit", "root crit", "abandoned goroutine"}

// child logs n records to a file and ends.
func child(spec string) {
	var end, n, fi int
	fmt.Sscanf(spec, "%d %d %d", &end, &n, &fi)
	p := os.Getenv("L07_FILE")
	l := log.Root()
	if ends[end] == "crit" {
		l = log.New("a", 1)
	}
	l.SetHandler(log.Must.FileHandler(p, formats[fi].f()))
	for i := 0; i < n; i++ {
		l.Info(fmt.Sprintf("m%d.", i))
	}
	switch ends[end] {
	case "exit":
		os.Exit(3)
	case "kill":
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	case "panic":
		panic("over")
	case "crit", "root crit":
		if ends[end] == "crit" {
			l.Crit(fmt.Sprintf("m%d.", n))
		}
		log.Crit(fmt.Sprintf("m%d.", n))
		os.Exit(9)
	case "abandoned goroutine":
		done := make(chan bool)
		go func() {
			l.Info(fmt.Sprintf("m%d.", n))
			close(done)
			select {}
		}()
		<-done
	}
	os.Exit(0)
}

func crashes(c *enum.C) {
	max := c.Pick(3, 20)
	c.Bound("0..%d records written by a process that ends in one of %d ways right after the last", max, len(ends))
	for e := range ends {
		for n := 0; n <= max; n++ {
			for fi := range formats[:3] {
				if !c.Mine() {
					continue
				}
				c.Case(func() {
					c.Step(n + 1)
					p := scratch(fmt.Sprintf("crash-%d-%d-%d", e, n, fi))
					defer os.Remove(p)
					os.WriteFile(p, []byte("before\n"), 0644)
					cmd := exec.Command("/proc/self/exe")
					cmd.Env = append(os.Environ(), fmt.Sprintf("L07_CHILD=%d %d %d", e, n, fi), "L07_FILE="+p)
					err := cmd.Run()
					want := n
					code := 0
					switch ends[e] {
					case "exit":
						code = 3
					case "kill":
						code = -1
					case "panic":
						code = 2
					case "crit", "root crit":
						code, want = 1, n+1
					case "abandoned goroutine":
						want = n + 1
					}
					c.Check(cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == code, "the process ends with %v, want %d", err, code)
					b, _ := os.ReadFile(p)
					lines := strings.SplitAfter(string(b), "\n")
					c.Check(lines[0] == "before\n" && lines[len(lines)-1] == "", "the file begins or ends badly: %q", b)
					lines = lines[1 : len(lines)-1]
					c.Check(len(lines) == want, "%d records are in the file, want %d: %q", len(lines), want, b)
					for i, l := range lines {
						c.Check(i >= want || strings.Contains(l, fmt.Sprintf("m%d.", i)), "line %d is %q", i, l)
					}
					c.State(e, n)
				}, "%s after %d, %s", ends[e], n, formats[fi].name)
			}
		}
	}
}

// ---- connections ----

type peer struct {
	c    *enum.C
	ln   net.Listener
	pc   net.PacketConn
	path string
}

func listen(c *enum.C, network, name string) *peer {
	p := &peer{c: c}
	addr := "127.0.0.1:0"
	if strings.HasPrefix(network, "unix") {
		addr = scratch(fmt.Sprintf("%s%d.sock", name, os.Getpid()))
		os.Remove(addr)
	}
	var err error
	if network == "unixgram" || network == "udp" {
		if p.pc, err = net.ListenPacket(network, addr); err == nil {
			p.path = p.pc.LocalAddr().String()
		}
	} else {
		if p.ln, err = net.Listen(network, addr); err == nil {
			p.path = p.ln.Addr().String()
		}
	}
	if err != nil {
		panic(err)
	}
	return p
}

func (p *peer) close() {
	if p.ln != nil {
		p.ln.Close()
	} else {
		p.pc.Close()
	}
	if strings.HasPrefix(p.path, "/") {
		os.Remove(p.path)
	}
}

// surplus reads what is there without waiting.
func surplus(x interface{}) (got string) {
	rc, err := x.(syscall.Conn).SyscallConn()
	if err != nil {
		return ""
	}
	rc.Control(func(fd uintptr) {
		b := make([]byte, 1000)
		n, _, err := syscall.Recvfrom(int(fd), b, syscall.MSG_DONTWAIT)
		if err == nil && n > 0 {
			got = string(b[:n])
		}
	})
	return
}

// expect reads len(want) bytes from a stream, or one packet.
func (p *peer) expect(conn net.Conn, want string, log interface{}) {
	var got []byte
	var x interface{} = conn
	limit := time.Now().Add(5 * time.Second)
	if p.pc != nil {
		x = p.pc
		b := make([]byte, 1<<17)
		p.pc.SetReadDeadline(limit)
		n, _, err := p.pc.ReadFrom(b)
		p.c.Check(err == nil, "%v: nothing arrives: %v", log, err)
		got = b[:n]
	} else {
		conn.SetReadDeadline(limit)
		b := make([]byte, len(want))
		n := 0
		for n < len(b) {
			k, err := conn.Read(b[n:])
			n += k
			if err != nil {
				break
			}
		}
		got = b[:n]
	}
	p.c.Check(string(got) == want, "%v: %q arrives, want %q", log, clip(string(got)), clip(want))
	s := surplus(x)
	p.c.Check(s == "", "%v: %q arrives besides", log, s)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("… (%d)", len(s))
	}
	return s
}

func netHistories(c *enum.C) {
	ops := []string{"open", "log 0", "log 1", "big 0", "gone 0"}
	depth := c.Pick(6, 7)
	c.Bound("all histories of %d operations out of %d with two connections, over unix, unixgram, tcp and udp", depth, len(ops))
	idx := make([]int, depth)
	for ni, network := range []string{"unix", "unixgram", "tcp", "udp"} {
		var rec func(p int)
		rec = func(p int) {
			if p == 2 && !c.Mine() {
				return
			}
			if p < depth {
				for k := range ops {
					idx[p] = k
					rec(p + 1)
				}
				return
			}
			if idx[0] != 0 {
				return
			}
			c.Case(func() {
				var l []string
				p := listen(c, network, "net")
				defer p.close()
				var hs []log.Handler
				var conns []net.Conn
				gone := false
				f := formats[(idx[0]+idx[1])%2]
				defer func() {
					for _, x := range conns {
						if x != nil {
							x.Close()
						}
					}
					release(hs...)
				}()
				for n, k := range idx {
					l = append(l, ops[k])
					c.Step(1)
					switch o := ops[k]; o {
					case "open":
						if len(hs) == 2 {
							continue
						}
						h, err := log.NetHandler(network, p.path, f.f())
						c.Check(err == nil && h != nil, "%v: NetHandler: %v", l, err)
						if h == nil {
							return
						}
						hs = append(hs, h)
						var conn net.Conn
						if p.ln != nil {
							if conn, err = p.ln.Accept(); err != nil {
								panic(err)
							}
						}
						conns = append(conns, conn)
					case "gone 0":
						if len(conns) > 0 && conns[0] != nil && !gone {
							conns[0].Close()
							gone = true
						}
					default:
						i := int(o[len(o)-1] - '0')
						if i >= len(hs) {
							continue
						}
						msg := fmt.Sprint("m", n)
						if o[0] == 'b' {
							msg = strings.Repeat("B", 30000)
						}
						err := hs[i].Log(record(3, msg, "i", i))
						if i == 0 && gone {
							c.Check(network != "unix" || err != nil, "%v: a record on a connection that is gone is accepted", l)
							continue
						}
						c.Check(err == nil, "%v: Log: %v", l, err)
						if err != nil {
							return
						}
						p.expect(conns[i], string(f.f().Format(record(3, msg, "i", i))), l)
					}
				}
				c.State(ni, idx[:3])
			}, "%s %v", network, idx)
		}
		rec(0)
	}
}

// ---- syslog ----

var sysRe = regexp.MustCompile(`(?s)^<(\d+)>(.*?) (\S+)\[(\d+)\]: (.*)\n$`)

func syslogs(c *enum.C) {
	texts := []string{"m", "", " padded  ", "two\nlines\n", "a: b", "tail\n\n", "\tx\t", "é<3>"}
	sev := []int{2, 3, 4, 6, 7} // crit, error, warn, info, debug
	nets := []string{"unixgram", "unix", "udp", "tcp"}
	c.Bound("%d networks, all facilities and severities as the base priority, all levels, %d texts, all pairs of levels in succession", len(nets), len(texts))
	for ni, network := range nets {
		for fac := 0; fac < 24; fac++ {
			for base := 0; base < 8; base++ {
				if !c.Mine() || base > 0 && fac%7 != 1 {
					continue
				}
				c.Case(func() {
					p := listen(c, network, "sys")
					defer p.close()
					tag := []string{"tag", "x-1"}[fac%2]
					raw := log.FormatFunc(func(r *log.Record) []byte { return []byte(r.Msg + fmt.Sprint(r.Ctx[1])) })
					h, err := log.SyslogNetHandler(network, p.path, syslog.Priority(fac<<3|base), tag, raw)
					c.Check(err == nil && h != nil, "SyslogNetHandler: %v", err)
					if h == nil {
						return
					}
					defer release()
					var conn net.Conn
					if p.ln != nil {
						if conn, err = p.ln.Accept(); err != nil {
							panic(err)
						}
						defer conn.Close()
					}
					one := func(lvl int, text string) {
						c.Step(1)
						err := h.Log(record(log.Lvl(lvl), text, "k", log.Lazy{Fn: func() string { return "" }}))
						c.Check(err == nil, "Log: %v", err)
						if lvl == 5 { // there is no such level
							var x interface{} = conn
							if p.pc != nil {
								x = p.pc
							}
							s := surplus(x)
							c.Check(s == "", "a trace record is sent as %q", s)
							return
						}
						var b []byte
						limit := time.Now().Add(5 * time.Second)
						buf := make([]byte, 5000)
						if p.pc != nil {
							p.pc.SetReadDeadline(limit)
							n, _, err := p.pc.ReadFrom(buf)
							c.Check(err == nil, "nothing arrives: %v", err)
							b = buf[:n]
						} else {
							conn.SetReadDeadline(limit)
							n, err := conn.Read(buf)
							c.Check(err == nil, "nothing arrives: %v", err)
							b = buf[:n]
						}
						m := sysRe.FindSubmatch(b)
						if m == nil {
							c.Failf("message %q", b)
							return
						}
						pri, _ := strconv.Atoi(string(m[1]))
						c.Check(pri == fac<<3|sev[lvl], "level %d is sent with priority %d, want %d", lvl, pri, fac<<3|sev[lvl])
						c.Check(string(m[3]) == tag, "the tag is %q", m[3])
						c.Check(string(m[5]) == strings.TrimSpace(text), "the text %q is sent as %q", text, m[5])
					}
					for lvl := 0; lvl < 6; lvl++ {
						for l2 := 0; l2 < 6; l2++ {
							one(lvl, "m")
							one(l2, "n")
						}
						for _, t := range texts {
							one(lvl, t)
						}
					}
					c.State(ni, fac, base)
				}, "%s facility %d severity %d", network, fac, base)
			}
		}
	}
}

// large sends records of many sizes through connections and a syslog daemon.
func large(c *enum.C) {
	max := c.Pick(1<<17, 1<<21)
	c.Bound("one record of every size to 300 and of the sizes around the powers of 2 and 10 up to %d (30000 in packets), with others before and after, over 4 networks, plainly and to a syslog daemon", max)
	for ni, network := range []string{"unix", "unixgram", "tcp", "udp"} {
		for _, sys := range []bool{false, true} {
			for _, n := range ref.SizeList(300, max) {
				if !c.Mine() || ni%2 == 1 && n > 30000 {
					continue
				}
				c.Case(func() {
					p := listen(c, network, "large")
					defer p.close()
					raw := formats[3].f()
					var h log.Handler
					var err error
					if sys {
						h, err = log.SyslogNetHandler(network, p.path, syslog.LOG_USER, "tag", raw)
					} else {
						h, err = log.NetHandler(network, p.path, raw)
					}
					c.Check(err == nil && h != nil, "the handler: %v", err)
					defer release(h)
					var conn net.Conn
					if p.ln != nil {
						if conn, err = p.ln.Accept(); err != nil {
							panic(err)
						}
						defer conn.Close()
					}
					for _, m := range []string{"a", strings.Repeat("x", n), strings.Repeat("yz", n/4+1)} {
						c.Step(1)
						done := make(chan error, 1)
						m := m
						go func() { done <- h.Log(record(3, m)) }()
						if sys {
							got := p.message(conn, len(m))
							f := sysRe.FindStringSubmatch(got)
							c.Check(f != nil && f[1] == "14" && f[5] == m, "a text of %d bytes arrives as %q", len(m), clip(got))
						} else if len(m) > 0 {
							p.expect(conn, m, len(m))
						} else if p.pc != nil {
							p.message(conn, 0)
						}
						err := <-done
						c.Check(err == nil, "Log: %v", err)
					}
					c.State(ni, sys, n)
				}, "%s syslog %v %d", network, sys, n)
			}
		}
	}
}

// message reads a packet, or from a stream up to a newline.
func (p *peer) message(conn net.Conn, n int) string {
	limit := time.Now().Add(5 * time.Second)
	b := make([]byte, n+1000)
	if p.pc != nil {
		p.pc.SetReadDeadline(limit)
		k, _, err := p.pc.ReadFrom(b)
		p.c.Check(err == nil, "nothing arrives: %v", err)
		return string(b[:k])
	}
	conn.SetReadDeadline(limit)
	k := 0
	for k < len(b) && (k == 0 || b[k-1] != '\n') {
		m, err := conn.Read(b[k:])
		k += m
		if err != nil {
			break
		}
	}
	return string(b[:k])
}

func main() {
	if s := os.Getenv("L07_CHILD"); s != "" {
		child(s)
	}
	syscall.Umask(0)
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "l07-")
	if err != nil {
		panic(err)
	}
	dir = d
	enum.Main(
		enum.Section{Name: "file histories", Shards: 8, Run: fileHistories},
		enum.Section{Name: "large records", Shards: 4, Run: fileLarge},
		enum.Section{Name: "failures", Run: failures},
		enum.Section{Name: "the end of the process", Shards: 8, Run: crashes},
		enum.Section{Name: "connections", Shards: 8, Run: netHistories},
		enum.Section{Name: "large records over connections", Shards: 8, Run: large},
		enum.Section{Name: "syslog", Shards: 8, Run: syslogs},
	)
}
