// Package exec is what package cmdtest uses of package os/exec. The child is
// a function of the harness that runs in a goroutine.
package exec

import (
	"errors"
	"io"
	"os"
	"sync"
	"syscall"
	"time"
)

// Child is the program that every command runs.
var Child func(p *Proc)

type Cmd struct {
	Path    string
	Args    []string
	Env     []string
	Dir     string
	Stdin   io.Reader
	Stdout  io.Writer
	Stderr  io.Writer
	Process *Process

	proc    *Proc
	out, in *pipe
	waited  bool
}

type pipe struct {
	ch   chan []byte
	rest []byte
	once sync.Once
	proc *Proc
}

func newPipe(p *Proc) *pipe { return &pipe{ch: make(chan []byte, 100), proc: p} }

func (p *pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.rest) == 0 {
		c, ok := <-p.ch
		if !ok {
			return 0, io.EOF
		}
		p.rest = c
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *pipe) Write(b []byte) (int, error) {
	select {
	case <-p.proc.done:
		return 0, syscall.EPIPE
	default:
	}
	if len(b) > 0 {
		p.ch <- append([]byte{}, b...)
	}
	return len(b), nil
}

func (p *pipe) Close() error {
	p.once.Do(func() { close(p.ch) })
	return nil
}

// Proc is the child's view of itself. Every method ends the child when it has
// been killed.
type Proc struct {
	Args    []string
	cmd     *Cmd
	kill    chan struct{}
	killOne sync.Once
	done    chan struct{}
	sig     chan os.Signal
	code    int
	killed  bool
	line    []byte
}

type exit struct{ code int }

func (p *Proc) check() {
	select {
	case <-p.kill:
		p.killed = true
		panic(exit{})
	default:
	}
}

// Out writes one chunk to the standard output, Err to the standard error.
func (p *Proc) Out(s string) {
	p.check()
	if s == "" {
		return
	}
	select {
	case p.cmd.out.ch <- []byte(s):
	case <-p.kill:
		p.killed = true
		panic(exit{})
	}
}

func (p *Proc) Err(s string) {
	p.check()
	if p.cmd.Stderr != nil {
		p.cmd.Stderr.Write([]byte(s))
	}
}

func (p *Proc) Exit(code int) { p.check(); panic(exit{code}) }

func (p *Proc) Sleep(d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
	case <-p.kill:
		p.killed = true
		panic(exit{})
	}
}

// Line reads a line of the input, without its end; false at the end of input.
func (p *Proc) Line() (string, bool) {
	for {
		for i, c := range p.line {
			if c == '\n' {
				s := string(p.line[:i])
				p.line = p.line[i+1:]
				return s, true
			}
		}
		select {
		case b, ok := <-p.cmd.in.ch:
			if !ok {
				return string(p.line), false
			}
			p.line = append(p.line, b...)
		case <-p.kill:
			p.killed = true
			panic(exit{})
		}
	}
}

// Signal waits for a signal.
func (p *Proc) Signal() os.Signal {
	select {
	case s := <-p.sig:
		return s
	case <-p.kill:
		p.killed = true
		panic(exit{})
	}
}

// Hang waits to be killed.
func (p *Proc) Hang() {
	<-p.kill
	p.killed = true
	panic(exit{})
}

type Process struct {
	Pid  int
	proc *Proc
}

func (p *Process) Signal(s os.Signal) error {
	select {
	case <-p.proc.done:
		return os.ErrProcessDone
	default:
	}
	if s == os.Kill {
		p.proc.killOne.Do(func() { close(p.proc.kill) })
		return nil
	}
	select {
	case p.proc.sig <- s:
	default:
	}
	return nil
}

func (p *Process) Kill() error { return p.Signal(os.Kill) }

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func (c *Cmd) init() {
	if c.proc == nil {
		c.proc = &Proc{cmd: c, kill: make(chan struct{}), done: make(chan struct{}), sig: make(chan os.Signal, 1)}
	}
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	c.init()
	if c.out != nil || c.Process != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	c.out = newPipe(c.proc)
	return c.out, nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	c.init()
	if c.in != nil || c.Process != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.in = newPipe(c.proc)
	return c.in, nil
}

func (c *Cmd) Start() error {
	c.init()
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.out == nil {
		c.out = newPipe(c.proc)
	}
	if c.in == nil {
		c.in = newPipe(c.proc)
	}
	p := c.proc
	p.Args = c.Args
	c.Process = &Process{Pid: 1, proc: p}
	f := Child
	go func() {
		defer func() {
			if x := recover(); x != nil {
				e, ok := x.(exit)
				if !ok {
					panic(x)
				}
				p.code = e.code
			}
			c.out.Close()
			close(p.done)
		}()
		f(p)
	}()
	return nil
}

// ExitError and its status are as on Linux.
type ExitError struct{ status syscall.WaitStatus }

func (e *ExitError) Error() string    { return "exit status" }
func (e *ExitError) Sys() interface{} { return e.status }
func (e *ExitError) ExitCode() int {
	if e.status.Exited() {
		return e.status.ExitStatus()
	}
	return -1
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	<-c.proc.done
	switch p := c.proc; {
	case p.killed:
		return &ExitError{syscall.WaitStatus(9)}
	case p.code != 0:
		return &ExitError{syscall.WaitStatus(p.code << 8)}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Done is closed when the child has ended; Killed then says how.
func (p *Proc) Done() <-chan struct{} { return p.done }
func (p *Proc) Killed() bool          { return p.killed }
