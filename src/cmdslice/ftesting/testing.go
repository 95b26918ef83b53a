// Package testing is what package cmdtest uses of package testing: it records
// what is reported.
package testing

import (
	"fmt"
	"sync"
)

type T struct {
	mu   sync.Mutex
	logs []string
	errs []string
}

// Fatality is the panic by which Fatal ends the test.
type Fatality struct{ Msg string }

func (t *T) Helper() {}

func (t *T) log(s string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.logs = append(t.logs, s)
}

func (t *T) Log(a ...interface{})            { t.log(fmt.Sprint(a...)) }
func (t *T) Logf(f string, a ...interface{}) { t.log(fmt.Sprintf(f, a...)) }
func (t *T) Fail()                           { t.Error("") }
func (t *T) FailNow()                        { panic(Fatality{}) }

func (t *T) Error(a ...interface{}) {
	s := fmt.Sprint(a...)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.errs = append(t.errs, s)
}

func (t *T) Errorf(f string, a ...interface{}) { t.Error(fmt.Sprintf(f, a...)) }
func (t *T) Fatal(a ...interface{})            { panic(Fatality{fmt.Sprint(a...)}) }
func (t *T) Fatalf(f string, a ...interface{}) { panic(Fatality{fmt.Sprintf(f, a...)}) }

// Logs and Errors return what was reported so far.
func (t *T) Logs() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]string{}, t.logs...)
}

func (t *T) Errors() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]string{}, t.errs...)
}
