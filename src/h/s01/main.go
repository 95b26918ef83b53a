// S01: human-readable sizes, durations and ages.
package main

import (
	"flychain/common"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

var units = []string{"B", "KiB", "MiB", "GiB", "TiB"}

// fixed2 prints a non-negative or negative float with two decimals, exactly
// rounded half to even on the exact binary value.
func fixed2(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	if math.IsInf(f, 1) {
		return "+Inf"
	}
	if math.IsInf(f, -1) {
		return "-Inf"
	}
	r := new(big.Rat).SetFloat64(f)
	r.Mul(r, big.NewRat(100, 1))
	neg := math.Signbit(f)
	if r.Sign() < 0 {
		r.Neg(r)
	}
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	m.Lsh(m, 1)
	if cmp := m.Cmp(r.Denom()); cmp > 0 || cmp == 0 && q.Bit(0) == 1 {
		q.Add(q, big.NewInt(1))
	}
	s := q.String()
	for len(s) < 3 {
		s = "0" + s
	}
	s = s[:len(s)-2] + "." + s[len(s)-2:]
	if neg {
		s = "-" + s
	}
	return s
}

func size(c *enum.C, f float64) {
	c.Step(2)
	u := 0
	v := f
	for i := 4; i > 0; i-- {
		if f > math.Pow(1024, float64(i)) {
			u, v = i, f/math.Pow(1024, float64(i))
			break
		}
	}
	want := fixed2(v)
	c.State(want, u)
	got := common.StorageSize(f).String()
	c.Check(got == want+" "+units[u], "String = %q, want %q", got, want+" "+units[u])
	got = common.StorageSize(f).TerminalString()
	c.Check(got == want+units[u], "TerminalString = %q, want %q", got, want+units[u])
	c.Check(fmt.Sprint(common.StorageSize(f)) == want+" "+units[u], "Sprint = %q", fmt.Sprint(common.StorageSize(f)))
}

func duration(c *enum.C, d time.Duration) {
	c.Step(1)
	s := d.String()
	want := s
	if i := strings.IndexByte(s, '.'); i >= 0 {
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j-i-1 > 3 {
			want = s[:i+4] + s[j:]
		}
	}
	c.State(want)
	got := common.PrettyDuration(d).String()
	c.Check(got == want, "= %q, want %q", got, want)
	got = fmt.Sprint(common.PrettyDuration(d))
	c.Check(got == want, "Sprint = %q, want %q", got, want)
}

var ageUnits = []struct {
	n int64
	s string
}{{12 * 30 * 86400, "y"}, {30 * 86400, "mo"}, {7 * 86400, "w"}, {86400, "d"}, {3600, "h"}, {60, "m"}, {1, "s"}}

func ageText(d time.Duration) string {
	want := ""
	left := int64(d / time.Second)
	k := 0
	for _, u := range ageUnits {
		if q := left / u.n; q > 0 && k < 3 {
			want += fmt.Sprintf("%d%s", q, u.s)
			k++
		}
		left %= u.n
	}
	if want == "" || d < time.Second {
		want = "0"
	}
	return want
}

func age(c *enum.C, d time.Duration) {
	c.Step(1)
	want := ageText(d)
	c.State(want)
	got := common.PrettyAge(time.Now().Add(-d)).String()
	c.Check(got == want, "age %v = %q, want %q", d, got, want)
}

// deps is what package testing wants to know from a test binary.
type deps struct{}

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

func (deps) ImportPath() string                          { return "" }
func (deps) ModulePath() string                          { return "" }
func (deps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (deps) SetPanicOnExit0(bool)                        {}
func (deps) StartCPUProfile(io.Writer) error             { return nil }
func (deps) StopCPUProfile()                             {}
func (deps) StartTestLog(io.Writer)                      {}
func (deps) StopTestLog() error                          { return nil }
func (deps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (deps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (deps) RunFuzzWorker(func(corpusEntry) error) error              { return nil }
func (deps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (deps) CheckCorpus([]any, []reflect.Type) error                  { return nil }
func (deps) ResetCoverage()                                           {}
func (deps) SnapshotCoverage()                                        {}
func (deps) InitRuntimeCoverage() (mode string, tearDown func(string, string) (string, error), snapcov func() float64) {
	return "", func(string, string) (string, error) { return "", nil }, func() float64 { return 0 }
}

// bubble runs f with a fake clock on which no time passes.
func bubble(f func()) {
	ran := false
	var end any
	m := testing.MainStart(deps{}, []testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			// what ends the section has to leave the bubble in good order
			defer func() { end, ran = recover(), true }()
			f()
		})
	}}}, nil, nil, nil)
	code := m.Run()
	if !ran || code != 0 {
		panic("bubble failed")
	}
	if end != nil {
		panic(end)
	}
}

func main() {
	_ = os.Args
	testing.Init()
	enum.Main(
		own.Section("S01"),
		enum.Section{Name: "size", Run: func(c *enum.C) {
			c.Bound("every integer below 10000; k*1024^u+d for k<2100, u<=5; neighbours of every threshold; halves; non-finite and negative values")
			for i := 0; i < 10000; i++ {
				f := float64(i)
				c.Case(func() { size(c, f) }, "%v", f)
				c.Case(func() { size(c, -f) }, "%v", -f)
				c.Case(func() { size(c, f/8) }, "%v", f/8)
			}
			for u := 1; u <= 5; u++ {
				p := math.Pow(1024, float64(u))
				for k := 1; k < c.Pick(2100, 20000); k++ {
					for _, f := range []float64{p * float64(k), p*float64(k) + 1, p*float64(k) - 1, p * float64(k) / 200, math.Nextafter(p*float64(k), 0), math.Nextafter(p*float64(k), math.Inf(1))} {
						f := f
						c.Case(func() { size(c, f) }, "%v", f)
					}
				}
			}
			for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0.005, 0.015, 0.025, 1.005} {
				f := f
				c.Case(func() { size(c, f) }, "%v", f)
			}
		}},
		enum.Section{Name: "duration", Run: func(c *enum.C) {
			c.Bound("a*10^k+b for a<1000, k<=18, b in 5 values, both signs; every value below 20000 ns")
			do := func(d time.Duration) { c.Case(func() { duration(c, d) }, "%d", int64(d)) }
			for i := 0; i < 20000; i++ {
				do(time.Duration(i))
			}
			p := int64(1)
			for k := 0; k <= 15; k++ {
				for a := int64(1); a < 1000; a++ {
					for _, b := range []int64{0, 1, -1, 123456789, 100} {
						do(time.Duration(a*p + b))
						do(-time.Duration(a*p + b))
					}
				}
				p *= 10
			}
			for _, u := range []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour} {
				for a := 0; a < 130; a++ {
					for _, b := range []time.Duration{0, 1, 10, 999, 1000, 1e6, 12345678, 999999999} {
						do(u*time.Duration(a) + b)
					}
				}
			}
			do(math.MaxInt64)
			do(math.MinInt64)
		}},
		enum.Section{Name: "age", Run: func(c *enum.C) {
			c.Bound("on a fake clock: sums of <= %d unit multiples (0,1,2,max-1,max of each unit) with 5 sub-second offsets, the future, the zero time and far ones, in other zones", c.Pick(7, 7))
			bubble(func() {
				maxq := []int64{3, 11, 4, 6, 23, 59, 59}
				offs := []time.Duration{0, 1, -1, 500 * time.Millisecond, 999999999}
				var rec func(i int, sum int64)
				rec = func(i int, sum int64) {
					if i == len(ageUnits) {
						for _, o := range offs {
							d := time.Duration(sum)*time.Second + o
							c.Case(func() { age(c, d) }, "%d", int64(d))
						}
						return
					}
					for _, q := range []int64{0, 1, maxq[i]} {
						rec(i+1, sum+q*ageUnits[i].n)
					}
					if c.Thorough() {
						rec(i+1, sum+2*ageUnits[i].n)
						rec(i+1, sum+(maxq[i]-1)*ageUnits[i].n)
					}
				}
				rec(0, 0)
				for s := int64(0); s < 4000; s++ {
					d := time.Duration(s) * time.Second
					c.Case(func() { age(c, d) }, "%d", int64(d))
				}
				for i, t := range []time.Time{{}, time.Unix(0, 0), time.Unix(-1<<40, 0), time.Unix(1<<40, 0), time.Now().UTC(), time.Now().In(time.FixedZone("x", 7*3600)).Add(-90 * time.Minute), time.Now().AddDate(-5, -7, -20), time.Now().AddDate(-292, 0, 0), time.Now().AddDate(-293, 0, 0), time.Now().Round(0).Add(-time.Hour)} {
					c.Case(func() {
						want := ageText(time.Since(t)) // at most the longest duration
						got := common.PrettyAge(t).String()
						c.Check(got == want, "age of %v = %q, want %q", t, got, want)
						got = fmt.Sprint(common.PrettyAge(t))
						c.Check(got == want, "age of %v prints %q, want %q", t, got, want)
						c.State(i, want)
					}, "time %d", i)
				}
				for _, d := range []time.Duration{-1, -time.Second, -time.Hour, 100 * 360 * 24 * time.Hour, math.MaxInt64, math.MaxInt64 - 1, -math.MaxInt64} {
					d := d
					c.Case(func() { age(c, d) }, "%d", int64(d))
				}
			})
		}},
	)
}
