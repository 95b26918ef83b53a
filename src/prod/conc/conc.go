// Package conc model-checks the calls that prod lists, made by several
// goroutines that share nothing.
package conc

import (
	"flychain/zzmc/mc"
	"flychain/zzmc/prod"
)

// run lets the calls go on at the same time; what they give is compared with
// what they give afterwards, alone.
func run(ps ...prod.P) {
	got := make([]string, len(ps))
	var fs []func()
	for i, p := range ps {
		i, p := i, p
		fs = append(fs, func() {
			mc.Point()
			v := p.Get()
			mc.Point()
			got[i] = prod.Snap(v)
			prod.Scribble(v)
		})
	}
	mc.Par(fs...)
	for i, p := range ps {
		if want := prod.Snap(p.Get()); got[i] != want {
			mc.Failf("%s gives %s at the same time as other calls, alone %s", p.Name, got[i], want)
		}
	}
	mc.Outcome("ok")
}

// Scenarios are the ones of a property.
func Scenarios(of string) []*mc.Scenario {
	ps := prod.List(of)
	var l []*mc.Scenario
	seen := map[string]bool{}
	for _, p := range ps {
		if p := p; !seen[p.Func()] {
			seen[p.Func()] = true
			l = append(l, &mc.Scenario{Name: "first calls of " + p.Func(), Body: func() { run(p, p, p) }})
		}
	}
	return append(l, &mc.Scenario{Name: "two calls", Body: func() {
		i := mc.Choose(len(ps))
		run(ps[i], ps[i+mc.Choose(len(ps)-i)])
	}})
}
