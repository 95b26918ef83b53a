// Package own checks that the results of the calls that prod lists belong to
// the caller.
package own

import (
	"flychain/zzmc/enum"
	"flychain/zzmc/prod"
)

// Section makes every two calls of a property one after the other.
func Section(of string) enum.Section {
	return enum.Section{Name: "results", Run: func(c *enum.C) {
		ps := prod.List(of)
		c.Bound("every two of %d calls one after the other: neither the second call nor overwriting its result, in all the memory it holds, changes the first result, and both give the same results again", len(ps))
		for i, p := range ps {
			for j, q := range ps {
				p, q := p, q
				c.Case(func() {
					c.Step(4)
					a := p.Get()
					sa := prod.Snap(a)
					b := q.Get()
					sb := prod.Snap(b)
					c.Check(prod.Snap(a) == sa, "%s changes the result of %s from %s to %s", q.Name, p.Name, sa, prod.Snap(a))
					prod.Scribble(b)
					c.Check(prod.Snap(a) == sa, "overwriting the result of %s changes the one of %s from %s to %s", q.Name, p.Name, sa, prod.Snap(a))
					prod.Scribble(a)
					a, b = p.Get(), q.Get()
					c.Check(prod.Snap(a) == sa, "%s gives %s, after its result was overwritten %s", p.Name, sa, prod.Snap(a))
					c.Check(prod.Snap(b) == sb, "%s gives %s, after its result was overwritten %s", q.Name, sb, prod.Snap(b))
					c.State(i, j)
				}, "%s, then %s", p.Name, q.Name)
			}
		}
	}}
}
