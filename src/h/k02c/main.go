// Command k02c model-checks the first use of the named curves.
package main

import (
	"fmt"
	"math/big"
	"strings"

	"flychain/crypto"
	"flychain/zzmc/mc"
	"flychain/zzmc/prod/conc"
)

type pub struct {
	get             func() *crypto.BitCurve
	p, n, b, gx, gy string
	bits            int
}

var named = []pub{
	{crypto.S160, "fffffffffffffffffffffffffffffffeffffac73", "100000000000000000001b8fa16dfab9aca16b6b3", "7", "3b4c382ce37aa192a4019e763036f4f5dd4d7ebb", "938cf935318fdced6bc28286531733c3f03c4fee", 160},
	{crypto.S192, "fffffffffffffffffffffffffffffffffffffffeffffee37", "fffffffffffffffffffffffe26f2fc170f69466a74defd8d", "3", "db4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d", "9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d", 192},
	{crypto.S224, "fffffffffffffffffffffffffffffffffffffffffffffffeffffe56d", "10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7", "5", "a1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c", "7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5", 224},
	{crypto.S256, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "7", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 256},
}

// thread uses the curves named by the digits, and writes what it gets.
func thread(prog string, got []*crypto.BitCurve) {
	for i, d := range prog {
		w := named[d-'0']
		c := w.get()
		if c == nil {
			mc.Failf("the curve of %d bits is nil", w.bits)
		}
		eq := func(what string, v *big.Int, hex string) {
			if v == nil || v.Text(16) != hex {
				mc.Failf("%s of the curve of %d bits is %v", what, w.bits, v)
			}
		}
		eq("P", c.P, w.p)
		eq("N", c.N, w.n)
		eq("B", c.B, w.b)
		eq("Gx", c.Gx, w.gx)
		eq("Gy", c.Gy, w.gy)
		if c.BitSize != w.bits {
			mc.Failf("BitSize of the curve of %d bits is %d", w.bits, c.BitSize)
		}
		if !c.IsOnCurve(c.Gx, c.Gy) {
			mc.Failf("the base point of the curve of %d bits is not on it", w.bits)
		}
		got[i] = c
	}
}

func body(threads []string) func() {
	return func() {
		got := make([][]*crypto.BitCurve, len(threads))
		var fs []func()
		for i, t := range threads {
			i, t := i, t
			got[i] = make([]*crypto.BitCurve, len(t))
			fs = append(fs, func() { thread(t, got[i]) })
		}
		mc.Par(fs...)
		seen := map[rune]*crypto.BitCurve{}
		for i, t := range threads {
			for k, d := range t {
				if o := seen[d]; o != nil && o != got[i][k] {
					mc.Failf("two calls give different curves of %d bits", named[d-'0'].bits)
				}
				seen[d] = got[i][k]
			}
		}
		mc.Outcome("ok")
	}
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var l []*mc.Scenario
		add := func(t ...string) {
			l = append(l, &mc.Scenario{Name: "first use " + strings.Join(t, " | "), Body: body(t)})
		}
		for i := 0; i < 4; i++ {
			add(fmt.Sprint(i))
			for j := i; j < 4; j++ {
				add(fmt.Sprintf("%d%d", i, j), fmt.Sprintf("%d%d", j, i))
			}
		}
		add("0", "1", "2", "3")
		if thorough {
			for i := 0; i < 4; i++ {
				for j := 0; j < 4; j++ {
					add(fmt.Sprint(i), fmt.Sprint(j), fmt.Sprintf("%d%d", j, i))
				}
			}
		}
		return append(l, conc.Scenarios("K02")...)
	})
}
