package ref

import "math/big"

// Pt is an affine point; Inf marks the identity.
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

// ECAdd adds two points of y^2 = x^3 + b over F_p by the textbook law.
func ECAdd(p *big.Int, a, b Pt) Pt {
	if a.Inf {
		return b
	}
	if b.Inf {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		s := new(big.Int).Add(a.Y, b.Y)
		if s.Mod(s, p).Sign() == 0 {
			return Pt{Inf: true}
		}
		n := new(big.Int).Mul(a.X, a.X)
		n.Mul(n, big.NewInt(3))
		d := new(big.Int).Lsh(a.Y, 1)
		d.ModInverse(d, p)
		l = n.Mul(n, d)
	} else {
		n := new(big.Int).Sub(b.Y, a.Y)
		d := new(big.Int).Sub(b.X, a.X)
		d.Mod(d, p)
		d.ModInverse(d, p)
		l = n.Mul(n, d)
	}
	l.Mod(l, p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X)
	x.Sub(x, b.X)
	x.Mod(x, p)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l)
	y.Sub(y, a.Y)
	y.Mod(y, p)
	return Pt{X: x, Y: y}
}

// ECMul multiplies by a non-negative scalar, double-and-add.
func ECMul(p *big.Int, k *big.Int, a Pt) Pt {
	r := Pt{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = ECAdd(p, r, r)
		if k.Bit(i) == 1 {
			r = ECAdd(p, r, a)
		}
	}
	return r
}

// XY returns the coordinates, (0,0) for the identity.
func (a Pt) XY() (*big.Int, *big.Int) {
	if a.Inf {
		return new(big.Int), new(big.Int)
	}
	return a.X, a.Y
}

// Curve is a small curve with its full point table.
type Curve struct {
	P, B   int64
	Points []Pt // the identity first
}

// SmallCurve enumerates all points of y^2 = x^3 + b over F_p.
func SmallCurve(p, b int64) Curve {
	c := Curve{P: p, B: b, Points: []Pt{{Inf: true}}}
	roots := map[int64][]int64{}
	for y := int64(0); y < p; y++ {
		roots[y*y%p] = append(roots[y*y%p], y)
	}
	for x := int64(0); x < p; x++ {
		for _, y := range roots[(x*x%p*x+b)%p] {
			c.Points = append(c.Points, Pt{X: big.NewInt(x), Y: big.NewInt(y)})
		}
	}
	return c
}

// Order returns the order of a point.
func Order(p *big.Int, a Pt) int64 {
	n := int64(1)
	r := a
	for !r.Inf {
		r = ECAdd(p, r, a)
		n++
	}
	return n
}
