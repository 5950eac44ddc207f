package ref

import "math/big"

// Poly is a polynomial by ascending coefficients.
type Poly []*big.Int

// Eval evaluates at x.
func (p Poly) Eval(x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(p) - 1; i >= 0; i-- {
		r = Add(Mul(r, x), p[i])
	}
	return r
}

// At evaluates at a node index (abscissa index+1).
func (p Poly) At(node int) *big.Int { return p.Eval(I(int64(node) + 1)) }

func (p Poly) Coeff(i int) *big.Int {
	if i < len(p) {
		return p[i]
	}
	return new(big.Int)
}

// Norm drops trailing zeros.
func (p Poly) Norm() Poly {
	n := len(p)
	for n > 0 && p[n-1].Sign() == 0 {
		n--
	}
	return p[:n]
}

func (p Poly) Equal(q Poly) bool {
	p, q = p.Norm(), q.Norm()
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i].Cmp(q[i]) != 0 {
			return false
		}
	}
	return true
}

func (p Poly) Add(q Poly) Poly {
	n := max(len(p), len(q))
	r := make(Poly, n)
	for i := range r {
		r[i] = Add(p.Coeff(i), q.Coeff(i))
	}
	return r
}

func (p Poly) Mul(q Poly) Poly {
	if len(p) == 0 || len(q) == 0 {
		return Poly{}
	}
	r := make(Poly, len(p)+len(q)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range p {
		for j := range q {
			r[i+j] = Add(r[i+j], Mul(p[i], q[j]))
		}
	}
	return r
}

func (p Poly) Scale(s *big.Int) Poly {
	r := make(Poly, len(p))
	for i := range r {
		r[i] = Mul(p[i], s)
	}
	return r
}

// LagrangeAt gives the coefficients reproducing f(at) from f(xs[i]); nil when
// abscissas repeat or there are none.
func LagrangeAt(at *big.Int, xs []*big.Int) []*big.Int {
	if len(xs) == 0 {
		return nil
	}
	out := make([]*big.Int, len(xs))
	for i := range xs {
		num, den := I(1), I(1)
		for j := range xs {
			if i == j {
				continue
			}
			if xs[i].Cmp(xs[j]) == 0 {
				return nil
			}
			num = Mul(num, Sub(xs[j], at))
			den = Mul(den, Sub(xs[j], xs[i]))
		}
		out[i] = Mul(num, Inv(den))
	}
	return out
}

// Nodes turns node indices into abscissas.
func Nodes(idx []int) []*big.Int {
	out := make([]*big.Int, len(idx))
	for i, v := range idx {
		out[i] = I(int64(v) + 1)
	}
	return out
}

// Combine is sum(c[i]*v[i]).
func Combine(c, v []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range c {
		r = Add(r, Mul(c[i], v[i]))
	}
	return r
}

// CombinePolys is sum(c[i]*p[i]).
func CombinePolys(c []*big.Int, ps []Poly) Poly {
	var r Poly
	for i := range c {
		r = r.Add(ps[i].Scale(c[i]))
	}
	return r
}

// Interpolate is the unique polynomial through the samples; ok false when
// abscissas repeat.
func Interpolate(xs, ys []*big.Int) (Poly, bool) {
	var r Poly
	for i := range xs {
		term := Poly{I(1)}
		den := I(1)
		for j := range xs {
			if i == j {
				continue
			}
			if xs[i].Cmp(xs[j]) == 0 {
				return nil, false
			}
			term = term.Mul(Poly{Neg(xs[j]), I(1)})
			den = Mul(den, Sub(xs[i], xs[j]))
		}
		r = r.Add(term.Scale(Mul(ys[i], Inv(den))))
	}
	return r, true
}
