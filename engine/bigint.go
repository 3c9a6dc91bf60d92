package main

// math/big.Int modelled as two's complement bit-vector terms.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Poly records that a value equals an integer polynomial in x (or, with modp, that polynomial reduced modulo the secp256k1 prime;
// or, with cong, that it is only congruent to the polynomial modulo that prime).
type Poly struct {
	x    *Term
	c    []*big.Int
	modp bool
	cong bool
}

func bigConst(i int64) *BigV { return bigC(big.NewInt(i)) }

func bigC(v *big.Int) *BigV {
	w := v.BitLen() + 1
	return &BigV{t: BVBig(w, v)}
}

// bigU is an unsigned term as a big integer.
func bigU(t *Term) *BigV { return bigNorm(&BigV{t: Zext(t, t.w+1)}) }

func bigNorm(b *BigV) *BigV {
	t := b.t
	if t.isConst() {
		v := signedBig(t)
		n := v.BitLen() + 1
		if n < t.w {
			return &BigV{t: BVBig(n, v), poly: b.poly}
		}
		return b
	}
	if t.lz > 1 && t.lz < t.w {
		return &BigV{t: Extract(t, t.w-t.lz, 0), poly: b.poly}
	}
	return b
}

func (b *BigV) isConst() bool     { return b.t.isConst() }
func (b *BigV) val() *big.Int     { return signedBig(b.t) }
func (b *BigV) neg() *Term        { return Eq(Extract(b.t, b.t.w-1, b.t.w-1), BV(1, 1)) }
func (b *BigV) nonneg() bool      { return b.t.lz > 0 || b.neg() == tFalse }
func (b *BigV) ext(w int) *Term   { return Sext(b.t, w) }
func (b *BigV) isZeroT() *Term    { return Eq(b.t, zeroBV(b.t.w)) }
func (b *BigV) mag(w int) *Term   { // unsigned value of a non-negative number
	if b.nonneg() {
		if b.t.w == 1 {
			return zeroBV(w)
		}
		return Resize(Extract(b.t, b.t.w-2, 0), w)
	}
	return Resize(b.t, w)
}

func bigEq(x, y *BigV) *Term {
	w := max(x.t.w, y.t.w)
	return Eq(x.ext(w), y.ext(w))
}

func bigIte(c *Term, x, y *BigV) *BigV {
	w := max(x.t.w, y.t.w)
	r := &BigV{t: Ite(c, x.ext(w), y.ext(w))}
	if x.poly != nil && x.poly == y.poly {
		r.poly = x.poly
	}
	return r
}

func bigAdd(a, b *BigV) *BigV {
	if a.isConst() && b.isConst() {
		return bigC(new(big.Int).Add(a.val(), b.val()))
	}
	if p := polyBin(a, b, polyPlus); p != nil {
		return p
	}
	w := max(a.t.w, b.t.w)
	if a.nonneg() && b.nonneg() {
		return polyTag(bigNorm(&BigV{t: Zext(Add(a.mag(w), b.mag(w)), w+1)}), a, b, polyPlus)
	}
	return polyTag(bigNorm(&BigV{t: Add(a.ext(w+1), b.ext(w+1))}), a, b, polyPlus)
}

func bigSub(a, b *BigV) *BigV {
	if a.isConst() && b.isConst() {
		return bigC(new(big.Int).Sub(a.val(), b.val()))
	}
	if p := polyBin(a, b, polyMinus); p != nil {
		return p
	}
	w := max(a.t.w, b.t.w) + 1
	return polyTag(bigNorm(&BigV{t: Sub(a.ext(w), b.ext(w))}), a, b, polyMinus)
}

func bigNegV(a *BigV) *BigV { return bigSub(bigConst(0), a) }

func isPow2(v *big.Int) (int, bool) {
	if v.Sign() <= 0 {
		return 0, false
	}
	n := v.BitLen() - 1
	return n, new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(v) == 0
}

func bigLsh(a *BigV, n int) *BigV {
	if a.isConst() {
		return bigC(new(big.Int).Lsh(a.val(), uint(n)))
	}
	if n == 0 {
		return a
	}
	return bigNorm(&BigV{t: Concat(a.t, zeroBV(n))})
}

func bigRsh(a *BigV, n int) *BigV {
	if a.isConst() {
		return bigC(new(big.Int).Rsh(a.val(), uint(n)))
	}
	if n == 0 {
		return a
	}
	if n >= a.t.w {
		n = a.t.w - 1
	}
	return bigNorm(&BigV{t: Extract(a.t, a.t.w-1, n)})
}

func bigMul(a, b *BigV) *BigV {
	if a.isConst() && b.isConst() {
		return bigC(new(big.Int).Mul(a.val(), b.val()))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.val().Sign() == 0 {
			return bigConst(0)
		}
		if n, ok := isPow2(a.val()); ok {
			return bigLsh(b, n)
		}
	}
	if p := polyBin(a, b, polyMul); p != nil {
		return p
	}
	w := a.t.w + b.t.w
	if !a.isConst() && !b.isConst() && w > 160 {
		if !a.nonneg() || !b.nonneg() {
			unsup("product of large signed numbers")
		}
		return polyTag(bigU(ufMul(a.mag(a.t.w), b.mag(b.t.w))), a, b, polyMul)
	}
	return polyTag(bigNorm(&BigV{t: Mul(a.ext(w), b.ext(w))}), a, b, polyMul)
}

func ufMul(x, y *Term) *Term {
	if x.id > y.id {
		x, y = y, x
	}
	d := &UFDecl{name: fmt.Sprintf("bigmul_%d_%d", x.w, y.w), argw: []int{x.w, y.w}, w: x.w + y.w,
		real: func(a []*big.Int) *big.Int { return new(big.Int).Mul(a[0], a[1]) }}
	return UF(d, x, y)
}

// ---- polynomials over one unknown ----

func polyOf(b *BigV) *Poly {
	if b.poly != nil {
		return b.poly
	}
	if b.isConst() {
		return &Poly{c: []*big.Int{b.val()}}
	}
	if b.nonneg() && b.t.w > 100 {
		return &Poly{x: b.mag(b.t.w - 1), c: []*big.Int{new(big.Int), big.NewInt(1)}}
	}
	return nil
}

// polyBin applies f when it yields a polynomial worth tracking (degree at least two).
func polyBin(a, b *BigV, f func(x, y *Poly) *Poly) *BigV {
	p, q := polyOf(a), polyOf(b)
	if p == nil || q == nil || (p.x != nil && q.x != nil && p.x != q.x) || p.reduced() || q.reduced() {
		return nil // arithmetic on reduced values is only tracked modulo the prime: polyTag
	}
	r := f(p, q)
	if r == nil || len(r.c) < 3 || len(r.c) > 5 {
		return nil
	}
	return polyVal(r)
}

func (p *Poly) reduced() bool { return p.modp || p.cong }

// polyTag notes what a result is modulo the prime when an operand was reduced.
func polyTag(v, a, b *BigV, f func(x, y *Poly) *Poly) *BigV {
	p, q := polyOf(a), polyOf(b)
	if p == nil || q == nil || v.poly != nil || !(p.reduced() || q.reduced()) || (p.x != nil && q.x != nil && p.x != q.x) {
		return v
	}
	r := f(p, q)
	if r == nil || len(r.c) < 3 || len(r.c) > 5 {
		return v
	}
	r.cong, r.modp = true, false
	return &BigV{t: v.t, poly: r}
}

func polyPlus(x, y *Poly) *Poly  { return polyAdd(x, y, 1) }
func polyMinus(x, y *Poly) *Poly { return polyAdd(x, y, -1) }

func polyAdd(p, q *Poly, sgn int64) *Poly {
	r := &Poly{x: p.x}
	if r.x == nil {
		r.x = q.x
	}
	n := max(len(p.c), len(q.c))
	for i := 0; i < n; i++ {
		v := new(big.Int)
		if i < len(p.c) {
			v.Add(v, p.c[i])
		}
		if i < len(q.c) {
			v.Add(v, new(big.Int).Mul(big.NewInt(sgn), q.c[i]))
		}
		r.c = append(r.c, v)
	}
	for len(r.c) > 0 && r.c[len(r.c)-1].Sign() == 0 {
		r.c = r.c[:len(r.c)-1]
	}
	return r
}

func polyMul(p, q *Poly) *Poly {
	r := &Poly{x: p.x}
	if r.x == nil {
		r.x = q.x
	}
	if len(p.c) == 0 || len(q.c) == 0 {
		return nil
	}
	r.c = make([]*big.Int, len(p.c)+len(q.c)-1)
	for i := range r.c {
		r.c[i] = new(big.Int)
	}
	for i := range p.c {
		for j := range q.c {
			r.c[i+j].Add(r.c[i+j], new(big.Int).Mul(p.c[i], q.c[j]))
		}
	}
	return r
}

func (p *Poly) name() string {
	var s []string
	for _, c := range p.c {
		s = append(s, c.Text(16))
	}
	return strings.Join(s, "_")
}

func (p *Poly) eval(x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(p.c) - 1; i >= 0; i-- {
		r.Mul(r, x)
		r.Add(r, p.c[i])
	}
	return r
}

func polyVal(p *Poly) *BigV {
	for _, c := range p.c {
		if c.Sign() < 0 {
			return nil
		}
	}
	q := *p
	if p.modp {
		d := &UFDecl{name: fmt.Sprintf("polyp_%d_%s", p.x.w, p.name()), argw: []int{p.x.w}, w: 256,
			real: func(a []*big.Int) *big.Int { r := q.eval(a[0]); return r.Mod(r, secpP) }}
		return &BigV{t: Zext(UF(d, p.x), 257), poly: p}
	}
	w := 0
	for i, c := range p.c {
		w = max(w, i*p.x.w+c.BitLen())
	}
	w += 3
	d := &UFDecl{name: fmt.Sprintf("poly_%d_%s", p.x.w, p.name()), argw: []int{p.x.w}, w: w,
		real: func(a []*big.Int) *big.Int { return q.eval(a[0]) }}
	return &BigV{t: Zext(UF(d, p.x), w+1), poly: p}
}

func polyModP(p *Poly) *Poly {
	r := &Poly{x: p.x, modp: true}
	for _, c := range p.c {
		r.c = append(r.c, new(big.Int).Mod(c, secpP))
	}
	return r
}

// isCurveRHS reports whether the value is x^3+7 modulo the prime.
func isCurveRHS(b *BigV) (*Term, bool) {
	p := b.poly
	if p == nil || p.x == nil || len(p.c) != 4 {
		return nil, false
	}
	want := []int64{7, 0, 0, 1}
	for i := range want {
		if new(big.Int).Mod(p.c[i], secpP).Cmp(big.NewInt(want[i])) != 0 {
			return nil, false
		}
	}
	return p.x, true
}

// modSmall reduces an unsigned term by a constant, by conditional subtraction when its range allows it.
func modConst(t *Term, m *big.Int) *Term {
	_, hi := urange(t, 6)
	q := new(big.Int).Div(hi, m)
	if q.Sign() == 0 {
		return t
	}
	if _, ok := isPow2(m); !ok && q.Cmp(big.NewInt(2)) <= 0 {
		w := t.w
		mt := BVBig(w, m)
		if m.BitLen() > w {
			return t
		}
		r := t
		for k := q.Int64(); k > 0; k-- {
			km := new(big.Int).Mul(m, big.NewInt(k))
			_ = km
		}
		// at most two subtractions
		r = Ite(Ult(r, mt), r, Sub(r, mt))
		if q.Int64() == 2 {
			r = Ite(Ult(r, mt), r, Sub(r, mt))
		}
		return r
	}
	return Urem(t, BVBig(t.w, m))
}

// surely tells whether a condition holds on every input that reaches this point.
func (in *Interp) surely(st *State, c *Term) bool {
	if c == tTrue || c == tFalse {
		return c == tTrue
	}
	if v, ok := in.implied(st, c); ok {
		return v
	}
	return !in.concrete && !in.feasible(st, Not(c))
}

// modUnder is modConst with what is known on the path taken into account, so that one value gets one term.
func (in *Interp) modUnder(st *State, t *Term, m *big.Int) *Term {
	_, hi := urange(t, 6)
	q := new(big.Int).Div(hi, m)
	if q.Sign() == 0 || q.Cmp(big.NewInt(2)) > 0 || m.BitLen() > t.w {
		return modConst(t, m)
	}
	if _, ok := isPow2(m); ok {
		return modConst(t, m)
	}
	mt := BVBig(t.w, m)
	c := Ult(t, mt)
	if in.surely(st, c) {
		return t
	}
	if m2 := new(big.Int).Lsh(m, 1); m2.BitLen() <= t.w && in.surely(st, Ult(t, BVBig(t.w, m2))) {
		return Ite(c, t, Sub(t, mt))
	}
	return modConst(t, m)
}

// bigMod is the Euclidean remainder of a non-negative number by a positive one.
func (in *Interp) bigModNN(st *State, a, m *BigV) *BigV {
	if a.isConst() && m.isConst() {
		return bigC(new(big.Int).Mod(a.val(), m.val()))
	}
	if m.isConst() {
		mv := m.val()
		if mv.Cmp(secpP) == 0 && a.poly != nil {
			if r := polyVal(polyModP(a.poly)); r != nil {
				return r
			}
		}
		if n, ok := isPow2(mv); ok {
			if n == 0 {
				return bigConst(0)
			}
			return bigU(a.mag(n))
		}
		w := max(a.t.w, m.t.w)
		r := in.modUnder(st, a.mag(w), mv)
		return bigU(Resize(r, mv.BitLen()))
	}
	w := max(a.t.w, m.t.w)
	return bigU(Urem(a.mag(w), m.mag(w)))
}

func bigDivNN(a, m *BigV) *BigV {
	if a.isConst() && m.isConst() {
		return bigC(new(big.Int).Div(a.val(), m.val()))
	}
	if m.isConst() {
		if n, ok := isPow2(m.val()); ok {
			return bigRsh(a, n)
		}
	}
	w := max(a.t.w, m.t.w)
	return bigU(Udiv(a.mag(w), m.mag(w)))
}

func bigBitop(a, b *BigV, f func(x, y *Term) *Term) *BigV {
	w := max(a.t.w, b.t.w)
	return bigNorm(&BigV{t: f(a.ext(w), b.ext(w))})
}

func bigCmp(a, b *BigV) *Term {
	w := max(a.t.w, b.t.w)
	x, y := a.ext(w), b.ext(w)
	var lt *Term
	if a.nonneg() && b.nonneg() {
		lt = Ult(x, y)
	} else {
		lt = Slt(x, y)
	}
	return Ite(lt, BV(64, ^uint64(0)), Ite(Eq(x, y), BV(64, 0), BV(64, 1)))
}

func bigBitLen(a *BigV) *Term {
	m := a.mag(a.t.w)
	r := BV(64, 0)
	for i := 0; i < m.w; i++ {
		r = Ite(Eq(Extract(m, i, i), BV(1, 1)), BV(64, uint64(i+1)), r)
	}
	return r
}

func (in *Interp) big(st *State, v Value) *BigV {
	p, ok := v.(Ptr)
	if !ok {
		unsup("big.Int argument %T", v)
	}
	if p.obj == 0 {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	b, ok := st.load(p).(*BigV)
	if !ok {
		unsup("big.Int value %T", st.load(p))
	}
	return b
}

// goPanic is a run-time panic raised inside a model; the dispatcher turns it into an outcome.
type goPanic struct{ msg string }

// withSign continues in states where the sign of b is decided.
func (in *Interp) withSign(st *State, b *BigV, f func(st *State, b *BigV, neg bool) []Outcome) []Outcome {
	if b.nonneg() {
		return f(st, b, false)
	}
	n, p := in.split(st, b.neg())
	var os []Outcome
	if p != nil {
		nb := &BigV{t: b.t, poly: b.poly}
		if b.t.w > 1 {
			nb = bigNorm(&BigV{t: Zext(Extract(b.t, b.t.w-2, 0), b.t.w), poly: b.poly})
		}
		os = append(os, f(p, nb, false)...)
	}
	if n != nil {
		os = append(os, f(n, b, true)...)
	}
	return os
}

func (in *Interp) bigBytes(st *State, b *BigV) []Outcome {
	return in.withSign(st, b, func(st *State, b *BigV, neg bool) []Outcome {
		if neg {
			b = bigNegV(b)
		}
		k := (b.t.w + 7) / 8
		m := b.mag(8 * k)
		bs := make([]*Term, k)
		for i := range bs {
			bs[i] = Extract(m, 8*(k-i)-1, 8*(k-i-1))
		}
		var os []Outcome
		cur := st
		for i := range bs {
			if cur == nil {
				break
			}
			x, y := in.split(cur, Not(Eq(bs[i], BV(8, 0))))
			if x != nil {
				os = append(os, Outcome{st: x, kind: oRet, val: in.newBytes(x, bs[i:])})
			}
			cur = y
		}
		if cur != nil {
			os = append(os, Outcome{st: cur, kind: oRet, val: in.newBytes(cur, nil)})
		}
		return os
	})
}

type intrin func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool)

var intrinsics = map[string]intrin{}

func def(name string, f intrin) { intrinsics[name] = f }

func tConstInt(v Value) (int, bool) {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		return 0, false
	}
	return int(t.sint()), true
}

func init() {
	const B = "(*math/big.Int)."
	// z.Op(x, y)
	two := func(name string, f func(a, b *BigV) *BigV) {
		def(B+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			in.big(st, a[0])
			st.store(a[0].(Ptr), f(in.big(st, a[1]), in.big(st, a[2])))
			return ret(st, a[0]), true
		})
	}
	one := func(name string, f func(a *BigV) *BigV) {
		def(B+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			in.big(st, a[0])
			st.store(a[0].(Ptr), f(in.big(st, a[1])))
			return ret(st, a[0]), true
		})
	}
	two("Add", bigAdd)
	two("Sub", bigSub)
	two("Mul", bigMul)
	two("And", func(a, b *BigV) *BigV { return bigBitop(a, b, Band) })
	two("Or", func(a, b *BigV) *BigV { return bigBitop(a, b, Bor) })
	two("Xor", func(a, b *BigV) *BigV { return bigBitop(a, b, Bxor) })
	two("AndNot", func(a, b *BigV) *BigV { return bigBitop(a, b, func(x, y *Term) *Term { return Band(x, Bnot(y)) }) })
	one("Not", func(a *BigV) *BigV { return &BigV{t: Bnot(a.t)} })
	one("Neg", bigNegV)
	one("Set", func(a *BigV) *BigV { return a })
	def(B+"Abs", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		return in.withSign(st, in.big(st, a[1]), func(st *State, b *BigV, neg bool) []Outcome {
			if neg {
				b = bigNegV(b)
			}
			st.store(a[0].(Ptr), b)
			return ret(st, a[0])
		}), true
	})
	// division: operands must be non-negative (or constants)
	div := func(name string, euclid bool, f func(in *Interp, st *State, a []Value, x, y *BigV, cq func(q, r *BigV)) Value, rem bool) {
		def(B+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			in.big(st, a[0])
			x, y := in.big(st, a[1]), in.big(st, a[2])
			var os []Outcome
			z, nz := in.split(st, y.isZeroT())
			if z != nil {
				os = append(os, Outcome{st: z, kind: oPanic, pv: &PanicV{msg: "division by zero", val: rtPanic(z, "division by zero").pv.val}})
			}
			if nz == nil {
				return os, true
			}
			if x.isConst() && y.isConst() {
				q, r := new(big.Int), new(big.Int)
				if euclid {
					q.DivMod(x.val(), y.val(), r)
				} else {
					q.QuoRem(x.val(), y.val(), r)
				}
				return append(os, Outcome{st: nz, kind: oRet, val: divStore(nz, name, a, bigC(q), bigC(r))}), true
			}
			os = append(os, in.withSign(nz, y, func(st *State, y *BigV, yneg bool) []Outcome {
				if yneg {
					unsup("division by a negative number")
				}
				return in.withSign(st, x, func(st *State, x *BigV, xneg bool) []Outcome {
					if !xneg {
						var q, r *BigV
						if name != "Mod" && name != "Rem" {
							q = bigDivNN(x, y)
						}
						if name != "Div" && name != "Quo" {
							r = in.bigModNN(st, x, y)
						}
						return ret(st, divStore(st, name, a, q, r))
					}
					ax := bigNegV(x)
					q, r := bigDivNN(ax, y), in.bigModNN(st, ax, y)
					if !euclid {
						return ret(st, divStore(st, name, a, bigNegV(q), bigNegV(r)))
					}
					rz := r.isZeroT()
					q2 := bigIte(rz, bigNegV(q), bigNegV(bigAdd(q, bigConst(1))))
					r2 := bigIte(rz, bigConst(0), bigSub(y, r))
					return ret(st, divStore(st, name, a, q2, r2))
				})
			})...)
			return os, true
		})
	}
	for _, n := range []string{"Div", "Mod", "DivMod"} {
		div(n, true, nil, false)
	}
	for _, n := range []string{"Quo", "Rem", "QuoRem"} {
		div(n, false, nil, false)
	}
	def(B+"SetBytes", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		bs := in.sliceBytes(st, a[1].(SliceV))
		v := bigConst(0)
		if len(bs) > 0 {
			v = bigU(Concat(bs...))
		}
		st.store(a[0].(Ptr), v)
		return ret(st, a[0]), true
	})
	def(B+"Bytes", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return in.bigBytes(st, in.big(st, a[0])), true
	})
	def(B+"FillBytes", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return in.withSign(st, in.big(st, a[0]), func(st *State, b *BigV, neg bool) []Outcome {
			if neg {
				b = bigNegV(b)
			}
			s := a[1].(SliceV)
			n := s.len
			m := b.mag(max(8*n, b.t.w))
			var os []Outcome
			fits := tTrue
			if m.w > 8*n {
				fits = Eq(Extract(m, m.w-1, 8*n), zeroBV(m.w-8*n))
			}
			x, y := in.split(st, fits)
			if y != nil {
				os = append(os, rtPanic(y, "math/big: buffer too small to fit value"))
			}
			if x != nil {
				vs := make([]Value, n)
				for i := range vs {
					vs[i] = Extract(m, 8*(n-i)-1, 8*(n-i-1))
				}
				in.setElems(x, s, 0, vs)
				os = append(os, Outcome{st: x, kind: oRet, val: s})
			}
			return os
		}), true
	})
	def("math/big.NewInt", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		t := a[0].(*Term)
		return ret(st, Ptr{obj: st.alloc(bigNorm(&BigV{t: t}))}), true
	})
	def(B+"SetInt64", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		st.store(a[0].(Ptr), bigNorm(&BigV{t: a[1].(*Term)}))
		return ret(st, a[0]), true
	})
	def(B+"SetUint64", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		st.store(a[0].(Ptr), bigU(a[1].(*Term)))
		return ret(st, a[0]), true
	})
	low64 := func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		b := in.big(st, a[0])
		return ret(st, Resize(b.ext(max(b.t.w, 64)), 64)), true
	}
	def(B+"Int64", low64)
	def(B+"Uint64", low64)
	def(B+"IsInt64", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		b := in.big(st, a[0])
		if b.t.w <= 64 {
			return ret(st, tTrue), true
		}
		return ret(st, Eq(Sext(Extract(b.t, 63, 0), b.t.w), b.t)), true
	})
	def(B+"IsUint64", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		b := in.big(st, a[0])
		if b.t.w <= 64 {
			return ret(st, Not(b.neg())), true
		}
		return ret(st, Eq(Zext(Extract(b.t, 63, 0), b.t.w), b.t)), true
	})
	def(B+"Sign", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		b := in.big(st, a[0])
		return ret(st, bigCmp(b, bigConst(0))), true
	})
	def(B+"Cmp", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, bigCmp(in.big(st, a[0]), in.big(st, a[1]))), true
	})
	def(B+"CmpAbs", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x, y := in.big(st, a[0]), in.big(st, a[1])
		if !x.nonneg() || !y.nonneg() {
			unsup("CmpAbs of signed")
		}
		return ret(st, bigCmp(x, y)), true
	})
	def(B+"BitLen", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return in.withSign(st, in.big(st, a[0]), func(st *State, b *BigV, neg bool) []Outcome {
			if neg {
				b = bigNegV(b)
			}
			return ret(st, bigBitLen(b))
		}), true
	})
	def(B+"Bit", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		b := in.big(st, a[0])
		i, ok := tConstInt(a[1])
		if !ok {
			unsup("symbolic bit index")
		}
		if i < 0 {
			return []Outcome{rtPanic(st, "negative bit index")}, true
		}
		if i >= b.t.w {
			i = b.t.w - 1
		}
		return ret(st, Zext(Extract(b.t, i, i), 64)), true
	})
	def(B+"SetBit", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		b := in.big(st, a[1])
		i, ok := tConstInt(a[2])
		if !ok || i < 0 {
			unsup("symbolic bit index")
		}
		v := a[3].(*Term)
		w := max(b.t.w, i+2)
		t := b.ext(w)
		parts := []*Term{Extract(t, w-1, i+1), Resize(v, 1)}
		if i > 0 {
			parts = append(parts, Extract(t, i-1, 0))
		}
		st.store(a[0].(Ptr), bigNorm(&BigV{t: Concat(parts...)}))
		return ret(st, a[0]), true
	})
	shift := func(name string, f func(b *BigV, n int) *BigV) {
		def(B+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			in.big(st, a[0])
			b := in.big(st, a[1])
			var os []Outcome
			for _, c := range in.concretize(st, a[2].(*Term), 600) {
				if c.v > 1<<16 {
					unsup("huge shift")
				}
				c.st.store(a[0].(Ptr), f(b, int(c.v)))
				os = append(os, Outcome{st: c.st, kind: oRet, val: a[0]})
			}
			return os, true
		})
	}
	shift("Lsh", bigLsh)
	shift("Rsh", bigRsh)
	def(B+"SetString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		s := a[1].(*Str)
		base, ok := tConstInt(a[2])
		if !ok || !s.isLit() {
			unsup("symbolic SetString")
		}
		v, ok := new(big.Int).SetString(s.lit(), base)
		if !ok {
			return ret(st, Tuple{Ptr{}, tFalse}), true
		}
		st.store(a[0].(Ptr), bigC(v))
		return ret(st, Tuple{a[0], tTrue}), true
	})
	txt := func(in *Interp, st *State, b *BigV, base int) ([]Outcome, bool) {
		if b.isConst() {
			return ret(st, litStr(b.val().Text(base))), true
		}
		unsup("text of a symbolic big.Int")
		return nil, true
	}
	def(B+"String", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) { return txt(in, st, in.big(st, a[0]), 10) })
	def(B+"Text", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		base, _ := tConstInt(a[1])
		b := in.big(st, a[0])
		if base == 16 && b.nonneg() && !b.isConst() {
			return in.hexText(st, b.mag(b.t.w), false, 1), true
		}
		return txt(in, st, b, base)
	})
	def(B+"Exp", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		x, y := in.big(st, a[1]), in.big(st, a[2])
		var m *BigV
		if p := a[3].(Ptr); p.obj != 0 {
			m = in.big(st, p)
			if m.isConst() && m.val().Sign() == 0 {
				m = nil
			}
		}
		if !y.isConst() {
			unsup("symbolic exponent")
		}
		if x.isConst() && (m == nil || m.isConst()) {
			var mv *big.Int
			if m != nil {
				mv = m.val()
			}
			st.store(a[0].(Ptr), bigC(new(big.Int).Exp(x.val(), y.val(), mv)))
			return ret(st, a[0]), true
		}
		if !x.nonneg() {
			unsup("power of a signed number")
		}
		e := y.val()
		if m != nil && m.isConst() && m.val().Cmp(secpP) == 0 && e.Cmp(sqrtExp) == 0 {
			if cx, ok := isCurveRHS(x); ok {
				xr := reduceP(cx)
				st.store(a[0].(Ptr), bigU(Ite(UF(ufHasRoot, xr), UF(ufLift, xr), UF(ufNoRoot, xr))))
				return ret(st, a[0]), true
			}
		}
		if e.Sign() < 0 || e.Cmp(big.NewInt(4)) > 0 {
			unsup("large exponent")
		}
		r := bigConst(1)
		for i := int64(0); i < e.Int64(); i++ {
			r = bigMul(r, x)
		}
		if m != nil {
			if !r.nonneg() || !m.nonneg() {
				unsup("signed modular power")
			}
			r = in.bigModNN(st, r, m)
		}
		st.store(a[0].(Ptr), r)
		return ret(st, a[0]), true
	})
	def(B+"ModSqrt", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		in.big(st, a[0])
		x, p := in.big(st, a[1]), in.big(st, a[2])
		if x.isConst() && p.isConst() {
			v := new(big.Int).ModSqrt(x.val(), p.val())
			if v == nil {
				return ret(st, Ptr{}), true
			}
			st.store(a[0].(Ptr), bigC(v))
			return ret(st, a[0]), true
		}
		if !p.isConst() || p.val().Cmp(secpP) != 0 {
			unsup("square root modulo another prime")
		}
		if cx, ok := isCurveRHS(x); ok {
			xr := reduceP(cx)
			return in.sqrtOut(st, a[0].(Ptr), UF(ufHasRoot, xr), UF(ufLift, xr)), true
		}
		if !x.nonneg() {
			unsup("square root of a signed number")
		}
		v := in.bigModNN(st, x, p).mag(256)
		return in.sqrtOut(st, a[0].(Ptr), UF(ufIsQR, v), UF(ufSqrt, v)), true
	})
	def(B+"ProbablyPrime", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		b := in.big(st, a[0])
		if !b.isConst() {
			unsup("ProbablyPrime")
		}
		return ret(st, Bool(b.val().ProbablyPrime(20))), true
	})
}

func (in *Interp) sqrtOut(st *State, z Ptr, has, root *Term) []Outcome {
	x, y := in.split(st, has)
	var os []Outcome
	if x != nil {
		x.store(z, bigU(root))
		os = append(os, Outcome{st: x, kind: oRet, val: z})
	}
	if y != nil {
		os = append(os, Outcome{st: y, kind: oRet, val: Ptr{}})
	}
	return os
}

func divStore(st *State, name string, a []Value, q, r *BigV) Value {
	switch name {
	case "Div", "Quo":
		st.store(a[0].(Ptr), q)
		return a[0]
	case "Mod", "Rem":
		st.store(a[0].(Ptr), r)
		return a[0]
	}
	st.store(a[0].(Ptr), q)
	st.store(a[3].(Ptr), r)
	return Tuple{a[0], a[3]}
}
