package main

// Hash-consed SMT terms over Bool and bit-vectors of any width, with an eager simplifier.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	OTable
	OUF
)

// Term is an immutable node. w == 0 means Bool.
type Term struct {
	id     int
	op     Op
	w      int
	args   []*Term
	c      uint64   // const value when w<=64
	b      *big.Int // const value when w>64
	hi, lo int
	name   string
	tbl    *Tbl
	leaves int // >0: a tree of ites with that many constant leaves
	lz     int // known leading zero bits
	hasUF  bool
}

// Tbl is a constant lookup table; indexes past the end read the last entry.
type Tbl struct {
	id   int
	ents []*Term
	w    int
	inj  bool // no entry occurs twice
}

type tkey struct {
	op      Op
	w       int
	a, b, c int
	k       uint64
	s       string
}

var (
	interned = map[tkey]*Term{}
	nextTerm = 1
	tblMap   = map[string]*Tbl{}
	varDecls = map[string]*Term{}
)

func mk(k tkey, f func() *Term) *Term {
	if t, ok := interned[k]; ok {
		return t
	}
	t := f()
	t.id = nextTerm
	nextTerm++
	t.op = k.op
	t.w = k.w
	t.lz = t.computeLZ()
	t.hasUF = t.op == OUF
	for _, a := range t.args {
		if a.hasUF {
			t.hasUF = true
			break
		}
	}
	if t.op == OConst {
		t.leaves = 1
	} else if t.op == OIte {
		if l, r := t.args[1].leaves, t.args[2].leaves; l > 0 && r > 0 && l+r <= 24 {
			t.leaves = l + r
		}
	}
	interned[k] = t
	return t
}

var tTrue, tFalse *Term

func init() {
	tFalse = mk(tkey{op: OConst, w: 0, k: 0}, func() *Term { return &Term{c: 0} })
	tTrue = mk(tkey{op: OConst, w: 0, k: 1}, func() *Term { return &Term{c: 1} })
}

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func maskw(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

var smallConst [65][257]*Term

func BV(w int, v uint64) *Term {
	if w > 64 {
		return BVBig(w, new(big.Int).SetUint64(v))
	}
	if w <= 0 {
		panic(fmt.Sprintf("BV width %d", w))
	}
	v &= maskw(w)
	if v <= 256 {
		if t := smallConst[w][v]; t != nil {
			return t
		}
	}
	t := mk(tkey{op: OConst, w: w, k: v}, func() *Term { return &Term{c: v} })
	if v <= 256 {
		smallConst[w][v] = t
	}
	return t
}

func BVBig(w int, v *big.Int) *Term {
	if v.Sign() < 0 || v.BitLen() > w {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		v = new(big.Int).Mod(v, m)
	}
	if w <= 64 {
		return BV(w, v.Uint64())
	}
	return mk(tkey{op: OConst, w: w, s: v.Text(62)}, func() *Term { return &Term{b: new(big.Int).Set(v)} })
}

func BVBytes(b []byte) *Term { return BVBig(8*len(b), new(big.Int).SetBytes(b)) }

func Var(name string, w int) *Term {
	if t, ok := varDecls[name]; ok {
		if t.w != w {
			panic("var redeclared with other width: " + name)
		}
		return t
	}
	t := mk(tkey{op: OVar, w: w, s: name}, func() *Term { return &Term{name: name} })
	varDecls[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) big() *big.Int {
	if t.w > 64 {
		return t.b
	}
	return new(big.Int).SetUint64(t.c)
}
func (t *Term) isZero() bool {
	if t.op != OConst {
		return false
	}
	if t.w > 64 {
		return t.b.Sign() == 0
	}
	return t.c == 0
}
func (t *Term) isOnes() bool {
	if t.op != OConst || t.w == 0 {
		return false
	}
	if t.w > 64 {
		return t.b.BitLen() == t.w && new(big.Int).Add(t.b, big.NewInt(1)).BitLen() == t.w+1
	}
	return t.c == maskw(t.w)
}

// sint is the signed value of a const of width <= 64.
func (t *Term) sint() int64 {
	v := t.c
	if t.w < 64 && v>>(uint(t.w)-1)&1 == 1 {
		v |= ^maskw(t.w)
	}
	return int64(v)
}

func (t *Term) computeLZ() int {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return 0
		}
		if t.w > 64 {
			return t.w - t.b.BitLen()
		}
		return t.w - bits.Len64(t.c)
	case OConcat:
		n := 0
		for _, a := range t.args {
			n += a.lz
			if a.lz < a.w {
				break
			}
		}
		return n
	case OIte:
		if t.w > 0 {
			return min(t.args[1].lz, t.args[2].lz)
		}
	case OTable:
		if t.w > 0 {
			m := t.w
			for _, e := range t.tbl.ents {
				m = min(m, e.lz)
			}
			return m
		}
	case OBand:
		return max(t.args[0].lz, t.args[1].lz)
	case OBor, OBxor:
		return min(t.args[0].lz, t.args[1].lz)
	case OUrem:
		return max(t.args[0].lz, func() int {
			if t.args[1].isConst() && !t.args[1].isZero() {
				return t.args[1].lz
			}
			return 0
		}())
	case OUdiv:
		return t.args[0].lz // x/0 = all ones excluded: callers guard
	case OAdd:
		m := min(t.args[0].lz, t.args[1].lz)
		if m > 0 {
			return m - 1
		}
	case OMul:
		k := t.args[0].lz + t.args[1].lz - t.w
		if k > 0 {
			return k
		}
	case OLshr:
		return t.args[0].lz
	}
	return 0
}

func ids(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(strconv.Itoa(t.id))
		sb.WriteByte(',')
	}
	return sb.String()
}

func mkTbl(ents []*Term) *Tbl {
	k := ids(ents)
	if t, ok := tblMap[k]; ok {
		return t
	}
	seen := map[*Term]bool{}
	for _, e := range ents {
		seen[e] = true
	}
	t := &Tbl{id: len(tblMap) + 1, ents: ents, w: ents[0].w, inj: len(seen) == len(ents)}
	tblMap[k] = t
	return t
}

const maxTable = 1 << 14

// Table reads ents[idx]; idx past the end reads the last entry.
func Table(idx *Term, ents []*Term) *Term {
	if idx.isConst() {
		i := idx.big()
		if !i.IsInt64() || i.Int64() >= int64(len(ents)) {
			return ents[len(ents)-1]
		}
		return ents[i.Int64()]
	}
	// trim index width
	k := bits.Len(uint(len(ents) - 1))
	if k == 0 {
		return ents[0]
	}
	if idx.w > k {
		if idx.lz >= idx.w-k {
			idx = Extract(idx, k-1, 0)
			return Table(idx, ents)
		}
	} else if idx.w < k {
		ents = ents[:1<<uint(idx.w)]
		k = idx.w
	}
	// composition of tables
	if idx.op == OTable {
		n := make([]*Term, len(idx.tbl.ents))
		for i, e := range idx.tbl.ents {
			n[i] = Table(e, ents)
		}
		return Table(idx.args[0], n)
	}
	if idx.leaves > 0 {
		return mapLeaves(idx, func(c *Term) *Term { return Table(c, ents) })
	}
	same := true
	for _, e := range ents {
		if e != ents[0] {
			same = false
			break
		}
	}
	if same {
		return ents[0]
	}
	w := ents[0].w
	// bool one-hot
	if w == 0 {
		nt, ti, nf, fi := 0, 0, 0, 0
		for i, e := range ents {
			if e == tTrue {
				nt++
				ti = i
			} else {
				nf++
				fi = i
			}
		}
		full := len(ents) == 1<<uint(k) && idx.w == k
		if nt == 1 && (full || ti != len(ents)-1) {
			return Eq(idx, BV(idx.w, uint64(ti)))
		}
		if nf == 1 && (full || fi != len(ents)-1) {
			return Not(Eq(idx, BV(idx.w, uint64(fi))))
		}
		// monotone threshold: true exactly below / from some index
		sw := 0
		at := 0
		for i := 1; i < len(ents); i++ {
			if ents[i] != ents[i-1] {
				sw++
				at = i
			}
		}
		if sw == 1 {
			lt := Ult(idx, BV(idx.w, uint64(at)))
			if ents[0] == tTrue {
				return lt
			}
			return Not(lt)
		}
	} else if idx.w <= w && len(ents) == 1<<uint(k) && idx.w == k {
		id := true
		for i, e := range ents {
			if w > 64 {
				if e.b.Cmp(big.NewInt(int64(i))) != 0 {
					id = false
					break
				}
			} else if e.c != uint64(i) {
				id = false
				break
			}
		}
		if id {
			return Zext(idx, w)
		}
	}
	tb := mkTbl(ents)
	return mk(tkey{op: OTable, w: w, a: idx.id, b: tb.id}, func() *Term { return &Term{args: []*Term{idx}, tbl: tb} })
}

func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OConst {
		return f(t)
	}
	return Ite(t.args[0], mapLeaves(t.args[1], f), mapLeaves(t.args[2], f))
}

// lift1 pushes a unary function on constants into tables and constant-leaf ites.
func lift1(a *Term, f func(*Term) *Term) (*Term, bool) {
	if a.op == OTable {
		n := make([]*Term, len(a.tbl.ents))
		for i, e := range a.tbl.ents {
			n[i] = f(e)
		}
		return Table(a.args[0], n), true
	}
	if a.op == OIte && a.leaves > 0 {
		return mapLeaves(a, f), true
	}
	return nil, false
}

func lift2(a, b *Term, f func(a, b *Term) *Term) (*Term, bool) {
	if b.isConst() {
		if r, ok := lift1(a, func(x *Term) *Term { return f(x, b) }); ok {
			return r, true
		}
	} else if a.isConst() {
		if r, ok := lift1(b, func(x *Term) *Term { return f(a, x) }); ok {
			return r, true
		}
	} else if a.op == OTable && b.op == OTable && a.args[0] == b.args[0] {
		n := max(len(a.tbl.ents), len(b.tbl.ents))
		ents := make([]*Term, n)
		for i := range ents {
			ents[i] = f(a.tbl.ents[min(i, len(a.tbl.ents)-1)], b.tbl.ents[min(i, len(b.tbl.ents)-1)])
		}
		return Table(a.args[0], ents), true
	} else if a.op == OTable && b.w <= 64 && a.args[0] == b {
		// f(T[i], i)
		ents := make([]*Term, len(a.tbl.ents))
		if len(ents) == 1<<uint(min(b.w, 20)) {
			for i := range ents {
				ents[i] = f(a.tbl.ents[i], BV(b.w, uint64(i)))
			}
			return Table(b, ents), true
		}
	} else if a.op == OIte && b.op == OIte && a.leaves > 0 && b.leaves > 0 && a.args[0] == b.args[0] {
		return Ite(a.args[0], f(a.args[1], b.args[1]), f(a.args[2], b.args[2])), true
	}
	return nil, false
}

func Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return Bool(a.c == 0)
	case ONot:
		return a.args[0]
	case OTable:
		r, _ := lift1(a, Not)
		return r
	}
	if a.op == OIte && a.leaves > 0 {
		return mapLeaves(a, Not)
	}
	return mk(tkey{op: ONot, a: a.id}, func() *Term { return &Term{args: []*Term{a}} })
}

func nary(op Op, ts []*Term, unit, zero *Term) *Term {
	var flat []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		flat = append(flat, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	for _, t := range flat {
		if t.op == ONot && seen[t.args[0].id] {
			return zero
		}
	}
	if len(flat) == 0 {
		return unit
	}
	// merge bool tables on the same index
	byIdx := map[int]int{}
	changed := false
	for i := 0; i < len(flat); i++ {
		t := flat[i]
		if t != nil && t.op == OTable {
			if j, ok := byIdx[t.args[0].id]; ok {
				f := func(a, b *Term) *Term {
					if op == OAnd {
						return Bool(a.c&b.c == 1)
					}
					return Bool(a.c|b.c == 1)
				}
				r, _ := lift2(flat[j], t, f)
				flat[j] = r
				flat[i] = nil
				changed = true
				if r.op != OTable {
					delete(byIdx, t.args[0].id)
				}
			} else {
				byIdx[t.args[0].id] = i
			}
		}
	}
	if changed {
		var n []*Term
		for _, t := range flat {
			if t != nil {
				n = append(n, t)
			}
		}
		return nary(op, n, unit, zero)
	}
	if len(flat) == 1 {
		return flat[0]
	}
	if op == OOr && len(flat) == 2 {
		// (A and c) or (A and not c) = A ; A or (not A and B) = A or B
		if r := orFactor(flat[0], flat[1]); r != nil {
			return r
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return mk(tkey{op: op, s: ids(flat)}, func() *Term { return &Term{args: flat} })
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func orFactor(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	if len(ca) == 1 && len(cb) == 1 {
		return nil
	}
	inB := map[int]bool{}
	for _, t := range cb {
		inB[t.id] = true
	}
	var common, ra, rb []*Term
	inC := map[int]bool{}
	for _, t := range ca {
		if inB[t.id] {
			common = append(common, t)
			inC[t.id] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !inC[t.id] {
			rb = append(rb, t)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return And(common...)
	}
	if len(common) == 0 {
		// A or (¬A and B)
		if len(ca) == 1 && inB[Not(ca[0]).id] {
			return Or(ca[0], And(dropT(cb, Not(ca[0]))...))
		}
		if len(cb) == 1 {
			n := Not(cb[0])
			for _, t := range ca {
				if t == n {
					return Or(cb[0], And(dropT(ca, n)...))
				}
			}
		}
		return nil
	}
	return And(append(append([]*Term{}, common...), Or(And(ra...), And(rb...)))...)
}

func dropT(ts []*Term, d *Term) []*Term {
	var r []*Term
	for _, t := range ts {
		if t != d {
			r = append(r, t)
		}
	}
	return r
}

func And(ts ...*Term) *Term { return nary(OAnd, ts, tTrue, tFalse) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts, tFalse, tTrue) }
func Implies(a, b *Term) *Term {
	return Or(Not(a), b)
}

func Ite(c, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
		return mk(tkey{op: OIte, w: 0, a: c.id, b: a.id, c: b.id}, func() *Term { return &Term{args: []*Term{c, a, b}} })
	}
	// ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	// two constants that differ in the bit tested: 2 + bit
	if a.w > 1 && a.isConst() && b.isConst() && c.op == OEq && c.args[0].w == 1 {
		d := new(big.Int).Xor(a.big(), b.big())
		if i := d.BitLen() - 1; d.TrailingZeroBits() == uint(i) {
			r := Ite(c, Extract(a, i, i), Extract(b, i, i))
			if i > 0 {
				r = Concat(r, Extract(a, i-1, 0))
			}
			if i < a.w-1 {
				r = Concat(Extract(a, a.w-1, i+1), r)
			}
			return r
		}
	}
	// table selected by equality on the same index
	if c.op == OTable || a.op == OTable || b.op == OTable {
		if r := iteTable(c, a, b); r != nil {
			return r
		}
	}
	// bit == 0 ? 0 : 1
	if a.w == 1 && c.op == OEq && a.isConst() && b.isConst() && a != b {
		for i := 0; i < 2; i++ {
			if k, x := c.args[i], c.args[1-i]; k.isConst() && x.w == 1 {
				if k == a {
					return x
				}
				return Bnot(x)
			}
		}
	}
	// x == k ? k : x  and the like
	if c.op == OEq && c.args[0] == b && c.args[1] == a {
		return b
	}
	if c.op == OEq && c.args[1] == b && c.args[0] == a {
		return b
	}
	// a is b with what c fixes filled in
	if c.op == OEq || c.op == OAnd {
		if fixesTo(c, a, b) {
			return b
		}
	}
	// piecewise factoring of concats
	if a.op == OConcat || b.op == OConcat {
		pa, pb := alignPieces(a, b)
		if pa != nil && len(pa) > 1 {
			any := false
			for i := range pa {
				if pa[i] == pb[i] {
					any = true
					break
				}
			}
			if any {
				out := make([]*Term, 0, len(pa))
				// group runs of different pieces
				for i := 0; i < len(pa); {
					if pa[i] == pb[i] {
						out = append(out, pa[i])
						i++
						continue
					}
					j := i
					for j < len(pa) && pa[j] != pb[j] {
						j++
					}
					out = append(out, Ite(c, Concat(pa[i:j]...), Concat(pb[i:j]...)))
					i = j
				}
				return Concat(out...)
			}
		}
	}
	// ite(x < 2^m, 0, (x >> k)...) where the selected bits are zero anyway
	if a.isZero() && c.op == OUlt && c.args[1].isConst() && b.op == OExtract && b.args[0] == c.args[0] {
		m := c.args[1].big()
		if m.Sign() > 0 && b.lo >= m.BitLen()-1 && new(big.Int).Lsh(big.NewInt(1), uint(m.BitLen()-1)).Cmp(m) == 0 {
			return b
		}
	}
	return mk(tkey{op: OIte, w: a.w, a: c.id, b: a.id, c: b.id}, func() *Term { return &Term{args: []*Term{c, a, b}} })
}

func iteTable(c, a, b *Term) *Term {
	var idx *Term
	n := 0
	ok := func(t *Term) bool {
		if t.isConst() {
			return true
		}
		if t.op == OTable {
			if idx == nil {
				idx = t.args[0]
			}
			n = max(n, len(t.tbl.ents))
			return idx == t.args[0]
		}
		return false
	}
	if !ok(a) || !ok(b) {
		return nil
	}
	var cf func(i int) *Term
	switch {
	case c.op == OTable:
		if !ok(c) {
			return nil
		}
		cf = func(i int) *Term { return c.tbl.ents[min(i, len(c.tbl.ents)-1)] }
	case c.op == OEq && idx != nil && c.args[0] == idx && c.args[1].isConst() && idx.w <= 64:
		cf = func(i int) *Term { return Bool(c.args[1].c == uint64(i)) }
		if n < 1<<uint(min(idx.w, 20)) {
			return nil
		}
	case c.op == OEq && idx != nil && c.args[1] == idx && c.args[0].isConst() && idx.w <= 64:
		cf = func(i int) *Term { return Bool(c.args[0].c == uint64(i)) }
		if n < 1<<uint(min(idx.w, 20)) {
			return nil
		}
	default:
		return nil
	}
	at := func(t *Term, i int) *Term {
		if t.isConst() {
			return t
		}
		return t.tbl.ents[min(i, len(t.tbl.ents)-1)]
	}
	ents := make([]*Term, n)
	for i := range ents {
		if cf(i) == tTrue {
			ents[i] = at(a, i)
		} else {
			ents[i] = at(b, i)
		}
	}
	return Table(idx, ents)
}

// fixesTo reports whether the equalities with constants in c turn b into a.
func fixesTo(c, a, b *Term) bool {
	cs := []*Term{c}
	if c.op == OAnd {
		cs = c.args
	}
	pa, pb := alignPieces(a, b)
	if len(pa) > 80 {
		return false
	}
	known := func(p *Term) *Term {
		base, lo := p, 0
		if p.op == OExtract {
			base, lo = p.args[0], p.lo
		}
		var parts map[int]*Term
		for _, q := range cs {
			if q.op != OEq || q.args[0].w == 0 {
				continue
			}
			k, x := q.args[0], q.args[1]
			if !k.isConst() {
				k, x = x, k
			}
			if !k.isConst() {
				continue
			}
			if x == p {
				return k
			}
			xb, xlo := x, 0
			if x.op == OExtract {
				xb, xlo = x.args[0], x.lo
			}
			if xb != base {
				continue
			}
			from, to := max(lo, xlo), min(lo+p.w, xlo+x.w)
			if from == lo && to == lo+p.w {
				return Extract(k, to-1-xlo, from-xlo)
			}
			if from < to {
				if parts == nil {
					parts = map[int]*Term{}
				}
				parts[from] = Extract(k, to-1-xlo, from-xlo)
			}
		}
		if parts == nil {
			return nil
		}
		// pieces known separately
		var ps []*Term
		for at := lo; at < lo+p.w; {
			q := parts[at]
			if q == nil {
				return nil
			}
			ps = append(ps, q)
			at += q.w
		}
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
		return Concat(ps...)
	}
	for i := range pa {
		if pa[i] == pb[i] {
			continue
		}
		if !pa[i].isConst() {
			return false
		}
		if k := known(pb[i]); k != pa[i] {
			return false
		}
	}
	return true
}

func piecesOf(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// alignPieces splits two equally wide terms at the union of their piece boundaries; a
// piece that is neither constant nor a concat part is split only by cheap extraction.
func alignPieces(a, b *Term) ([]*Term, []*Term) {
	pa, pb := append([]*Term{}, piecesOf(a)...), append([]*Term{}, piecesOf(b)...)
	var ra, rb []*Term
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		switch {
		case x.w == y.w:
			ra, rb = append(ra, x), append(rb, y)
			pa, pb = pa[1:], pb[1:]
		case x.w > y.w:
			ra, rb = append(ra, Extract(x, x.w-1, x.w-y.w)), append(rb, y)
			pa[0] = Extract(x, x.w-y.w-1, 0)
			pb = pb[1:]
		default:
			ra, rb = append(ra, x), append(rb, Extract(y, y.w-1, y.w-x.w))
			pb[0] = Extract(y, y.w-x.w-1, 0)
			pa = pa[1:]
		}
	}
	return ra, rb
}

func Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk(tkey{op: OEq, a: a.id, b: b.id}, func() *Term { return &Term{args: []*Term{a, b}} })
	}
	if r, ok := lift2(a, b, Eq); ok {
		return r
	}
	if a.op == OTable && b.op == OTable && a.tbl == b.tbl && a.tbl.inj && a.args[0].w == b.args[0].w &&
		a.args[0].w < 15 && len(a.tbl.ents) == 1<<uint(a.args[0].w) {
		return Eq(a.args[0], b.args[0])
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := alignPieces(a, b)
		cheap := true
		if !(a.op == OConcat && b.op == OConcat) && !a.isConst() && !b.isConst() {
			// splitting an opaque term is only useful when a side has constant pieces
			cheap = false
			for i := range pa {
				if pa[i].isConst() || pb[i].isConst() || pa[i] == pb[i] {
					cheap = true
				}
			}
			// or when everything is an extract of one base
		}
		if cheap && len(pa) > 1 {
			cs := make([]*Term, len(pa))
			for i := range pa {
				cs[i] = Eq(pa[i], pb[i])
				if cs[i] == tFalse {
					return tFalse
				}
			}
			return And(cs...)
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		switch b.op {
		case OAdd:
			if b.args[1].isConst() {
				return Eq(b.args[0], Sub(a, b.args[1]))
			}
		case OBxor:
			if b.args[1].isConst() {
				return Eq(b.args[0], Bxor(a, b.args[1]))
			}
		case OIte:
			// push equality with a constant into an ite with one constant branch
			if b.args[1].isConst() || b.args[2].isConst() {
				return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
			}
		}
		if lo, hi := urange(b, 4); a.big().Cmp(lo) < 0 || a.big().Cmp(hi) > 0 {
			return tFalse
		}
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(tkey{op: OEq, a: a.id, b: b.id}, func() *Term { return &Term{args: []*Term{a, b}} })
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// urange gives conservative unsigned bounds.
func urange(t *Term, depth int) (*big.Int, *big.Int) {
	if t.isConst() {
		v := t.big()
		return v, v
	}
	if t.op == OTable {
		lo, hi := t.tbl.ents[0].big(), t.tbl.ents[0].big()
		for _, e := range t.tbl.ents {
			v := e.big()
			if v.Cmp(lo) < 0 {
				lo = v
			}
			if v.Cmp(hi) > 0 {
				hi = v
			}
		}
		return lo, hi
	}
	if t.op == OIte && depth > 0 {
		l1, h1 := urange(t.args[1], depth-1)
		l2, h2 := urange(t.args[2], depth-1)
		if c := t.args[0]; c.op == OUlt && c.args[0] == t.args[1] && c.args[1].isConst() {
			// one conditional subtraction: x < m ? x : x - m
			m := c.args[1].big()
			if m.Sign() > 0 && Sub(c.args[0], c.args[1]) == t.args[2] {
				h2 = new(big.Int).Sub(h1, m)
				l2 = new(big.Int)
				if m1 := new(big.Int).Sub(m, big.NewInt(1)); h1.Cmp(m1) > 0 {
					h1 = m1
				}
				if h2.Sign() < 0 {
					h2 = new(big.Int)
				}
			}
		}
		if l2.Cmp(l1) < 0 {
			l1 = l2
		}
		if h2.Cmp(h1) > 0 {
			h1 = h2
		}
		return l1, h1
	}
	if t.op == OConcat && depth > 0 {
		lo, hi := new(big.Int), new(big.Int)
		for _, p := range t.args {
			l, h := urange(p, depth-1)
			lo.Lsh(lo, uint(p.w)).Or(lo, l)
			hi.Lsh(hi, uint(p.w)).Or(hi, h)
		}
		return lo, hi
	}
	if t.op == OAdd && depth > 0 {
		l1, h1 := urange(t.args[0], depth-1)
		l2, h2 := urange(t.args[1], depth-1)
		h := new(big.Int).Add(h1, h2)
		if h.BitLen() <= t.w {
			return new(big.Int).Add(l1, l2), h
		}
	}
	if t.op == OUrem && t.args[1].isConst() && !t.args[1].isZero() {
		return new(big.Int), new(big.Int).Sub(t.args[1].big(), big.NewInt(1))
	}
	if t.op == OMul && depth > 0 {
		l1, h1 := urange(t.args[0], depth-1)
		l2, h2 := urange(t.args[1], depth-1)
		h := new(big.Int).Mul(h1, h2)
		if h.BitLen() <= t.w {
			return new(big.Int).Mul(l1, l2), h
		}
	}
	return new(big.Int), new(big.Int).Sub(pow2(t.w-t.lz), big.NewInt(1))
}

func Ult(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(a.big().Cmp(b.big()) < 0)
	}
	if b.isZero() || a.isOnes() {
		return tFalse
	}
	if r, ok := lift2(a, b, Ult); ok {
		return r
	}
	la, ha := urange(a, 4)
	lb, hb := urange(b, 4)
	if ha.Cmp(lb) < 0 {
		return tTrue
	}
	if la.Cmp(hb) >= 0 {
		return tFalse
	}
	if k := min(a.lz, b.lz); k > 0 && k < a.w {
		return Ult(Extract(a, a.w-1-k, 0), Extract(b, b.w-1-k, 0))
	}
	if b.isConst() && b.w <= 64 && b.c == 1 {
		return Eq(a, BV(a.w, 0))
	}
	if a.isZero() {
		return Not(Eq(b, BV(b.w, 0)))
	}
	// push into ite with a constant branch against a constant
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return Ite(a.args[0], Ult(a.args[1], b), Ult(a.args[2], b))
	}
	if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return Ite(b.args[0], Ult(a, b.args[1]), Ult(a, b.args[2]))
	}
	// power-of-two thresholds are tests of the upper bits
	if b.isConst() {
		v := b.big()
		if k := v.BitLen() - 1; k > 0 && v.TrailingZeroBits() == uint(k) {
			return Eq(Extract(a, a.w-1, k), zeroBV(a.w-k))
		}
	}
	// drop equal low parts: concat(x, low) < concat(c, 0)
	if b.isConst() && a.op == OConcat {
		last := a.args[len(a.args)-1]
		if b.big().TrailingZeroBits() >= uint(last.w) {
			return Ult(Extract(a, a.w-1, last.w), Extract(b, b.w-1, last.w))
		}
	}
	return mk(tkey{op: OUlt, a: a.id, b: b.id}, func() *Term { return &Term{args: []*Term{a, b}} })
}

func zeroBV(w int) *Term { return BVBig(w, new(big.Int)) }

func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }
func Slt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(signedBig(a).Cmp(signedBig(b)) < 0)
	}
	if r, ok := lift2(a, b, Slt); ok {
		return r
	}
	nonneg := func(t *Term) bool { return t.lz >= 1 }
	neg := func(t *Term) bool { return t.isConst() && t.big().Bit(t.w-1) == 1 }
	if nonneg(a) && nonneg(b) {
		return Ult(a, b)
	}
	if neg(a) && nonneg(b) {
		return tTrue
	}
	if nonneg(a) && neg(b) {
		return tFalse
	}
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return Ite(a.args[0], Slt(a.args[1], b), Slt(a.args[2], b))
	}
	if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return Ite(b.args[0], Slt(a, b.args[1]), Slt(a, b.args[2]))
	}
	if b.isZero() {
		return Eq(Extract(a, a.w-1, a.w-1), BV(1, 1))
	}
	return mk(tkey{op: OSlt, a: a.id, b: b.id}, func() *Term { return &Term{args: []*Term{a, b}} })
}
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

func signedBig(t *Term) *big.Int {
	v := new(big.Int).Set(t.big())
	if v.Bit(t.w-1) == 1 {
		v.Sub(v, pow2(t.w))
	}
	return v
}

func bin(op Op, a, b *Term) *Term {
	return mk(tkey{op: op, w: a.w, a: a.id, b: b.id}, func() *Term { return &Term{args: []*Term{a, b}} })
}

// disjoint reports whether a and b have no bit position where both may be one.
func disjointPieces(a, b *Term) bool {
	if a.op != OConcat && b.op != OConcat {
		return false
	}
	pa, pb := alignPieces(a, b)
	for i := range pa {
		if !pa[i].isZero() && !pb[i].isZero() {
			return false
		}
	}
	return true
}

func Add(a, b *Term) *Term {
	if a.w != b.w {
		panic("add width")
	}
	if a.isConst() && b.isConst() {
		if a.w <= 64 {
			return BV(a.w, a.c+b.c)
		}
		return BVBig(a.w, new(big.Int).Add(a.b, b.b))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if r, ok := lift2(a, b, Add); ok {
		return r
	}
	if b.isConst() && a.op == OAdd && a.args[1].isConst() {
		return Add(a.args[0], Add(a.args[1], b))
	}
	// a constant that leaves the low bits alone
	if b.isConst() && a.op == OConcat {
		lo := a.args[len(a.args)-1]
		if lo.w < a.w && int(b.big().TrailingZeroBits()) >= lo.w {
			return Concat(Add(Extract(a, a.w-1, lo.w), Extract(b, b.w-1, lo.w)), lo)
		}
	}
	if a.op == OSub && a.args[1] == b {
		return a.args[0]
	}
	if b.op == OSub && b.args[1] == a {
		return b.args[0]
	}
	if disjointPieces(a, b) {
		return Bor(a, b)
	}
	if !b.isConst() && a.op == OAdd && a.args[1].isConst() {
		return Add(Add(a.args[0], b), a.args[1])
	}
	if !a.isConst() && b.op == OAdd && b.args[1].isConst() {
		return Add(Add(a, b.args[0]), b.args[1])
	}
	// narrow: both have leading zeros
	if k := min(a.lz, b.lz); k > 8 && a.w > 64 {
		n := a.w - k + 1
		return Zext(Add(Extract(a, n-1, 0), Extract(b, n-1, 0)), a.w)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return bin(OAdd, a, b)
}

func Neg(a *Term) *Term { return Sub(zeroBV(a.w), a) }

func Sub(a, b *Term) *Term {
	if a == b {
		return zeroBV(a.w)
	}
	if b.isConst() {
		if a.isConst() && a.w <= 64 {
			return BV(a.w, a.c-b.c)
		}
		return Add(a, BVBig(b.w, new(big.Int).Neg(b.big())))
	}
	if r, ok := lift2(a, b, Sub); ok {
		return r
	}
	if a.op == OAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return bin(OSub, a, b)
}

func Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if a.w <= 64 {
			return BV(a.w, a.c*b.c)
		}
		return BVBig(a.w, new(big.Int).Mul(a.b, b.b))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.isZero() {
			return b
		}
		v := b.big()
		if k := v.BitLen() - 1; v.TrailingZeroBits() == uint(k) {
			return shlC(a, k)
		}
	}
	if r, ok := lift2(a, b, Mul); ok {
		return r
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return bin(OMul, a, b)
}

func Udiv(a, b *Term) *Term { // b != 0 assumed by callers
	if a.isConst() && b.isConst() {
		if b.isZero() {
			return BVBig(a.w, new(big.Int).Sub(pow2(a.w), big.NewInt(1)))
		}
		return BVBig(a.w, new(big.Int).Quo(a.big(), b.big()))
	}
	if b.isConst() && !b.isZero() {
		v := b.big()
		if k := v.BitLen() - 1; v.TrailingZeroBits() == uint(k) {
			return lshrC(a, k)
		}
		_, hi := urange(a, 4)
		if hi.Cmp(v) < 0 {
			return zeroBV(a.w)
		}
	}
	if r, ok := lift2(a, b, Udiv); ok {
		return r
	}
	return bin(OUdiv, a, b)
}

func Urem(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if b.isZero() {
			return a
		}
		return BVBig(a.w, new(big.Int).Rem(a.big(), b.big()))
	}
	if b.isConst() && !b.isZero() {
		v := b.big()
		if k := v.BitLen() - 1; v.TrailingZeroBits() == uint(k) {
			if k == 0 {
				return zeroBV(a.w)
			}
			return Zext(Extract(a, k-1, 0), a.w)
		}
		_, hi := urange(a, 4)
		if hi.Cmp(v) < 0 {
			return a
		}
		q := new(big.Int).Quo(hi, v)
		if q.IsInt64() && q.Int64() <= 3 && a.w > 16 {
			// a - floor(a/b)*b with a quotient of at most 3
			r := a
			for i := int64(1); i <= q.Int64(); i++ {
				m := BVBig(a.w, new(big.Int).Mul(v, big.NewInt(i)))
				r = Ite(Ult(a, m), r, Sub(a, m))
			}
			return r
		}
	}
	if r, ok := lift2(a, b, Urem); ok {
		return r
	}
	return bin(OUrem, a, b)
}

func Sdiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && !b.isZero() {
		return BVBig(a.w, new(big.Int).Quo(signedBig(a), signedBig(b)))
	}
	if a.lz >= 1 && b.lz >= 1 {
		return Udiv(a, b)
	}
	if r, ok := lift2(a, b, Sdiv); ok {
		return r
	}
	return bin(OSdiv, a, b)
}

func Srem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && !b.isZero() {
		return BVBig(a.w, new(big.Int).Rem(signedBig(a), signedBig(b)))
	}
	if a.lz >= 1 && b.lz >= 1 {
		return Urem(a, b)
	}
	if b.isConst() && b.lz >= 1 {
		// a % 2^k for signed a
		v := b.big()
		if k := v.BitLen() - 1; v.TrailingZeroBits() == uint(k) && k >= 1 {
			low := Zext(Extract(a, k-1, 0), a.w)
			neg := Eq(Extract(a, a.w-1, a.w-1), BV(1, 1))
			lowz := Eq(low, zeroBV(a.w))
			return Ite(And(neg, Not(lowz)), Sub(low, b), low)
		}
	}
	if r, ok := lift2(a, b, Srem); ok {
		return r
	}
	return bin(OSrem, a, b)
}

func maskPieces(a *Term, m *big.Int) (*Term, bool) {
	// a & m as a concat of extracts and zeros, if m has few runs
	type run struct {
		hi, lo int
		one    bool
	}
	var runs []run
	for i := a.w - 1; i >= 0; {
		bit := m.Bit(i)
		j := i
		for j >= 0 && m.Bit(j) == bit {
			j--
		}
		runs = append(runs, run{i, j + 1, bit == 1})
		i = j
		if len(runs) > 12 {
			return nil, false
		}
	}
	ps := make([]*Term, len(runs))
	for i, r := range runs {
		if r.one {
			ps[i] = Extract(a, r.hi, r.lo)
		} else {
			ps[i] = zeroBV(r.hi - r.lo + 1)
		}
	}
	return Concat(ps...), true
}

func bitwise(op Op, a, b *Term, f func(x, y *big.Int) *big.Int, self func(a, b *Term) *Term) *Term {
	if a.isConst() && b.isConst() {
		return BVBig(a.w, f(a.big(), b.big()))
	}
	if r, ok := lift2(a, b, self); ok {
		return r
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := alignPieces(a, b)
		useful := false
		for i := range pa {
			if pa[i].isZero() || pb[i].isZero() || pa[i].isOnes() || pb[i].isOnes() || pa[i] == pb[i] {
				useful = true
			}
		}
		if useful && len(pa) > 1 {
			out := make([]*Term, len(pa))
			for i := range pa {
				out[i] = self(pa[i], pb[i])
			}
			return Concat(out...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.isConst() {
		a, b = b, a
	}
	return bin(op, a, b)
}

func Band(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isZero() {
		return b
	}
	if b.isOnes() {
		return a
	}
	if b.isConst() && !a.isConst() {
		if r, ok := lift1(a, func(x *Term) *Term { return Band(x, b) }); ok {
			return r
		}
		if r, ok := maskPieces(a, b.big()); ok {
			return r
		}
	}
	return bitwise(OBand, a, b, func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) }, Band)
}

func Bor(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if a.isZero() {
		return b
	}
	if b.isOnes() {
		return b
	}
	return bitwise(OBor, a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Or(x, y) }, Bor)
}

func Bxor(a, b *Term) *Term {
	if a == b {
		return zeroBV(a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if a.isZero() {
		return b
	}
	if b.isConst() && a.op == OBxor && a.args[1].isConst() {
		return Bxor(a.args[0], Bxor(a.args[1], b))
	}
	return bitwise(OBxor, a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Xor(x, y) }, Bxor)
}

func Bnot(a *Term) *Term {
	return Bxor(a, BVBig(a.w, new(big.Int).Sub(pow2(a.w), big.NewInt(1))))
}

func shlC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return zeroBV(a.w)
	}
	return Concat(Extract(a, a.w-1-k, 0), zeroBV(k))
}
func lshrC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return zeroBV(a.w)
	}
	return Concat(zeroBV(k), Extract(a, a.w-1, k))
}

func Shl(a, b *Term) *Term {
	if b.isConst() {
		if !b.big().IsInt64() || b.big().Int64() >= int64(a.w) {
			return zeroBV(a.w)
		}
		return shlC(a, int(b.big().Int64()))
	}
	if r, ok := lift1(b, func(x *Term) *Term { return Shl(a, x) }); ok && a.isConst() {
		return r
	}
	return bin(OShl, a, b)
}
func Lshr(a, b *Term) *Term {
	if b.isConst() {
		if !b.big().IsInt64() || b.big().Int64() >= int64(a.w) {
			return zeroBV(a.w)
		}
		return lshrC(a, int(b.big().Int64()))
	}
	return bin(OLshr, a, b)
}
func Ashr(a, b *Term) *Term {
	if a.lz >= 1 {
		return Lshr(a, b)
	}
	if b.isConst() {
		k := a.w - 1
		if b.big().IsInt64() && b.big().Int64() < int64(k) {
			k = int(b.big().Int64())
		}
		if k == 0 {
			return a
		}
		return Sext(Extract(a, a.w-1, k), a.w)
	}
	return bin(OAshr, a, b)
}

func Concat(ts ...*Term) *Term {
	var flat []*Term
	for _, t := range ts {
		if t.op == OConcat {
			flat = append(flat, t.args...)
		} else {
			flat = append(flat, t)
		}
	}
	// merge adjacent constants and adjacent extracts
	var out []*Term
	for _, t := range flat {
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.isConst() && t.isConst() {
				v := new(big.Int).Lsh(p.big(), uint(t.w))
				out[n-1] = BVBig(p.w+t.w, v.Or(v, t.big()))
				continue
			}
			if p.op == OExtract && t.op == OExtract && p.args[0] == t.args[0] && p.lo == t.hi+1 {
				out[n-1] = Extract(p.args[0], p.hi, t.lo)
				if out[n-1].op == OConcat { // cannot happen for opaque bases
					return Concat(append(append([]*Term{}, out...), flat[len(flat):]...)...)
				}
				continue
			}
			if p.op == OIte && t.op == OIte && p.args[0] == t.args[0] {
				m := Ite(p.args[0], Concat(p.args[1], t.args[1]), Concat(p.args[2], t.args[2]))
				if m.op != OConcat {
					out[n-1] = m
					continue
				}
			}
		}
		out = append(out, t)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, t := range out {
		w += t.w
	}
	// zero prefix plus table/ite of constants: lift
	if len(out) == 2 && out[0].isConst() {
		if out[1].op == OTable {
			r, _ := lift1(out[1], func(x *Term) *Term { return Concat(out[0], x) })
			return r
		}
		if out[1].op == OIte && out[1].leaves > 0 {
			return mapLeaves(out[1], func(x *Term) *Term { return Concat(out[0], x) })
		}
	}
	return mk(tkey{op: OConcat, w: w, s: ids(out)}, func() *Term { return &Term{args: out} })
}

func Extract(t *Term, hi, lo int) *Term {
	if hi < lo || lo < 0 || hi >= t.w {
		panic(fmt.Sprintf("extract %d %d of %d", hi, lo, t.w))
	}
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	switch t.op {
	case OConst:
		if t.w <= 64 {
			return BV(w, t.c>>uint(lo))
		}
		v := new(big.Int).Rsh(t.b, uint(lo))
		return BVBig(w, v)
	case OExtract:
		return Extract(t.args[0], t.lo+hi, t.lo+lo)
	case OConcat:
		var ps []*Term
		top := t.w
		for _, p := range t.args {
			phi, plo := top-1, top-p.w
			top = plo
			h, l := min(hi, phi), max(lo, plo)
			if h >= l {
				ps = append(ps, Extract(p, h-plo, l-plo))
			}
		}
		return Concat(ps...)
	case OTable:
		r, _ := lift1(t, func(x *Term) *Term { return Extract(x, hi, lo) })
		return r
	case OIte:
		if t.leaves > 0 {
			return mapLeaves(t, func(x *Term) *Term { return Extract(x, hi, lo) })
		}
		if t.args[1].isConst() || t.args[2].isConst() || t.args[1].op == OConcat || t.args[2].op == OConcat || t.args[1].op == OExtract || t.args[2].op == OExtract {
			return Ite(t.args[0], Extract(t.args[1], hi, lo), Extract(t.args[2], hi, lo))
		}
	case OSext:
		if hi < t.args[0].w {
			return Extract(t.args[0], hi, lo)
		}
	case OBand, OBor, OBxor:
		x, y := Extract(t.args[0], hi, lo), Extract(t.args[1], hi, lo)
		switch t.op {
		case OBand:
			return Band(x, y)
		case OBor:
			return Bor(x, y)
		default:
			return Bxor(x, y)
		}
	case OAdd, OSub, OMul:
		// low bits depend on low bits only
		if lo == 0 && t.w <= 64 {
			x, y := Extract(t.args[0], hi, 0), Extract(t.args[1], hi, 0)
			switch t.op {
			case OAdd:
				return Add(x, y)
			case OSub:
				return Sub(x, y)
			default:
				return Mul(x, y)
			}
		}
	}
	if hi >= t.w-t.lz {
		// upper part known zero
		if lo >= t.w-t.lz {
			return zeroBV(w)
		}
		if t.op != OVar && t.op != OUF {
			z := hi - (t.w - t.lz) + 1
			return Concat(zeroBV(z), Extract(t, t.w-t.lz-1, lo))
		}
	}
	return mk(tkey{op: OExtract, w: w, a: t.id, b: hi, c: lo}, func() *Term { return &Term{args: []*Term{t}, hi: hi, lo: lo} })
}

func Zext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		panic("zext narrower")
	}
	return Concat(zeroBV(w-t.w), t)
}

func Sext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return BVBig(w, signedBig(t))
	}
	if t.lz >= 1 {
		return Zext(t, w)
	}
	if r, ok := lift1(t, func(x *Term) *Term { return Sext(x, w) }); ok {
		return r
	}
	if t.op == OSext {
		return Sext(t.args[0], w)
	}
	return mk(tkey{op: OSext, w: w, a: t.id}, func() *Term { return &Term{args: []*Term{t}} })
}

// Resize truncates or zero-extends.
func Resize(t *Term, w int) *Term {
	if w <= t.w {
		return Extract(t, w-1, 0)
	}
	return Zext(t, w)
}

func BoolToBV(c *Term, w int) *Term { return Ite(c, BV(w, 1), zeroBV(w)) }

// ---------- uninterpreted functions ----------

// UFDecl describes a modelled environment function.
type UFDecl struct {
	name  string
	argw  []int
	w     int
	real  func(args []*big.Int) *big.Int // concrete semantics, nil if unknown
	axiom func(app *Term) []*Term        // instantiated contract
	kind  string
	inputs func(args []*big.Int) [][]byte // byte strings behind the arguments (hashes)
	id    int
}

func (d *UFDecl) num() int {
	if d.id == 0 {
		d.id = len(ufDecls)
	}
	return d.id
}

var ufDecls = map[string]*UFDecl{}

func UF(d *UFDecl, args ...*Term) *Term {
	if e, ok := ufDecls[d.name]; ok {
		d = e
	} else {
		ufDecls[d.name] = d
		d.num()
	}
	allc := true
	for i, a := range args {
		if a.w != d.argw[i] {
			panic("uf arg width " + d.name)
		}
		if !a.isConst() {
			allc = false
		}
	}
	if allc && d.real != nil {
		return ufReal(d, args)
	}
	return mk(tkey{op: OUF, w: d.w, s: d.name + ":" + ids(args)}, func() *Term { return &Term{args: args, name: d.name} })
}

type ufPoint struct {
	d    *UFDecl
	args []*Term
	val  *Term
}

var ufPoints = map[string]ufPoint{} // concrete evaluations made while encoding

var knownList []*Term
var knownPoints = map[*Term]*Term{} // x coordinate of a multiple of the base point -> the scalar

func ufReal(d *UFDecl, args []*Term) *Term {
	k := d.name + ":" + ids(args)
	if p, ok := ufPoints[k]; ok {
		return p.val
	}
	vs := make([]*big.Int, len(args))
	for i, a := range args {
		vs[i] = a.big()
	}
	r := d.real(vs)
	var v *Term
	if d.w == 0 {
		v = Bool(r.Sign() != 0)
	} else {
		v = BVBig(d.w, r)
	}
	ufPoints[k] = ufPoint{d, args, v}
	if d.name == "smulx" {
		knownList = append(knownList, args[0])
		if _, ok := knownPoints[v]; !ok {
			knownPoints[v] = args[0]
		}
	}
	return v
}

// mkUFRaw builds the application without constant evaluation (for stating facts).
func mkUFRaw(d *UFDecl, args ...*Term) *Term {
	if e, ok := ufDecls[d.name]; ok {
		d = e
	} else {
		ufDecls[d.name] = d
		d.num()
	}
	return mk(tkey{op: OUF, w: d.w, s: d.name + ":" + ids(args)}, func() *Term { return &Term{args: args, name: d.name} })
}

// rebuild applies a term's operator to new arguments through the simplifier.
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OUlt:
		return Ult(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OAdd:
		return Add(a[0], a[1])
	case OSub:
		return Sub(a[0], a[1])
	case OMul:
		return Mul(a[0], a[1])
	case OUdiv:
		return Udiv(a[0], a[1])
	case OUrem:
		return Urem(a[0], a[1])
	case OSdiv:
		return Sdiv(a[0], a[1])
	case OSrem:
		return Srem(a[0], a[1])
	case OBand:
		return Band(a[0], a[1])
	case OBor:
		return Bor(a[0], a[1])
	case OBxor:
		return Bxor(a[0], a[1])
	case OShl:
		return Shl(a[0], a[1])
	case OLshr:
		return Lshr(a[0], a[1])
	case OAshr:
		return Ashr(a[0], a[1])
	case OConcat:
		return Concat(a...)
	case OExtract:
		return Extract(a[0], t.hi, t.lo)
	case OSext:
		return Sext(a[0], t.w)
	case OTable:
		return Table(a[0], t.tbl.ents)
	}
	panic("rebuild")
}

// Eval computes a term under an assignment; UFs take their real value.
func Eval(t *Term, env map[string]*Term, memo map[int]*Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OVar:
		r = env[t.name]
		if r == nil {
			if t.w == 0 {
				r = tFalse
			} else {
				r = zeroBV(t.w)
			}
		}
	case OIte:
		if Eval(t.args[0], env, memo) == tTrue {
			r = Eval(t.args[1], env, memo)
		} else {
			r = Eval(t.args[2], env, memo)
		}
	default:
		a := make([]*Term, len(t.args))
		for i, x := range t.args {
			a[i] = Eval(x, env, memo)
		}
		if t.op == OUF {
			d := ufDecls[t.name]
			if d.real != nil {
				r = ufReal(d, a)
			} else if v, ok := env["uf:"+t.name+":"+ids(a)]; ok {
				r = v
			} else if d.w == 0 {
				r = tFalse
			} else {
				r = zeroBV(d.w)
			}
		} else {
			r = rebuild(t, a)
		}
	}
	if !r.isConst() {
		panic("eval: not constant: " + fmt.Sprint(t.op))
	}
	memo[t.id] = r
	return r
}

// replaceTerms replaces whole terms by others.
func replaceTerms(t *Term, by map[int]*Term, memo map[int]*Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t
	if n, ok := by[t.id]; ok {
		r = n
	} else if len(t.args) > 0 {
		a := make([]*Term, len(t.args))
		same := true
		for i, x := range t.args {
			a[i] = replaceTerms(x, by, memo)
			same = same && a[i] == x
		}
		if !same {
			if t.op == OUF {
				r = UF(ufDecls[t.name], a...)
				if n, ok := by[r.id]; ok {
					r = n
				}
			} else {
				r = rebuild(t, a)
			}
		}
	}
	memo[t.id] = r
	return r
}

// Subst replaces variables.
func Subst(t *Term, env map[string]*Term, memo map[int]*Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == OVar {
		r = env[t.name]
		if r == nil {
			r = t
		}
	} else {
		a := make([]*Term, len(t.args))
		same := true
		for i, x := range t.args {
			a[i] = Subst(x, env, memo)
			if a[i] != x {
				same = false
			}
		}
		if same {
			r = t
		} else if t.op == OUF {
			r = UF(ufDecls[t.name], a...)
		} else {
			r = rebuild(t, a)
		}
	}
	memo[t.id] = r
	return r
}
