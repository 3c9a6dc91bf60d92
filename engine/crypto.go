package main

// Hashes, key stretching and the secp256k1 curve as uninterpreted functions with real semantics on constants.

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"hash/crc32"
	"math/big"
	"strings"

	secp "github.com/decred/dcrd/dcrec/secp256k1/v4"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
	"golang.org/x/tools/go/ssa"
)

var hashNew = map[string]func() hash.Hash{
	"sha256": sha256.New, "sha224": sha256.New224, "sha512": sha512.New, "sha384": sha512.New384, "sha512_256": sha512.New512_256,
	"sha1": sha1.New, "md5": md5.New, "ripemd160": ripemd160.New, "keccak256": sha3.NewLegacyKeccak256, "keccak512": sha3.NewLegacyKeccak512,
	"sha3_256": sha3.New256, "sha3_512": sha3.New512,
}

// constructors and the concrete types of what they return
var hashCtor = map[string][3]string{
	"crypto/sha256.New": {"sha256", "crypto/sha256", "digest"}, "crypto/sha256.New224": {"sha224", "crypto/sha256", "digest"},
	"crypto/sha512.New": {"sha512", "crypto/sha512", "digest"}, "crypto/sha512.New384": {"sha384", "crypto/sha512", "digest"}, "crypto/sha512.New512_256": {"sha512_256", "crypto/sha512", "digest"},
	"crypto/sha1.New": {"sha1", "crypto/sha1", "digest"}, "crypto/md5.New": {"md5", "crypto/md5", "digest"},
	"golang.org/x/crypto/ripemd160.New":          {"ripemd160", "golang.org/x/crypto/ripemd160", "digest"},
	"golang.org/x/crypto/sha3.NewLegacyKeccak256": {"keccak256", "golang.org/x/crypto/sha3", "state"},
	"golang.org/x/crypto/sha3.NewLegacyKeccak512": {"keccak512", "golang.org/x/crypto/sha3", "state"},
	"golang.org/x/crypto/sha3.New256":            {"sha3_256", "golang.org/x/crypto/sha3", "state"},
	"golang.org/x/crypto/sha3.New512":            {"sha3_512", "golang.org/x/crypto/sha3", "state"},
}

type hashState struct {
	alg  string
	key  *Str // HMAC key
	data *Str
}

var skelIDs = map[string]int{}

// skeleton splits a string into its shape and the terms that fill it.
func skeleton(s *Str) (string, []*Term, func([]*big.Int) []byte) {
	if bs := s.bytes(); bs != nil || len(s.parts) == 0 {
		n := len(bs)
		if n == 0 {
			return "B0", nil, func([]*big.Int) []byte { return nil }
		}
		return fmt.Sprintf("B%d", n), []*Term{Concat(bs...)}, func(v []*big.Int) []byte { return v[0].FillBytes(make([]byte, n)) }
	}
	var sb strings.Builder
	var args []*Term
	var fs []func([]*big.Int) []byte
	for i := range s.parts {
		p := s.parts[i]
		k := len(args)
		switch p.kind {
		case spLit:
			fmt.Fprintf(&sb, "L%q", p.lit)
			fs = append(fs, func([]*big.Int) []byte { return []byte(p.lit) })
		case spBytes:
			n := len(p.bs)
			fmt.Fprintf(&sb, "B%d", n)
			args = append(args, Concat(p.bs...))
			fs = append(fs, func(v []*big.Int) []byte { return v[k].FillBytes(make([]byte, n)) })
		case spAtom:
			fmt.Fprintf(&sb, "A%d", p.tbl.id)
			args = append(args, p.idx)
			fs = append(fs, func(v []*big.Int) []byte {
				i := v[k].Uint64()
				if i >= uint64(len(p.tbl.ents)) {
					return nil
				}
				return []byte(p.tbl.ents[i])
			})
		case spOpq:
			fmt.Fprintf(&sb, "O%s", p.opq)
			args = append(args, p.args...)
			if !strings.HasPrefix(p.opq, "b58/") {
				fs = append(fs, func(v []*big.Int) []byte { return []byte("?") })
				break
			}
			n := p.args[0].w / 8
			fs = append(fs, func(v []*big.Int) []byte { return []byte(b58Encode(v[k].FillBytes(make([]byte, n)))) })
		}
	}
	return sb.String(), args, func(v []*big.Int) []byte {
		var r []byte
		for _, f := range fs {
			r = append(r, f(v)...)
		}
		return r
	}
}

func skelUF(kind string, ss []*Str, w int, real func([][]byte) []byte) *Term {
	var sk []string
	var args []*Term
	var builds []func([]*big.Int) []byte
	var cuts []int
	for _, s := range ss {
		n, a, f := skeleton(s)
		sk = append(sk, n)
		args = append(args, a...)
		cuts = append(cuts, len(a))
		builds = append(builds, f)
	}
	key := kind + "|" + strings.Join(sk, "|")
	id, ok := skelIDs[key]
	if !ok {
		id = len(skelIDs)
		skelIDs[key] = id
	}
	d := &UFDecl{name: fmt.Sprintf("%s_%d", kind, id), w: w}
	for _, a := range args {
		d.argw = append(d.argw, a.w)
	}
	d.kind = kind
	d.inputs = func(v []*big.Int) [][]byte {
		var ins [][]byte
		for i := range builds {
			ins = append(ins, builds[i](v[:cuts[i]]))
			v = v[cuts[i]:]
		}
		return ins
	}
	d.real = func(v []*big.Int) *big.Int { return new(big.Int).SetBytes(real(d.inputs(v))) }
	return UF(d, args...)
}

func hashTerm(h *hashState) *Term {
	nf := hashNew[h.alg]
	w := nf().Size() * 8
	if h.key == nil {
		return skelUF(h.alg, []*Str{h.data}, w, func(in [][]byte) []byte {
			x := nf()
			x.Write(in[0])
			return x.Sum(nil)
		})
	}
	return skelUF("hmac_"+h.alg, []*Str{h.key, h.data}, w, func(in [][]byte) []byte {
		x := hmac.New(nf, in[0])
		x.Write(in[1])
		return x.Sum(nil)
	})
}

func bytesOf(t *Term) []*Term {
	n := t.w / 8
	r := make([]*Term, n)
	for i := range r {
		r[i] = Extract(t, 8*(n-i)-1, 8*(n-i-1))
	}
	return r
}

func (in *Interp) typeOf(pkg, name string) *ssa.Type {
	p := in.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	t := p.Type(name)
	if t == nil {
		unsup("type %s.%s", pkg, name)
	}
	return t
}

func (in *Interp) hashObj(st *State, v Value) (Ptr, *hashState) {
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		unsup("hash object %T", v)
	}
	n, ok := st.load(p).(*Native)
	if !ok || n.kind != "hash" {
		unsup("hash state")
	}
	return p, n.d.(*hashState)
}

func bytesAgg(t *Term) *Agg {
	bs := bytesOf(t)
	a := &Agg{elems: make([]Value, len(bs))}
	for i := range bs {
		a.elems[i] = bs[i]
	}
	return a
}

// ---- the curve ----


func hexBig(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var secpP = hexBig("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
var secpN = hexBig("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
var sqrtExp = new(big.Int).Rsh(new(big.Int).Add(secpP, big.NewInt(1)), 2)
var pT, nT, z256 *Term

var ufSmulX, ufSmulY, ufLift, ufNoRoot, ufHasRoot, ufAddX, ufAddY, ufIsQR, ufSqrt *UFDecl

func onCurveT(x, y *Term) *Term {
	l := UF(ufLift, x)
	return And(UF(ufHasRoot, x), Or(Eq(y, l), Eq(y, Sub(pT, l))))
}

func realMul(k *big.Int) (*big.Int, *big.Int) {
	if k.Sign() == 0 {
		return new(big.Int), new(big.Int)
	}
	return secp.S256().ScalarBaseMult(k.Bytes())
}

func rhs(x *big.Int) *big.Int {
	v := new(big.Int).Exp(x, big.NewInt(3), secpP)
	v.Add(v, big.NewInt(7))
	return v.Mod(v, secpP)
}

func realAdd(a []*big.Int) (*big.Int, *big.Int) {
	var p, q, r secp.JacobianPoint
	set := func(d *secp.JacobianPoint, x, y *big.Int) {
		d.X.SetByteSlice(x.FillBytes(make([]byte, 32)))
		d.Y.SetByteSlice(y.FillBytes(make([]byte, 32)))
		d.Z.SetInt(1)
	}
	set(&p, a[0], a[1])
	set(&q, a[2], a[3])
	secp.AddNonConst(&p, &q, &r)
	r.ToAffine()
	return new(big.Int).SetBytes(r.X.Bytes()[:]), new(big.Int).SetBytes(r.Y.Bytes()[:])
}

func b2i(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}

func init() {
	pT, nT, z256 = BVBig(256, secpP), BVBig(256, secpN), zeroBV(256)
	u := []int{256}
	u4 := []int{256, 256, 256, 256}
	ufLift = &UFDecl{name: "lift", argw: u, w: 256, real: func(a []*big.Int) *big.Int { return new(big.Int).Exp(rhs(a[0]), sqrtExp, secpP) }}
	ufHasRoot = &UFDecl{name: "hasroot", argw: u, w: 0, real: func(a []*big.Int) *big.Int {
		v := rhs(a[0])
		r := new(big.Int).Exp(v, sqrtExp, secpP)
		return b2i(new(big.Int).Exp(r, big.NewInt(2), secpP).Cmp(v) == 0)
	}}
	ufNoRoot = &UFDecl{name: "noroot", argw: u, w: 256, real: ufLift.real}
	ufIsQR = &UFDecl{name: "isqr", argw: u, w: 0, real: func(a []*big.Int) *big.Int { return b2i(new(big.Int).ModSqrt(a[0], secpP) != nil) }}
	ufSqrt = &UFDecl{name: "sqrtp", argw: u, w: 256, real: func(a []*big.Int) *big.Int { return new(big.Int).Exp(a[0], sqrtExp, secpP) }}
	ufSmulX = &UFDecl{name: "smulx", argw: u, w: 256, real: func(a []*big.Int) *big.Int { x, _ := realMul(a[0]); return x }}
	ufSmulY = &UFDecl{name: "smuly", argw: u, w: 256, real: func(a []*big.Int) *big.Int { _, y := realMul(a[0]); return y }}
	ufAddX = &UFDecl{name: "addx", argw: u4, w: 256, real: func(a []*big.Int) *big.Int { x, _ := realAdd(a); return x }}
	ufAddY = &UFDecl{name: "addy", argw: u4, w: 256, real: func(a []*big.Int) *big.Int { _, y := realAdd(a); return y }}
	ufLift.axiom = func(t *Term) []*Term {
		x := t.args[0]
		return []*Term{Ult(t, pT), Implies(UF(ufHasRoot, x), Not(Eq(t, z256)))}
	}
	ufHasRoot.axiom = func(t *Term) []*Term {
		x := t.args[0]
		return []*Term{Implies(t, Not(Eq(x, z256)))}
	}
	ufNoRoot.axiom = func(t *Term) []*Term { return []*Term{Ult(t, pT)} }
	ufSqrt.axiom = func(t *Term) []*Term { return []*Term{Ult(t, pT)} }
	smul := func(t *Term) []*Term {
		k := t.args[0]
		x, y := UF(ufSmulX, k), UF(ufSmulY, k)
		nz := Not(Eq(k, z256))
		out := []*Term{Ult(x, pT), Ult(y, pT), Implies(nz, And(Not(Eq(x, z256)), Not(Eq(y, z256)), onCurveT(x, y))),
			Implies(Not(nz), And(Eq(x, z256), Eq(y, z256)))}
		// multiples met as constants before
		for i, p := range knownList {
			if i == 8 {
				break
			}
			out = append(out, Implies(Eq(k, p), And(Eq(x, ufReal(ufSmulX, []*Term{p})), Eq(y, ufReal(ufSmulY, []*Term{p})))))
		}
		return out
	}
	ufSmulX.axiom, ufSmulY.axiom = smul, smul
	add := func(t *Term) []*Term {
		a := t.args
		x, y := UF(ufAddX, a...), UF(ufAddY, a...)
		return []*Term{Ult(x, pT), Ult(y, pT), Implies(And(onCurveT(a[0], a[1]), onCurveT(a[2], a[3])), Or(And(Eq(x, z256), Eq(y, z256)), And(Not(Eq(y, z256)), onCurveT(x, y))))}
	}
	ufAddX.axiom, ufAddY.axiom = add, add
	for _, d := range []*UFDecl{ufLift, ufHasRoot, ufNoRoot, ufIsQR, ufSqrt, ufSmulX, ufSmulY, ufAddX, ufAddY} {
		ufDecls[d.name] = d
		d.num()
	}
}

// reduceP brings a value below 2^256 into the field.
func reduceP(x *Term) *Term {
	x = Resize(x, 256)
	if x.op == OUF {
		switch x.name {
		case "smulx", "smuly", "addx", "addy", "lift", "noroot", "sqrtp":
			return x
		}
	}
	return modConst(x, secpP)
}

type pt struct {
	st   *State
	x, y *Term
}

// scalarOf finds k with (x,y) = k*G where that is syntactically evident up to the sign of y.
func (in *Interp) scalarOf(st *State, x, y *Term) []struct {
	st *State
	k  *Term
} {
	type sk = struct {
		st *State
		k  *Term
	}
	if x.isZero() && y.isZero() {
		return []sk{{st, z256}}
	}
	if x.op == OIte {
		c := x.args[0]
		at := func(t *Term, i int) *Term {
			if t.op == OIte && t.args[0] == c {
				return t.args[i]
			}
			return t
		}
		a, b := in.split(st, c)
		var out []sk
		if a != nil {
			out = append(out, in.scalarOf(a, x.args[1], at(y, 1))...)
		}
		if b != nil {
			out = append(out, in.scalarOf(b, x.args[2], at(y, 2))...)
		}
		return out
	}
	var k *Term
	if x.op == OUF && x.name == "smulx" {
		k = x.args[0]
	} else if x.isConst() {
		k = knownPoints[x] // a multiple evaluated before
	}
	if k == nil {
		return []sk{{st, nil}}
	}
	sy := UF(ufSmulY, k)
	var out []sk
	a, b := in.split(st, Eq(y, sy))
	if a != nil {
		out = append(out, sk{a, k})
	}
	if b != nil {
		c, d := in.split(b, Eq(y, Sub(pT, sy)))
		if c != nil {
			out = append(out, sk{c, Ite(Eq(k, z256), z256, Sub(nT, k))})
		}
		if d != nil {
			out = append(out, sk{d, nil})
		}
	}
	return out
}

func smulPt(k *Term) (*Term, *Term) { return UF(ufSmulX, k), UF(ufSmulY, k) }

// sameScalar replaces a scalar by an earlier one it always equals here, so that one point gets one term.
func (in *Interp) sameScalar(st *State, t *Term) *Term {
	if t.isConst() || in.concrete {
		return t
	}
	for _, o := range in.scalars {
		if o == t {
			return t
		}
	}
	n := 0
	for i := len(in.scalars) - 1; i >= 0 && n < 6; i-- {
		if in.surely(st, Eq(t, in.scalars[i])) {
			return in.scalars[i]
		}
		n++
	}
	in.scalars = append(in.scalars, t)
	return t
}

func (in *Interp) addModN(st *State, a, b *Term) *Term {
	return Resize(in.modUnder(st, Add(Zext(a, 257), Zext(b, 257)), secpN), 256)
}

func (in *Interp) ptAdd(st *State, x1, y1, x2, y2 *Term) []pt {
	var out []pt
	inf := func(x, y *Term) *Term { return And(Eq(x, z256), Eq(y, z256)) }
	a, b := in.split(st, inf(x1, y1))
	if a != nil {
		out = append(out, pt{a, x2, y2})
	}
	if b == nil {
		return out
	}
	a, b = in.split(b, inf(x2, y2))
	if a != nil {
		out = append(out, pt{a, x1, y1})
	}
	if b == nil {
		return out
	}
	for _, s1 := range in.scalarOf(b, x1, y1) {
		for _, s2 := range in.scalarOf(s1.st, x2, y2) {
			if s1.k != nil && s2.k != nil {
				x, y := smulPt(in.sameScalar(s2.st, in.addModN(s2.st, s1.k, s2.k)))
				out = append(out, pt{s2.st, x, y})
				continue
			}
			p, q := []*Term{x1, y1}, []*Term{x2, y2}
			for _, t := range [][]*Term{p, q} {
				for i := range t {
					t[i] = in.settled(s2.st, t[i])
				}
			}
			if p[0].id > q[0].id || (p[0].id == q[0].id && p[1].id > q[1].id) {
				p, q = q, p
			}
			as := []*Term{p[0], p[1], q[0], q[1]}
			out = append(out, pt{s2.st, UF(ufAddX, as...), UF(ufAddY, as...)})
		}
	}
	return out
}

// settled takes the branch of a case distinction that is made here already.
func (in *Interp) settled(st *State, t *Term) *Term {
	for t.op == OIte {
		v, ok := in.implied(st, t.args[0])
		if !ok {
			break
		}
		if v {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	return t
}

func fld(p Ptr, i int) Ptr { return Ptr{p.obj, sub(p.path, i)} }

func (in *Interp) u256(st *State, v Value) *Term {
	p, ok := v.(Ptr)
	if !ok {
		if b, ok := v.(*BigV); ok {
			return b.t
		}
		unsup("field value %T", v)
	}
	if p.obj == 0 {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	b, ok := st.load(p).(*BigV)
	if !ok || b.t.w != 256 {
		unsup("field value")
	}
	return b.t
}

// affine reads a Jacobian point whose Z is 0 or 1.
func (in *Interp) affine(st *State, p Ptr) (x, y *Term) {
	x, y = in.u256(st, fld(p, 0)), in.u256(st, fld(p, 1))
	z := in.u256(st, fld(p, 2))
	one := BV(256, 1)
	if z == one {
		return
	}
	if z.isZero() {
		return z256, z256
	}
	if z.op == OIte && z.args[1].isZero() && z.args[2] == one {
		return
	}
	if zeroOrOne(z) {
		// states that met again
		return Ite(Eq(z, z256), z256, x), Ite(Eq(z, z256), z256, y)
	}
	unsup("Jacobian point with general Z")
	return
}

func zeroOrOne(t *Term) bool {
	if t.op == OIte {
		return zeroOrOne(t.args[1]) && zeroOrOne(t.args[2])
	}
	return t.isConst() && (t.isZero() || t == BV(256, 1))
}

func zOf(x, y *Term) *Term {
	return Ite(And(Eq(x, z256), Eq(y, z256)), z256, BV(256, 1))
}

func put256(st *State, p Value, t *Term) { st.store(p.(Ptr), &BigV{t: t}) }

func (in *Interp) byteSliceInt(st *State, v Value) *Term {
	bs := in.sliceBytes(st, v.(SliceV))
	if len(bs) > 32 {
		bs = bs[:32]
	}
	if len(bs) == 0 {
		return z256
	}
	return Zext(Concat(bs...), 256)
}

func fmulT(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	d := &UFDecl{name: "fmul", argw: []int{256, 256}, w: 256, real: func(v []*big.Int) *big.Int {
		r := new(big.Int).Mul(v[0], v[1])
		return r.Mod(r, secpP)
	}, axiom: func(t *Term) []*Term { return []*Term{Ult(t, pT)} }}
	return UF(d, a, b)
}

func init() {
	for ctor, d := range hashCtor {
		d := d
		def(ctor, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			t := in.typeOf(d[1], d[2])
			id := st.alloc(&Native{"hash", &hashState{alg: d[0], data: emptyStr}})
			return ret(st, IfaceV{canonType(ptrTo(t.Type())), Ptr{obj: id}}), true
		})
	}
	def("crypto/hmac.New", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		c, ok := a[0].(*Closure)
		if !ok || c == nil || c.fn == nil {
			unsup("hmac over a custom hash")
		}
		d, ok := hashCtor[c.fn.String()]
		if !ok {
			unsup("hmac over %s", c.fn)
		}
		t := in.typeOf("crypto/hmac", "hmac")
		id := st.alloc(&Native{"hash", &hashState{alg: d[0], key: in.sliceStr(st, a[1].(SliceV)), data: emptyStr}})
		return ret(st, IfaceV{canonType(ptrTo(t.Type())), Ptr{obj: id}}), true
	})
	for _, ty := range []string{"*crypto/sha256.digest", "*crypto/sha512.digest", "*crypto/sha1.digest", "*crypto/md5.digest", "*golang.org/x/crypto/ripemd160.digest", "*golang.org/x/crypto/sha3.state", "*crypto/hmac.hmac"} {
		m := "(" + ty + ")."
		def(m+"Write", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			p, h := in.hashObj(st, a[0])
			s := in.sliceStr(st, a[1].(SliceV))
			st.store(p, &Native{"hash", &hashState{alg: h.alg, key: h.key, data: concatStr(h.data, s)}})
			return ret(st, Tuple{s.lenTerm(), IfaceV{}}), true
		})
		def(m+"Sum", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			_, h := in.hashObj(st, a[0])
			return in.appendVals(st, a[1].(SliceV), termVals(bytesOf(hashTerm(h))), 1), true
		})
		def(m+"Reset", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			p, h := in.hashObj(st, a[0])
			st.store(p, &Native{"hash", &hashState{alg: h.alg, key: h.key, data: emptyStr}})
			return ret(st, Tuple{}), true
		})
		def(m+"Size", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			_, h := in.hashObj(st, a[0])
			return ret(st, BV(64, uint64(hashNew[h.alg]().Size()))), true
		})
		def(m+"BlockSize", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			_, h := in.hashObj(st, a[0])
			return ret(st, BV(64, uint64(hashNew[h.alg]().BlockSize()))), true
		})
	}
	for name, alg := range map[string]string{"crypto/sha256.Sum256": "sha256", "crypto/sha256.Sum224": "sha224", "crypto/sha512.Sum512": "sha512", "crypto/sha512.Sum384": "sha384",
		"crypto/sha512.Sum512_256": "sha512_256", "crypto/sha1.Sum": "sha1", "crypto/md5.Sum": "md5", "golang.org/x/crypto/sha3.Sum256": "sha3_256", "golang.org/x/crypto/sha3.Sum512": "sha3_512"} {
		alg := alg
		def(name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			return ret(st, bytesAgg(hashTerm(&hashState{alg: alg, data: in.sliceStr(st, a[0].(SliceV))}))), true
		})
	}
	def("golang.org/x/crypto/pbkdf2.Key", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		iter, ok1 := tConstInt(a[2])
		kl, ok2 := tConstInt(a[3])
		c, ok3 := a[4].(*Closure)
		if !ok1 || !ok2 || !ok3 || c == nil || c.fn == nil || kl <= 0 || kl > 1024 {
			unsup("pbkdf2 parameters")
		}
		d, ok := hashCtor[c.fn.String()]
		if !ok {
			unsup("pbkdf2 over %s", c.fn)
		}
		t := skelUF(fmt.Sprintf("pbkdf2_%s_%d_%d", d[0], iter, kl), []*Str{in.sliceStr(st, a[0].(SliceV)), in.sliceStr(st, a[1].(SliceV))}, 8*kl,
			func(x [][]byte) []byte { return pbkdf2.Key(x[0], x[1], iter, kl, hashNew[d[0]]) })
		return ret(st, in.newBytes(st, bytesOf(t))), true
	})
	for name, tab := range map[string]*crc32.Table{"hash/crc32.ChecksumIEEE": crc32.IEEETable} {
		tab := tab
		def(name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s := in.sliceStr(st, a[0].(SliceV))
			if !s.isLit() {
				unsup("crc32 of symbolic data")
			}
			return ret(st, BV(32, uint64(crc32.Checksum([]byte(s.lit()), tab)))), true
		})
	}
	// base58
	def("github.com/btcsuite/btcutil/base58.Encode", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		bs := in.sliceBytes(st, a[0].(SliceV))
		return ret(st, b58Str(bs)), true
	})
	def("github.com/btcsuite/btcutil/base58.Decode", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		s := a[0].(*Str)
		if s.isLit() {
			d := b58Decode(s.lit())
			return ret(st, in.newBytes(st, byteTerms(d))), true
		}
		if len(s.parts) == 1 && strings.HasPrefix(s.parts[0].opq, "b58/") {
			return ret(st, in.newBytes(st, bytesOf(s.parts[0].args[0]))), true
		}
		if n, ok := s.concLen(); ok && n <= 16 {
			return in.callBody(st, fn, a, nil), true
		}
		// an encoding with something before or after it
		zeros, encs, foreign, plain := 0, 0, false, true
		var enc *SPart
		for i := range s.parts {
			p := &s.parts[i]
			switch {
			case p.kind == spLit:
				for j := 0; j < len(p.lit); j++ {
					if strings.IndexByte(b58Alpha, p.lit[j]) < 0 {
						foreign = true
					} else if p.lit[j] != '1' || encs > 0 {
						plain = false
					} else {
						zeros++
					}
				}
			case p.kind == spOpq && strings.HasPrefix(p.opq, "b58/"):
				encs++
				enc = p
			default:
				unsup("base58 decoding of symbolic text")
			}
		}
		if foreign {
			return ret(st, in.newBytes(st, nil)), true
		}
		if plain && encs == 1 {
			return ret(st, in.newBytes(st, append(byteTerms(make([]byte, zeros)), bytesOf(enc.args[0])...))), true
		}
		unsup("base58 decoding of symbolic text")
		return nil, true
	})
	// curve
	S := secpPkg
	F := "(*" + S + ".FieldVal)."
	def(S+".ScalarBaseMultNonConst", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x, y := smulPt(in.sameScalar(st, in.u256(st, a[0])))
		r := a[1].(Ptr)
		put256(st, fld(r, 0), x)
		put256(st, fld(r, 1), y)
		put256(st, fld(r, 2), zOf(x, y))
		return ret(st, Tuple{}), true
	})
	def(S+".AddNonConst", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x1, y1 := in.affine(st, a[0].(Ptr))
		x2, y2 := in.affine(st, a[1].(Ptr))
		var os []Outcome
		for _, p := range in.ptAdd(st, x1, y1, x2, y2) {
			r := a[2].(Ptr)
			put256(p.st, fld(r, 0), p.x)
			put256(p.st, fld(r, 1), p.y)
			put256(p.st, fld(r, 2), zOf(p.x, p.y))
			os = append(os, Outcome{st: p.st, kind: oRet, val: Tuple{}})
		}
		return os, true
	})
	def(S+".DoubleNonConst", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x1, y1 := in.affine(st, a[0].(Ptr))
		var os []Outcome
		for _, p := range in.ptAdd(st, x1, y1, x1, y1) {
			r := a[1].(Ptr)
			put256(p.st, fld(r, 0), p.x)
			put256(p.st, fld(r, 1), p.y)
			put256(p.st, fld(r, 2), zOf(p.x, p.y))
			os = append(os, Outcome{st: p.st, kind: oRet, val: Tuple{}})
		}
		return os, true
	})
	def("(*"+S+".JacobianPoint).ToAffine", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		p := a[0].(Ptr)
		x, y := in.affine(st, p)
		put256(st, fld(p, 0), x)
		put256(st, fld(p, 1), y)
		put256(st, fld(p, 2), BV(256, 1))
		return ret(st, Tuple{}), true
	})
	def(S+".jacobianToBigAffine", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x, y := in.affine(st, a[0].(Ptr))
		return ret(st, Tuple{Ptr{obj: st.alloc(bigU(x))}, Ptr{obj: st.alloc(bigU(y))}}), true
	})
	def(S+".bigAffineToJacobian", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x, y := in.big(st, a[0]), in.big(st, a[1])
		return in.withSign(st, x, func(st *State, x *BigV, nx bool) []Outcome {
			return in.withSign(st, y, func(st *State, y *BigV, ny bool) []Outcome {
				if nx || ny {
					unsup("negative coordinate")
				}
				for _, c := range []*BigV{x, y} {
					if c.t.w <= 257 {
						continue
					}
					fits, wide := in.split(st, Eq(Extract(c.t, c.t.w-1, 256), zeroBV(c.t.w-256)))
					if wide != nil {
						unsup("coordinate beyond 256 bits")
					}
					if fits == nil {
						return nil
					}
					st = fits
				}
				r := a[2].(Ptr)
				put256(st, fld(r, 0), reduceP(x.mag(256)))
				put256(st, fld(r, 1), reduceP(y.mag(256)))
				put256(st, fld(r, 2), BV(256, 1))
				return ret(st, Tuple{})
			})
		}), true
	})
	def(S+".isOnCurve", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, onCurveT(in.u256(st, a[0]), in.u256(st, a[1]))), true
	})
	def(S+".DecompressY", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x := in.u256(st, a[0])
		has := UF(ufHasRoot, x)
		l := Ite(has, UF(ufLift, x), UF(ufNoRoot, x))
		odd := Eq(Extract(UF(ufLift, x), 0, 0), BV(1, 1))
		want := a[1].(*Term)
		_ = l
		h, nh := in.split(st, has)
		var os []Outcome
		if h != nil {
			r := UF(ufLift, x)
			put256(h, a[2], Ite(Eq(BoolToBV(odd, 1), BoolToBV(want, 1)), r, Sub(pT, r)))
			os = append(os, Outcome{st: h, kind: oRet, val: tTrue})
		}
		if nh != nil {
			put256(nh, a[2], UF(ufNoRoot, x))
			os = append(os, Outcome{st: nh, kind: oRet, val: tFalse})
		}
		return os, true
	})
	// FieldVal and ModNScalar as residues
	for _, c := range []struct {
		pre string
		m   *big.Int
		mt  *Term
	}{{F, secpP, pT}, {"(*" + S + ".ModNScalar).", secpN, nT}} {
		c := c
		red := func(in *Interp, st *State, t *Term) *Term {
			if c.m == secpP {
				return reduceP(t)
			}
			return Resize(in.modUnder(st, Resize(t, 256), c.m), 256)
		}
		addm := func(in *Interp, st *State, x, y *Term) *Term {
			return Resize(in.modUnder(st, Add(Zext(x, 257), Zext(y, 257)), c.m), 256)
		}
		negm := func(x *Term) *Term { return Ite(Eq(x, z256), z256, Sub(c.mt, x)) }
		set := func(name string, f func(in *Interp, st *State, a []Value) *Term) {
			def(c.pre+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				put256(st, a[0], f(in, st, a))
				if fn.Signature.Results().Len() == 0 {
					return ret(st, Tuple{}), true
				}
				return ret(st, a[0]), true
			})
		}
		get := func(name string, f func(in *Interp, st *State, a []Value, x *Term) Value) {
			def(c.pre+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				return ret(st, f(in, st, a, in.u256(st, a[0]))), true
			})
		}
		set("Set", func(in *Interp, st *State, a []Value) *Term { return in.u256(st, a[1]) })
		set("Zero", func(in *Interp, st *State, a []Value) *Term { return z256 })
		set("SetInt", func(in *Interp, st *State, a []Value) *Term { return Zext(a[1].(*Term), 256) })
		set("Add", func(in *Interp, st *State, a []Value) *Term { return addm(in, st, in.u256(st, a[0]), in.u256(st, a[1])) })
		set("Add2", func(in *Interp, st *State, a []Value) *Term { return addm(in, st, in.u256(st, a[1]), in.u256(st, a[2])) })
		set("AddInt", func(in *Interp, st *State, a []Value) *Term { return addm(in, st, in.u256(st, a[0]), Zext(a[1].(*Term), 256)) })
		set("NegateVal", func(in *Interp, st *State, a []Value) *Term { return negm(in.u256(st, a[1])) })
		set("Negate", func(in *Interp, st *State, a []Value) *Term { return negm(in.u256(st, a[0])) })
		set("Normalize", func(in *Interp, st *State, a []Value) *Term { return in.u256(st, a[0]) })
		mul := func(x, y *Term) *Term {
			if c.m == secpP {
				return fmulT(x, y)
			}
			if x.id > y.id {
				x, y = y, x
			}
			return UF(&UFDecl{name: "nmul", argw: []int{256, 256}, w: 256, real: func(v []*big.Int) *big.Int {
				r := new(big.Int).Mul(v[0], v[1])
				return r.Mod(r, secpN)
			}, axiom: func(t *Term) []*Term { return []*Term{Ult(t, nT)} }}, x, y)
		}
		set("Mul", func(in *Interp, st *State, a []Value) *Term { return mul(in.u256(st, a[0]), in.u256(st, a[1])) })
		set("Mul2", func(in *Interp, st *State, a []Value) *Term { return mul(in.u256(st, a[1]), in.u256(st, a[2])) })
		set("Square", func(in *Interp, st *State, a []Value) *Term { x := in.u256(st, a[0]); return mul(x, x) })
		set("SquareVal", func(in *Interp, st *State, a []Value) *Term { x := in.u256(st, a[1]); return mul(x, x) })
		ovf := func(name string, f func(in *Interp, st *State, a []Value) *Term, asBool bool) {
			def(c.pre+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				t := f(in, st, a)
				r := red(in, st, t)
				put256(st, a[0], r)
				o := tFalse
				if r != t {
					o = Not(Ult(t, c.mt))
				}
				if asBool {
					return ret(st, o), true
				}
				return ret(st, BoolToBV(o, 32)), true
			})
		}
		ovf("SetByteSlice", func(in *Interp, st *State, a []Value) *Term { return in.byteSliceInt(st, a[1]) }, true)
		ovf("SetBytes", func(in *Interp, st *State, a []Value) *Term {
			ag := st.load(a[1].(Ptr)).(*Agg)
			ts := make([]*Term, len(ag.elems))
			for i := range ts {
				ts[i] = ag.elems[i].(*Term)
			}
			return Concat(ts...)
		}, false)
		get("IsZero", func(in *Interp, st *State, a []Value, x *Term) Value { return Eq(x, z256) })
		get("IsZeroBit", func(in *Interp, st *State, a []Value, x *Term) Value { return BoolToBV(Eq(x, z256), 32) })
		get("IsOne", func(in *Interp, st *State, a []Value, x *Term) Value { return Eq(x, BV(256, 1)) })
		get("IsOneBit", func(in *Interp, st *State, a []Value, x *Term) Value { return BoolToBV(Eq(x, BV(256, 1)), 32) })
		get("IsOdd", func(in *Interp, st *State, a []Value, x *Term) Value { return Eq(Extract(x, 0, 0), BV(1, 1)) })
		get("IsOddBit", func(in *Interp, st *State, a []Value, x *Term) Value { return Zext(Extract(x, 0, 0), 32) })
		get("Equals", func(in *Interp, st *State, a []Value, x *Term) Value { return Eq(x, in.u256(st, a[1])) })
		if c.m == secpP {
			get("Bytes", func(in *Interp, st *State, a []Value, x *Term) Value { return Ptr{obj: st.alloc(bytesAgg(x))} })
		} else {
			get("Bytes", func(in *Interp, st *State, a []Value, x *Term) Value { return bytesAgg(x) })
		}
		get("PutBytes", func(in *Interp, st *State, a []Value, x *Term) Value {
			st.store(a[1].(Ptr), bytesAgg(x))
			return Tuple{}
		})
		get("PutBytesUnchecked", func(in *Interp, st *State, a []Value, x *Term) Value {
			in.setElems(st, a[1].(SliceV), 0, termVals(bytesOf(x)))
			return Tuple{}
		})
	}
	for _, n := range []string{".FieldVal).String", ".ModNScalar).String"} {
		def("("+S+n, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			t := in.u256(st, a[0])
			return in.hexText(st, t, false, 64), true
		})
	}
}

func termVals(ts []*Term) []Value {
	r := make([]Value, len(ts))
	for i := range ts {
		r[i] = ts[i]
	}
	return r
}

func byteTerms(b []byte) []*Term {
	r := make([]*Term, len(b))
	for i := range b {
		r[i] = BV(8, uint64(b[i]))
	}
	return r
}

// ---- base58 ----

const b58Alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func b58Encode(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var out []byte
	m, r := big.NewInt(58), new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, m, r)
		out = append(out, b58Alpha[r.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

// b58Head gives the digits a Base58 text is bound to start with. Between texts of equal length the order is the order
// of the numbers encoded, so these are the ones that the encodings of the smallest and the largest number with the
// leading bytes known have in common.
func b58Head(p *SPart) string {
	if p.kind != spOpq || !strings.HasPrefix(p.opq, "b58/") {
		return ""
	}
	bs := bytesOf(p.args[0])
	lo, hi := make([]byte, len(bs)), bytes.Repeat([]byte{255}, len(bs))
	known := 0
	for known < len(bs) && bs[known].isConst() {
		lo[known] = byte(bs[known].c)
		hi[known] = lo[known]
		known++
	}
	if len(bytes.TrimLeft(lo[:known], "\x00")) == 0 {
		return strings.Repeat("1", known)
	}
	a, b := b58Encode(lo), b58Encode(hi)
	n := 0
	if len(a) == len(b) {
		for n < len(a) && a[n] == b[n] {
			n++
		}
	}
	return a[:n]
}

func b58Decode(s string) []byte {
	x := new(big.Int)
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte(b58Alpha, s[i])
		if k < 0 {
			return nil
		}
		x.Mul(x, big.NewInt(58))
		x.Add(x, big.NewInt(int64(k)))
	}
	n := 0
	for n < len(s) && s[n] == '1' {
		n++
	}
	return append(make([]byte, n), x.Bytes()...)
}

func b58Str(bs []*Term) *Str {
	if len(bs) == 0 {
		return emptyStr
	}
	t := Concat(bs...)
	if t.isConst() {
		return litStr(b58Encode(t.big().FillBytes(make([]byte, len(bs)))))
	}
	n := len(bs)
	ld := &UFDecl{name: fmt.Sprintf("b58len_%d", n), argw: []int{8 * n}, w: 64, real: func(a []*big.Int) *big.Int {
		return big.NewInt(int64(len(b58Encode(a[0].FillBytes(make([]byte, n))))))
	}, axiom: func(t *Term) []*Term {
		return []*Term{Ule(BV(64, uint64(n)), t), Ule(t, BV(64, uint64(n*138/100+1)))}
	}}
	return &Str{parts: []SPart{{kind: spOpq, opq: fmt.Sprintf("b58/%d", n), args: []*Term{t}, lenT: UF(ld, t)}}}
}
