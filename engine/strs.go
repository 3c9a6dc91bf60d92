package main

// Models of text handling: fmt, strings, strconv, regexp.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func hexDigit(n *Term, upper bool) *Term {
	n8 := Zext(n, 8)
	base := uint64('a' - 10)
	if upper {
		base = 'A' - 10
	}
	if n.isConst() {
		if n.c < 10 {
			return BV(8, '0'+n.c)
		}
		return BV(8, base+n.c)
	}
	ents := make([]*Term, 16)
	for i := range ents {
		if i < 10 {
			ents[i] = BV(8, uint64('0'+i))
		} else {
			ents[i] = BV(8, base+uint64(i))
		}
	}
	return Table(n8, ents)
}

// hexText writes an unsigned term in hexadecimal with at least min digits.
func (in *Interp) hexText(st *State, t *Term, upper bool, min int) []Outcome {
	w := (t.w + 3) / 4 * 4
	t = Zext(t, w)
	n := w / 4
	ds := make([]*Term, n)
	nib := make([]*Term, n)
	for i := range ds {
		nib[i] = Extract(t, 4*(n-i)-1, 4*(n-i-1))
		ds[i] = hexDigit(nib[i], upper)
	}
	for len(ds) < min {
		ds = append([]*Term{BV(8, '0')}, ds...)
		nib = append([]*Term{BV(4, 0)}, nib...)
	}
	n = len(ds)
	var os []Outcome
	cur := st
	for i := 0; i < n && cur != nil; i++ {
		if n-i <= min || i == n-1 {
			os = append(os, Outcome{st: cur, kind: oRet, val: bytesStr(ds[i:])})
			break
		}
		x, y := in.split(cur, Not(Eq(nib[i], BV(4, 0))))
		if x != nil {
			os = append(os, Outcome{st: x, kind: oRet, val: bytesStr(ds[i:])})
		}
		cur = y
	}
	return os
}

// decText writes an unsigned term in decimal.
func (in *Interp) decText(st *State, t *Term) []Outcome {
	if t.isConst() {
		return ret(st, litStr(t.big().String()))
	}
	_, hi := urange(t, 6)
	maxD := len(hi.String())
	var os []Outcome
	cur := st
	for n := 1; n <= maxD && cur != nil; n++ {
		var a *State
		if n == maxD {
			a, cur = cur, nil
		} else {
			lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
			a, cur = in.split(cur, Ult(t, BVBig(t.w, lim)))
		}
		if a == nil {
			continue
		}
		bs := make([]*Term, n)
		w := 64
		if n > 18 {
			w = 72
		}
		var h *Term
		var cs []*Term
		for i := 0; i < n; i++ {
			d := Var(fmt.Sprintf("dec!%d!%d!%d", t.id, n, i), 4)
			cs = append(cs, Ule(d, BV(4, 9)))
			bs[i] = Concat(BV(4, 3), d)
			if h == nil {
				h = Zext(d, w)
			} else {
				h = Add(Mul(h, BV(w, 10)), Zext(d, w))
			}
		}
		decDefs[Var(fmt.Sprintf("dec!%d!%d!%d", t.id, n, 0), 4).name] = decDef{t, n}
		a = a.fork()
		for _, c := range cs {
			a.pc = a.pc.push(c)
		}
		a.pc = a.pc.push(Eq(Resize(t, w), h))
		// texts of different lengths do not merge, and nothing is gained by merging what became of them
		a.fork_ = caseID(a.fork_, t, n)
		os = append(os, Outcome{st: a, kind: oRet, val: bytesStr(bs)})
	}
	return os
}

type decDef struct {
	t *Term
	n int
}

var decDefs = map[string]decDef{}

// decTerm gives the term whose decimal text the bytes are, if they are one.
func decTerm(bs []*Term) *Term {
	if len(bs) == 0 {
		return nil
	}
	for name, d := range decDefs {
		if d.n != len(bs) || bs[0] != Concat(BV(4, 3), Var(name, 4)) {
			continue
		}
		for i := range bs {
			if bs[i] != Concat(BV(4, 3), Var(fmt.Sprintf("dec!%d!%d!%d", d.t.id, d.n, i), 4)) {
				return nil
			}
		}
		return d.t
	}
	return nil
}

func (in *Interp) intText(st *State, t *Term, signed bool) []Outcome {
	if !signed {
		return in.decText(st, t)
	}
	if t.isConst() {
		return ret(st, litStr(signedBig(t).String()))
	}
	n, p := in.split(st, Slt(t, zeroBV(t.w)))
	var os []Outcome
	if p != nil {
		var v *Term = t
		if t.w > 1 {
			v = Zext(Extract(t, t.w-2, 0), t.w)
		}
		os = append(os, in.decText(p, v)...)
	}
	if n != nil {
		for _, o := range in.decText(n, Neg(t)) {
			o.val = concatStr(litStr("-"), o.val.(*Str))
			os = append(os, o)
		}
	}
	return os
}

var opqN int

func opaqueStr(kind string) *Str {
	opqN++
	return &Str{parts: []SPart{{kind: spOpq, opq: fmt.Sprintf("%s!%d", kind, opqN), lenT: Zext(Var(fmt.Sprintf("%slen!%d", kind, opqN), 16), 64)}}}
}

// method finds a niladic method returning string.
func (in *Interp) strMethod(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := in.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() != name {
			continue
		}
		sg := s.Type().(*types.Signature)
		if sg.Params().Len() == 0 && sg.Results().Len() == 1 {
			if b, ok := sg.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
				return in.prog.MethodValue(s)
			}
		}
	}
	return nil
}

type fmtSpec struct {
	verb                            byte
	minus, plus, sharp, space, zero bool
	wid, prec                       int // -1 unset
}

func (f *fmtSpec) native() string {
	s := "%"
	if f.minus {
		s += "-"
	}
	if f.plus {
		s += "+"
	}
	if f.sharp {
		s += "#"
	}
	if f.space {
		s += " "
	}
	if f.zero {
		s += "0"
	}
	if f.wid >= 0 {
		s += strconv.Itoa(f.wid)
	}
	if f.prec >= 0 {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(f.verb)
}

// goVal rebuilds a constant value as a native Go value for fmt.
func (in *Interp) goVal(st *State, t types.Type, v Value) (interface{}, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, sg, ok := intWidth(u); ok {
			x, ok := v.(*Term)
			if !ok || !x.isConst() {
				return nil, false
			}
			if sg {
				n := signedBig(x).Int64()
				if u.Kind() == types.Int32 {
					return int32(n), true
				}
				return n, true
			}
			n := x.big().Uint64()
			if w == 8 {
				return uint8(n), true
			}
			return n, true
		}
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := v.(*Str)
			if !ok || !s.isLit() {
				return nil, false
			}
			return s.lit(), true
		case u.Info()&types.IsBoolean != 0:
			x, ok := v.(*Term)
			if !ok || !x.isConst() {
				return nil, false
			}
			return x == tTrue, true
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(FloatV)
			return float64(f), ok
		}
	case *types.Slice:
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 {
			s := v.(SliceV)
			x := in.sliceStr(st, s)
			if !x.isLit() {
				return nil, false
			}
			return []byte(x.lit()), true
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var r []string
			for _, e := range in.sliceElems(st, v.(SliceV)) {
				s, ok := e.(*Str)
				if !ok || !s.isLit() {
					return nil, false
				}
				r = append(r, s.lit())
			}
			return r, true
		}
	case *types.Array:
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 {
			a := v.(*Agg)
			r := make([]byte, len(a.elems))
			for i, e := range a.elems {
				x := e.(*Term)
				if !x.isConst() {
					return nil, false
				}
				r[i] = byte(x.c)
			}
			return r, true
		}
	}
	return nil, false
}

func (in *Interp) fmtArg(st *State, f *fmtSpec, arg Value, depth int) []Outcome {
	iv, ok := arg.(IfaceV)
	if !ok {
		return ret(st, opaqueStr("fmt"))
	}
	if iv.typ == nil {
		if f.verb == 'v' {
			return ret(st, litStr("<nil>"))
		}
		return ret(st, litStr("%!"+string(f.verb)+"(<nil>)"))
	}
	if f.verb == 'T' {
		return ret(st, litStr(types.TypeString(iv.typ, func(p *types.Package) string { return p.Name() })))
	}
	if f.verb == 'w' {
		g := *f
		g.verb = 'v'
		f = &g
	}
	if p, ok := iv.val.(Ptr); ok && p.obj != 0 && types.TypeString(iv.typ, nil) == "*math/big.Int" {
		// math/big formats its numbers itself
		b := in.big(st, p)
		if b.isConst() {
			return ret(st, litStr(fmt.Sprintf(f.native(), b.val())))
		}
		if (f.verb == 'x' || f.verb == 'X') && b.nonneg() && !f.plus && !f.sharp && !f.space && !f.minus && f.prec < 0 && (f.wid < 0 || f.zero) {
			return in.hexText(st, b.mag(b.t.w), f.verb == 'X', max(1, f.wid))
		}
	}
	if !f.sharp && strings.IndexByte("vsxXq", f.verb) >= 0 && depth < 3 {
		for _, m := range []string{"Error", "String"} {
			fn := in.strMethod(iv.typ, m)
			if fn == nil {
				continue
			}
			if p, ok := iv.val.(Ptr); ok && p.obj == 0 {
				return ret(st, litStr("<nil>"))
			}
			var os []Outcome
			for _, o := range in.callFn(st, fn, []Value{iv.val}, nil) {
				if o.kind != oRet {
					os = append(os, o)
					continue
				}
				os = append(os, in.fmtArg(o.st, f, IfaceV{canonType(types.Typ[types.String]), o.val}, depth+1)...)
			}
			return os
		}
	}
	if g, ok := in.goVal(st, iv.typ, iv.val); ok {
		return ret(st, litStr(fmt.Sprintf(f.native(), g)))
	}
	plain := f.wid < 0 && f.prec < 0 && !f.plus && !f.sharp && !f.space && !f.minus
	u := iv.typ.Underlying()
	if w, sg, ok := intWidth(u); ok {
		t := iv.val.(*Term)
		switch f.verb {
		case 'd', 'v':
			if plain {
				return in.intText(st, t, sg)
			}
			if f.zero && f.wid > 0 && !sg && !f.plus && !f.space && !f.minus && f.prec < 0 {
				var os []Outcome
				for _, o := range in.decText(st, t) {
					s := o.val.(*Str)
					if l, ok := s.concLen(); ok && l < f.wid {
						o.val = concatStr(litStr(strings.Repeat("0", f.wid-l)), s)
					}
					os = append(os, o)
				}
				return os
			}
		case 'x', 'X':
			if !sg && !f.plus && !f.sharp && !f.space && !f.minus && f.prec < 0 && (f.wid < 0 || f.zero) {
				return in.hexText(st, t, f.verb == 'X', max(1, f.wid))
			}
		case 'c':
			if plain {
				x := Resize(t, max(32, w))
				return in.convert(st, x, types.Typ[types.Int32], types.Typ[types.String])
			}
		case 's', 'q':
		}
		return ret(st, opaqueStr("fmt"))
	}
	var text *Str
	isBytes := false
	switch x := iv.val.(type) {
	case *Str:
		text = x
	case SliceV:
		if s, ok := u.(*types.Slice); ok {
			if w, _, ok := intWidth(s.Elem()); ok && w == 8 {
				text = in.sliceStr(st, x)
				isBytes = true
			}
		}
	case *Agg:
		if s, ok := u.(*types.Array); ok {
			if w, _, ok := intWidth(s.Elem()); ok && w == 8 {
				ts := make([]*Term, len(x.elems))
				for i, e := range x.elems {
					ts[i] = e.(*Term)
				}
				text = bytesStr(ts)
				isBytes = true
			}
		}
	case *Term:
		if x.w == 0 && plain && (f.verb == 'v' || f.verb == 't') {
			a, b := in.split(st, x)
			var os []Outcome
			if a != nil {
				os = append(os, Outcome{st: a, kind: oRet, val: litStr("true")})
			}
			if b != nil {
				os = append(os, Outcome{st: b, kind: oRet, val: litStr("false")})
			}
			return os
		}
	}
	if text != nil && plain {
		switch f.verb {
		case 's':
			return ret(st, text)
		case 'v':
			if !isBytes {
				return ret(st, text)
			}
		case 'x', 'X':
			if bs := text.bytes(); bs != nil {
				var ds []*Term
				for _, b := range bs {
					ds = append(ds, hexDigit(Extract(b, 7, 4), f.verb == 'X'), hexDigit(Extract(b, 3, 0), f.verb == 'X'))
				}
				return ret(st, bytesStr(ds))
			}
		}
	}
	return ret(st, opaqueStr("fmt"))
}

type acc struct {
	st *State
	s  *Str
}

// sprintf formats; the result also lists the values of %w operands.
func (in *Interp) sprintf(st *State, format *Str, args []Value) (outs []Outcome, wraps []Value) {
	if !format.isLit() {
		unsup("symbolic format string")
	}
	fs := format.lit()
	cur := []acc{{st, emptyStr}}
	addLit := func(s string) {
		for i := range cur {
			cur[i].s = concatStr(cur[i].s, litStr(s))
		}
	}
	argN := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			addLit(fs[i:])
			break
		}
		addLit(fs[i : i+j])
		i += j + 1
		sp := &fmtSpec{wid: -1, prec: -1}
	flags:
		for i < len(fs) {
			switch fs[i] {
			case '-':
				sp.minus = true
			case '+':
				sp.plus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
			i++
		}
		num := func() int {
			k := i
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				i++
			}
			if k == i {
				return -1
			}
			v, _ := strconv.Atoi(fs[k:i])
			return v
		}
		if i < len(fs) && (fs[i] == '*' || fs[i] == '[') {
			unsup("format %q", fs)
		}
		sp.wid = num()
		if i < len(fs) && fs[i] == '.' {
			i++
			if i < len(fs) && fs[i] == '*' {
				unsup("format %q", fs)
			}
			sp.prec = num()
			if sp.prec < 0 {
				sp.prec = 0
			}
		}
		if i >= len(fs) {
			addLit("%!(NOVERB)")
			break
		}
		sp.verb = fs[i]
		i++
		if sp.verb == '%' {
			addLit("%")
			continue
		}
		if argN >= len(args) {
			addLit("%!" + string(sp.verb) + "(MISSING)")
			continue
		}
		a := args[argN]
		argN++
		if sp.verb == 'w' {
			wraps = append(wraps, a)
		}
		var nx []acc
		for _, c := range cur {
			for _, o := range in.fmtArg(c.st, sp, a, 0) {
				if o.kind != oRet {
					outs = append(outs, o)
					continue
				}
				nx = append(nx, acc{o.st, concatStr(c.s, o.val.(*Str))})
			}
		}
		cur = nx
	}
	if argN < len(args) {
		addLit("%!(EXTRA")
		for i := range cur {
			cur[i].s = concatStr(cur[i].s, opaqueStr("fmt"))
		}
	}
	for _, c := range cur {
		outs = append(outs, Outcome{st: c.st, kind: oRet, val: c.s})
	}
	return outs, wraps
}

func (in *Interp) sprint(st *State, args []Value, ln bool) []Outcome {
	cur := []acc{{st, emptyStr}}
	var outs []Outcome
	prevStr := false
	for i, a := range args {
		iv, _ := a.(IfaceV)
		isS := false
		if iv.typ != nil {
			if b, ok := iv.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isS = true
			}
		}
		sep := ""
		if i > 0 && (ln || (!isS && !prevStr)) {
			sep = " "
		}
		prevStr = isS
		var nx []acc
		for _, c := range cur {
			for _, o := range in.fmtArg(c.st, &fmtSpec{verb: 'v', wid: -1, prec: -1}, a, 0) {
				if o.kind != oRet {
					outs = append(outs, o)
					continue
				}
				nx = append(nx, acc{o.st, concatStr(c.s, litStr(sep), o.val.(*Str))})
			}
		}
		cur = nx
	}
	for _, c := range cur {
		s := c.s
		if ln {
			s = concatStr(s, litStr("\n"))
		}
		outs = append(outs, Outcome{st: c.st, kind: oRet, val: s})
	}
	return outs
}

// then runs f on every returning outcome.
func then(os []Outcome, f func(o Outcome) []Outcome) []Outcome {
	var r []Outcome
	for _, o := range os {
		if o.kind == oRet {
			r = append(r, f(o)...)
		} else {
			r = append(r, o)
		}
	}
	return r
}

// ---- strings ----

// unit is one symbolic byte, or an indivisible atom.
type unit struct {
	ch   *Term
	part *SPart
}

func units(s *Str) ([]unit, bool) {
	var us []unit
	for i := range s.parts {
		p := &s.parts[i]
		switch p.kind {
		case spLit:
			for j := 0; j < len(p.lit); j++ {
				us = append(us, unit{ch: BV(8, uint64(p.lit[j]))})
			}
		case spBytes:
			for _, b := range p.bs {
				us = append(us, unit{ch: b})
			}
		case spAtom:
			us = append(us, unit{part: p})
		default:
			return nil, false
		}
	}
	return us, true
}

func unitsStr(us []unit) *Str {
	var ps []SPart
	var bs []*Term
	flush := func() {
		if len(bs) > 0 {
			ps = append(ps, SPart{kind: spBytes, bs: bs})
			bs = nil
		}
	}
	for _, u := range us {
		if u.part != nil {
			flush()
			ps = append(ps, *u.part)
		} else {
			bs = append(bs, u.ch)
		}
	}
	flush()
	return normStr(ps)
}

func isSpaceT(b *Term) *Term {
	return Or(Eq(b, BV(8, ' ')), And(Ule(BV(8, 9), b), Ule(b, BV(8, 13))))
}

// atomPred evaluates whether an atom may contain a byte satisfying the class; false means certainly not.
func atomMay(p *SPart, class func(byte) bool) bool {
	for c := 0; c < 256; c++ {
		if p.tbl.chars[c] && class(byte(c)) {
			return true
		}
	}
	return false
}

// splitUnits cuts at bytes satisfying cls; the callback receives the fields.
func (in *Interp) splitUnits(st *State, us []unit, cls func(*Term) *Term, f func(st *State, fields [][]unit) []Outcome) []Outcome {
	type item struct {
		st     *State
		fields [][]unit
		cur    []unit
	}
	items := []item{{st: st}}
	for _, u := range us {
		var nx []item
		for _, it := range items {
			if u.part != nil {
				it.cur = append(append([]unit{}, it.cur...), u)
				nx = append(nx, it)
				continue
			}
			a, b := in.split(it.st, cls(u.ch))
			if a != nil {
				nx = append(nx, item{a, append(append([][]unit{}, it.fields...), it.cur), nil})
			}
			if b != nil {
				nx = append(nx, item{b, it.fields, append(append([]unit{}, it.cur...), u)})
			}
		}
		items = nx
		if len(items) > 4096 {
			unsup("too many ways to split a string")
		}
	}
	var os []Outcome
	for _, it := range items {
		os = append(os, f(it.st, append(append([][]unit{}, it.fields...), it.cur))...)
	}
	return os
}

// runeClass is the class of runes a function of the program decides; nil if it does more than decide.
func (in *Interp) runeClass(st *State, fv Value) func(rune) bool {
	c, ok := fv.(*Closure)
	if !ok || c == nil || c.nat != nil || !pureFn(c.fn, map[*ssa.Function]bool{}) {
		return nil
	}
	memo := map[rune]bool{}
	return func(r rune) bool {
		if v, ok := memo[r]; ok {
			return v
		}
		os := in.callValue(st.fork(), c, []Value{BV(32, uint64(uint32(r)))}, nil)
		if len(os) != 1 || os[0].kind != oRet {
			unsup("a class of runes that is not decided by the rune")
		}
		t, ok := os[0].val.(*Term)
		if !ok || !t.isConst() {
			unsup("a class of runes that is not decided by the rune")
		}
		memo[r] = t == tTrue
		return memo[r]
	}
}

// pureFn tells that a function stores nothing but its own variables.
func pureFn(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "unicode" || fn.Pkg != nil && fn.Pkg.Pkg.Path() == "strings" || fn.Pkg != nil && fn.Pkg.Pkg.Path() == "unicode/utf8" {
		return true
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if _, ok := i.Addr.(*ssa.Alloc); !ok {
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.(*ssa.Alloc); ok {
							continue
						}
					}
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case ssa.CallInstruction:
				c := i.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				f := c.StaticCallee()
				if f == nil || !pureFn(f, seen) {
					return false
				}
			}
		}
	}
	return true
}

// fieldsBy cuts a text into fields at the runes of a class. Texts with bytes beyond ASCII are left to other.
func (in *Interp) fieldsBy(st *State, s *Str, class func(rune) bool, other func(st *State) []Outcome) ([]Outcome, bool) {
	us, ok := units(s)
	if !ok {
		return nil, false
	}
	var cs []*Term
	for _, u := range us {
		if u.part != nil {
			for _, e := range u.part.tbl.ents {
				if !utf8.ValidString(e) || strings.IndexFunc(e, class) >= 0 {
					return nil, false
				}
			}
		} else if !u.ch.isConst() {
			cs = append(cs, Ult(u.ch, BV(8, 0x80)))
		}
	}
	// 0xff stands for a constant rune of the class beyond ASCII
	const mark = 0xff
	var nu []unit
	for i := 0; i < len(us); {
		var run []byte
		j := i
		for ; j < len(us) && us[j].part == nil && us[j].ch.isConst(); j++ {
			run = append(run, byte(us[j].ch.c))
		}
		if j == i {
			nu = append(nu, us[i])
			i++
			continue
		}
		for k := 0; k < len(run); {
			r, n := utf8.DecodeRune(run[k:])
			if r == utf8.RuneError && n == 1 {
				return nil, false
			}
			if r >= 0x80 && class(r) {
				nu = append(nu, unit{ch: BV(8, mark)})
			} else {
				nu = append(nu, us[i+k:i+k+n]...)
			}
			k += n
		}
		i = j
	}
	var in7 [128]bool
	for r := range in7 {
		in7[r] = class(rune(r))
	}
	cls := func(b *Term) *Term {
		if b.isConst() {
			if b.c == mark || b.c < 0x80 && in7[b.c] {
				return tTrue
			}
			return tFalse
		}
		var or []*Term
		for lo := 0; lo < 128; lo++ {
			if !in7[lo] {
				continue
			}
			hi := lo
			for hi < 127 && in7[hi+1] {
				hi++
			}
			if lo == hi {
				or = append(or, Eq(b, BV(8, uint64(lo))))
			} else {
				or = append(or, And(Ule(BV(8, uint64(lo)), b), Ule(b, BV(8, uint64(hi)))))
			}
			lo = hi
		}
		return Or(or...)
	}
	x, y := in.split(st, And(cs...))
	var os []Outcome
	if x != nil {
		os = append(os, in.splitUnits(x, nu, cls, func(st *State, fs [][]unit) []Outcome {
			return []Outcome{fieldsToSlice(in, st, fs, true)}
		})...)
	}
	if y != nil {
		os = append(os, other(y)...)
	}
	return os, true
}

// trimClass cuts runes of a class off the ends of a string.
func (in *Interp) trimClass(st *State, s *Str, class func(rune) bool, left, right bool) ([]Outcome, bool) {
	ascii := func(b *Term) *Term {
		var or []*Term
		for c := 0; c < 128; c++ {
			if class(rune(c)) {
				or = append(or, Eq(b, BV(8, uint64(c))))
			}
		}
		return Or(or...)
	}
	var os []Outcome
	bad := false
	var rec func(st *State, ps []SPart, front bool)
	rec = func(st *State, ps []SPart, front bool) {
		if len(ps) == 0 || !front && !right {
			os = append(os, Outcome{st: st, kind: oRet, val: normStr(ps)})
			return
		}
		if front && !left {
			rec(st, ps, false)
			return
		}
		at := 0
		if !front {
			at = len(ps) - 1
		}
		p := ps[at]
		stop := func(st *State) {
			if front {
				rec(st, ps, false)
			} else {
				os = append(os, Outcome{st: st, kind: oRet, val: normStr(ps)})
			}
		}
		with := func(st *State, q SPart, gone bool) { // the part at the end becomes q, or goes
			var n []SPart
			if front {
				if !gone {
					n = append(n, q)
				}
				n = append(n, ps[1:]...)
			} else {
				n = append(n, ps[:at]...)
				if !gone {
					n = append(n, q)
				}
			}
			rec(st, n, front)
		}
		switch p.kind {
		case spLit:
			if !utf8.ValidString(p.lit) {
				bad = true
				return
			}
			var t string
			if front {
				t = strings.TrimLeftFunc(p.lit, class)
			} else {
				t = strings.TrimRightFunc(p.lit, class)
			}
			if t == p.lit {
				stop(st)
			} else if t == "" {
				with(st, p, true)
			} else if front {
				rec(st, append([]SPart{{kind: spLit, lit: t}}, ps[1:]...), false)
			} else {
				os = append(os, Outcome{st: st, kind: oRet, val: normStr(append(append([]SPart{}, ps[:at]...), SPart{kind: spLit, lit: t}))})
			}
		case spBytes:
			i := 0
			if !front {
				i = len(p.bs) - 1
			}
			c := p.bs[i]
			na, asc := in.split(st, Not(Ult(c, BV(8, 0x80))))
			if na != nil {
				os = append(os, Outcome{st: na, kind: oUnsup, msg: "trimming symbolic non-ASCII text"})
			}
			if asc == nil {
				return
			}
			x, y := in.split(asc, ascii(c))
			if x != nil {
				if len(p.bs) == 1 {
					with(x, p, true)
				} else if front {
					with(x, SPart{kind: spBytes, bs: p.bs[1:]}, false)
				} else {
					with(x, SPart{kind: spBytes, bs: p.bs[:i]}, false)
				}
			}
			if y != nil {
				stop(y)
			}
		case spAtom:
			for _, e := range p.tbl.ents {
				if e == "" || !utf8.ValidString(e) {
					bad = true
					return
				}
				r, _ := utf8.DecodeRuneInString(e)
				if !front {
					r, _ = utf8.DecodeLastRuneInString(e)
				}
				if class(r) {
					bad = true
					return
				}
			}
			stop(st)
		case spOpq:
			if !strings.HasPrefix(p.opq, "b58/") || strings.IndexFunc(b58Alpha, class) >= 0 {
				bad = true
				return
			}
			stop(st)
		default:
			bad = true
		}
	}
	rec(st, s.parts, true)
	if bad {
		return nil, false
	}
	return os, true
}

// replaceClass replaces every byte of a class by a literal.
func (in *Interp) replaceClass(st *State, s *Str, cls func(*Term) *Term, clsB func(byte) bool, repl string, run bool) ([]Outcome, bool) {
	us, ok := units(s)
	if !ok {
		return nil, false
	}
	type d struct {
		last bool
	}
	cur := []Outcome{{st: st, kind: oRet, val: Tuple{emptyStr, tFalse}}}
	for _, u := range us {
		var nx []Outcome
		for _, o := range cur {
			tp := o.val.(Tuple)
			acc, lastM := tp[0].(*Str), tp[1].(*Term)
			if u.part != nil {
				if atomMay(u.part, clsB) {
					return nil, false
				}
				nx = append(nx, Outcome{st: o.st, kind: oRet, val: Tuple{concatStr(acc, &Str{parts: []SPart{*u.part}}), tFalse}})
				continue
			}
			a, b := in.split(o.st, cls(u.ch))
			if a != nil {
				r := acc
				if !(run && lastM == tTrue) {
					r = concatStr(acc, litStr(repl))
				}
				m := tFalse
				if run {
					m = tTrue
				}
				nx = append(nx, Outcome{st: a, kind: oRet, val: Tuple{r, m}})
			}
			if b != nil {
				nx = append(nx, Outcome{st: b, kind: oRet, val: Tuple{concatStr(acc, bytesStr([]*Term{u.ch})), tFalse}})
			}
		}
		if len(nx) > 1 && !run {
			nx = in.mergeOutcomes(nx, nextObj)
		}
		if len(nx) > 2048 {
			unsup("too many replacement results")
		}
		cur = nx
	}
	for i := range cur {
		cur[i].val = cur[i].val.(Tuple)[0]
	}
	return cur, true
}

func eqByte(c byte) func(*Term) *Term { return func(t *Term) *Term { return Eq(t, BV(8, uint64(c))) } }

func litArgs(a []Value) ([]string, bool) {
	var r []string
	for _, v := range a {
		s, ok := v.(*Str)
		if !ok || !s.isLit() {
			return nil, false
		}
		r = append(r, s.lit())
	}
	return r, true
}

func (in *Interp) strSlice(st *State, ss []string) SliceV {
	vs := make([]Value, len(ss))
	for i := range ss {
		vs[i] = litStr(ss[i])
	}
	return in.newSlice(st, vs)
}

func bool2(b bool) Value { return Bool(b) }

func fieldsToSlice(in *Interp, st *State, fs [][]unit, dropEmpty bool) Outcome {
	vs := []Value{}
	for _, f := range fs {
		if dropEmpty && len(f) == 0 {
			continue
		}
		vs = append(vs, unitsStr(f))
	}
	return Outcome{st: st, kind: oRet, val: in.newSlice(st, vs)}
}

func init() {
	// functions of literal strings run natively
	lit1 := func(name string, f func(s string) Value) {
		def("strings."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s, ok := litArgs(a)
			if !ok {
				return nil, false
			}
			return ret(st, f(s[0])), true
		})
	}
	lit2 := func(name string, f func(s, t string) Value) {
		def("strings."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s, ok := litArgs(a)
			if !ok {
				return nil, false
			}
			return ret(st, f(s[0], s[1])), true
		})
	}
	ts := func(f func(string) string) func(string) Value { return func(s string) Value { return litStr(f(s)) } }
	tb := func(f func(a, b string) bool) func(a, b string) Value { return func(a, b string) Value { return Bool(f(a, b)) } }
	ti := func(f func(a, b string) int) func(a, b string) Value {
		return func(a, b string) Value { return BV(64, uint64(int64(f(a, b)))) }
	}
	lit1("Title", ts(strings.Title))
	for n, f := range map[string]func(a, b string) bool{"ContainsAny": strings.ContainsAny, "EqualFold": strings.EqualFold} {
		lit2(n, tb(f))
	}
	for n, f := range map[string]func(a, b string) int{"LastIndex": strings.LastIndex, "Count": strings.Count, "IndexAny": strings.IndexAny} {
		lit2(n, ti(f))
	}
	for _, up := range []bool{false, true} {
		up := up
		name := "ToLower"
		nat := strings.ToLower
		lo, hi := uint64('A'), uint64('Z')
		if up {
			name, nat = "ToUpper", strings.ToUpper
			lo, hi = 'a', 'z'
		}
		def("strings."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s := a[0].(*Str)
			if s.isLit() {
				return ret(st, litStr(nat(s.lit()))), true
			}
			// part by part: the mapping is rune by rune
			var cs []*Term
			var ps []SPart
			for i := range s.parts {
				p := &s.parts[i]
				switch p.kind {
				case spLit:
					if !utf8.ValidString(p.lit) {
						return nil, false
					}
					ps = append(ps, SPart{kind: spLit, lit: nat(p.lit)})
				case spAtom:
					ents := make([]string, len(p.tbl.ents))
					for i, e := range p.tbl.ents {
						if !utf8.ValidString(e) {
							return nil, false
						}
						ents[i] = nat(e)
					}
					ps = append(ps, atomStr(ents, p.idx).parts...)
				case spBytes:
					r := make([]*Term, len(p.bs))
					for i, b := range p.bs {
						cs = append(cs, Ult(b, BV(8, 0x80)))
						r[i] = Ite(And(Ule(BV(8, lo), b), Ule(b, BV(8, hi))), Bxor(b, BV(8, 0x20)), b)
					}
					ps = append(ps, SPart{kind: spBytes, bs: r})
				default:
					return nil, false
				}
			}
			x, y := in.split(st, And(cs...))
			var os []Outcome
			if x != nil {
				os = append(os, Outcome{st: x, kind: oRet, val: normStr(ps)})
			}
			if y != nil {
				os = append(os, Outcome{st: y, kind: oUnsup, msg: "case mapping of symbolic non-ASCII text"})
			}
			return os, true
		})
	}
	def("strings.Contains", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		if s, ok := litArgs(a); ok {
			return ret(st, Bool(strings.Contains(s[0], s[1]))), true
		}
		s, p := a[0].(*Str), a[1].(*Str)
		if !p.isLit() {
			return nil, false
		}
		pl := p.lit()
		if len(pl) == 1 {
			us, ok := units(s)
			if !ok {
				return nil, false
			}
			var cs []*Term
			for _, u := range us {
				if u.part != nil {
					if u.part.tbl.chars[pl[0]] {
						ents := make([]*Term, len(u.part.tbl.ents))
						for i, e := range u.part.tbl.ents {
							ents[i] = Bool(strings.IndexByte(e, pl[0]) >= 0)
						}
						cs = append(cs, Table(u.part.idx, ents))
					}
					continue
				}
				cs = append(cs, Eq(u.ch, BV(8, uint64(pl[0]))))
			}
			return ret(st, Or(cs...)), true
		}
		bs := s.bytes()
		if bs == nil {
			return nil, false
		}
		var cs []*Term
		for i := 0; i+len(pl) <= len(bs); i++ {
			var es []*Term
			for j := range pl {
				es = append(es, Eq(bs[i+j], BV(8, uint64(pl[j]))))
			}
			cs = append(cs, And(es...))
		}
		return ret(st, Or(cs...)), true
	})
	index := func(name string, nat func(s, p string) int, last bool) {
		def("strings."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			var pl string
			switch p := a[1].(type) {
			case *Str:
				if !p.isLit() {
					return nil, false
				}
				pl = p.lit()
			case *Term:
				if !p.isConst() {
					return nil, false
				}
				if p.w == 32 {
					pl = string(rune(p.c))
				} else {
					pl = string([]byte{byte(p.c)})
				}
			}
			s := a[0].(*Str)
			if s.isLit() {
				return ret(st, BV(64, uint64(int64(nat(s.lit(), pl))))), true
			}
			bs := s.bytes()
			if bs == nil || len(pl) == 0 {
				return nil, false
			}
			r := BV(64, ^uint64(0))
			n := len(bs) - len(pl)
			for k := 0; k <= n; k++ {
				i := n - k
				if last {
					i = k
				}
				var es []*Term
				for j := range pl {
					es = append(es, Eq(bs[i+j], BV(8, uint64(pl[j]))))
				}
				r = Ite(And(es...), BV(64, uint64(i)), r)
			}
			return ret(st, r), true
		})
	}
	index("Index", strings.Index, false)
	index("IndexByte", strings.Index, false)
	index("IndexRune", strings.Index, false)
	index("LastIndex", strings.LastIndex, true)
	index("LastIndexByte", strings.LastIndex, true)
	def("maps.clone", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		iv, ok := a[0].(IfaceV)
		if !ok {
			return nil, false
		}
		m := iv.val.(MapV)
		st.touch(m.obj)
		n := st.get(m.obj).(*MapObj).clone()
		n.owner = st.top()
		return ret(st, IfaceV{iv.typ, MapV{st.alloc(n)}}), true
	})
	def("strings.Fields", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		s := a[0].(*Str)
		if s.isLit() {
			return ret(st, in.strSlice(st, strings.Fields(s.lit()))), true
		}
		return in.fieldsBy(st, s, unicode.IsSpace, func(st *State) []Outcome { return in.callBody(st, fn, a, nil) })
	})
	def("strings.FieldsFunc", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		s := a[0].(*Str)
		cls := in.runeClass(st, a[1])
		if cls == nil {
			return nil, false
		}
		return in.fieldsBy(st, s, cls, func(st *State) []Outcome { return in.callBody(st, fn, a, nil) })
	})
	split := func(name string, nat func(s, sep string, n int) []string) {
		def("strings."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s, p := a[0].(*Str), a[1].(*Str)
			n := -1
			if len(a) > 2 {
				k, ok := tConstInt(a[2])
				if !ok {
					return nil, false
				}
				n = k
			}
			if s.isLit() && p.isLit() {
				r := nat(s.lit(), p.lit(), n)
				if r == nil {
					return ret(st, SliceV{}), true
				}
				return ret(st, in.strSlice(st, r)), true
			}
			if name != "Split" || !p.isLit() || len(p.lit()) != 1 {
				return nil, false
			}
			c := p.lit()[0]
			us, ok := units(s)
			if !ok {
				return nil, false
			}
			for _, u := range us {
				if u.part != nil && u.part.tbl.chars[c] {
					return nil, false
				}
			}
			return in.splitUnits(st, us, eqByte(c), func(st *State, fs [][]unit) []Outcome {
				return []Outcome{fieldsToSlice(in, st, fs, false)}
			}), true
		})
	}
	split("Split", func(s, p string, n int) []string { return strings.Split(s, p) })
	split("SplitN", strings.SplitN)
	split("SplitAfter", func(s, p string, n int) []string { return strings.SplitAfter(s, p) })
	def("strings.Join", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		es := in.sliceElems(st, a[0].(SliceV))
		sep := a[1].(*Str)
		var ps []*Str
		for i, e := range es {
			s, ok := e.(*Str)
			if !ok {
				unsup("join of %T", e)
			}
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, s)
		}
		return ret(st, concatStr(ps...)), true
	})
	repl := func(name string) {
		def("strings."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			n := -1
			if len(a) > 3 {
				k, ok := tConstInt(a[3])
				if !ok {
					return nil, false
				}
				n = k
			}
			if s, ok := litArgs(a[:3]); ok {
				return ret(st, litStr(strings.Replace(s[0], s[1], s[2], n))), true
			}
			old, nw := a[1].(*Str), a[2].(*Str)
			if n >= 0 || !old.isLit() || !nw.isLit() || len(old.lit()) != 1 {
				return nil, false
			}
			c := old.lit()[0]
			return in.replaceClass(st, a[0].(*Str), eqByte(c), func(b byte) bool { return b == c }, nw.lit(), false)
		})
	}
	repl("Replace")
	repl("ReplaceAll")
	def("strings.Repeat", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		n, ok := tConstInt(a[1])
		if !ok {
			return nil, false
		}
		if n < 0 {
			return nil, false
		}
		var ps []*Str
		for i := 0; i < n; i++ {
			ps = append(ps, a[0].(*Str))
		}
		return ret(st, concatStr(ps...)), true
	})
	trims := func(name string, left, right bool, space, byFunc bool) {
		def("strings."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s := a[0].(*Str)
			class := unicode.IsSpace
			if byFunc {
				if class = in.runeClass(st, a[1]); class == nil {
					return nil, false
				}
			} else if !space {
				c := a[1].(*Str)
				if !c.isLit() || !utf8.ValidString(c.lit()) {
					return nil, false
				}
				set := c.lit()
				class = func(r rune) bool { return strings.ContainsRune(set, r) }
			}
			return in.trimClass(st, s, class, left, right)
		})
	}
	trims("TrimSpace", true, true, true, false)
	trims("Trim", true, true, false, false)
	trims("TrimLeft", true, false, false, false)
	trims("TrimRight", false, true, false, false)
	trims("TrimFunc", true, true, false, true)
	trims("TrimLeftFunc", true, false, false, true)
	trims("TrimRightFunc", false, true, false, true)
	def("strings.Compare", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x, y := a[0].(*Str), a[1].(*Str)
		e, ok1 := strEq(x, y)
		l, ok2 := strLess(x, y)
		if !ok1 || !ok2 {
			return nil, false
		}
		return ret(st, Ite(e, BV(64, 0), Ite(l, BV(64, ^uint64(0)), BV(64, 1)))), true
	})
	for _, n := range []string{"strings.Clone", "internal/stringslite.Clone"} {
		def(n, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) { return ret(st, a[0]), true })
	}
	// Builder
	BB := "(*strings.Builder)."
	bstr := func(in *Interp, st *State, v Value) (Ptr, *Str) {
		p := v.(Ptr)
		if p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		s, ok := st.load(p).(*Str)
		if !ok {
			unsup("strings.Builder state")
		}
		return p, s
	}
	put := func(st *State, p Ptr, s *Str) {
		st.store(p, &Str{parts: s.parts, room: true})
	}
	def(BB+"String", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		_, s := bstr(in, st, a[0])
		return ret(st, &Str{parts: s.parts}), true
	})
	def(BB+"Len", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		_, s := bstr(in, st, a[0])
		return ret(st, s.lenTerm()), true
	})
	def(BB+"Cap", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		_, s := bstr(in, st, a[0])
		if n := s.lenTerm(); s.room {
			// at least its length, and never zero
			return ret(st, Ite(Eq(n, BV(64, 0)), BV(64, 8), n)), true
		}
		return ret(st, BV(64, 0)), true
	})
	def(BB+"Reset", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		p, _ := bstr(in, st, a[0])
		st.store(p, emptyStr)
		return ret(st, Tuple{}), true
	})
	def(BB+"Grow", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		if n, ok := tConstInt(a[1]); ok && n < 0 {
			return []Outcome{rtPanic(st, "strings.Builder.Grow: negative count")}, true
		}
		if n, ok := tConstInt(a[1]); !ok || n > 0 {
			p, s := bstr(in, st, a[0])
			put(st, p, s)
		}
		return ret(st, Tuple{}), true
	})
	def(BB+"WriteString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		p, s := bstr(in, st, a[0])
		x := a[1].(*Str)
		put(st, p, concatStr(s, x))
		return ret(st, Tuple{x.lenTerm(), IfaceV{}}), true
	})
	def(BB+"Write", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		p, s := bstr(in, st, a[0])
		x := in.sliceStr(st, a[1].(SliceV))
		put(st, p, concatStr(s, x))
		return ret(st, Tuple{x.lenTerm(), IfaceV{}}), true
	})
	def(BB+"WriteByte", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		p, s := bstr(in, st, a[0])
		put(st, p, concatStr(s, bytesStr([]*Term{a[1].(*Term)})))
		return ret(st, IfaceV{}), true
	})
	def(BB+"WriteRune", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		bstr(in, st, a[0])
		return then(in.convert(st, a[1], types.Typ[types.Int32], types.Typ[types.String]), func(o Outcome) []Outcome {
			p, s := bstr(in, o.st, a[0])
			x := o.val.(*Str)
			put(o.st, p, concatStr(s, x))
			return ret(o.st, Tuple{x.lenTerm(), IfaceV{}})
		}), true
	})
	// fmt
	def("fmt.Sprintf", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		os, _ := in.sprintf(st, a[0].(*Str), in.sliceElems(st, a[1].(SliceV)))
		return os, true
	})
	def("fmt.Errorf", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		os, wraps := in.sprintf(st, a[0].(*Str), in.sliceElems(st, a[1].(SliceV)))
		return then(os, func(o Outcome) []Outcome {
			if len(wraps) == 1 {
				t := in.typeOf("fmt", "wrapError").Type()
				id := o.st.alloc(&Agg{elems: []Value{o.val, wraps[0]}})
				return ret(o.st, IfaceV{canonType(ptrTo(t)), Ptr{obj: id}})
			}
			if len(wraps) > 1 {
				unsup("Errorf with several wrapped errors")
			}
			t := in.typeOf("errors", "errorString").Type()
			id := o.st.alloc(&Agg{elems: []Value{o.val}})
			return ret(o.st, IfaceV{canonType(ptrTo(t)), Ptr{obj: id}})
		}), true
	})
	def("fmt.Sprint", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return in.sprint(st, in.sliceElems(st, a[0].(SliceV)), false), true
	})
	def("fmt.Sprintln", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return in.sprint(st, in.sliceElems(st, a[0].(SliceV)), true), true
	})
	quiet := func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, zeroResults(fn)), true
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print"} {
		def(n, quiet)
	}
	fprint := func(name string, f func(in *Interp, st *State, a []Value) []Outcome) {
		def(name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			w, ok := a[0].(IfaceV)
			if !ok || w.typ == nil {
				return nil, false
			}
			if strings.HasSuffix(w.typ.String(), "os.File") {
				return ret(st, zeroResults(fn)), true
			}
			return then(f(in, st, a), func(o Outcome) []Outcome {
				s := o.val.(*Str)
				var sl SliceV
				if bs := s.bytes(); bs != nil {
					sl = in.newBytes(o.st, bs)
				} else if len(s.parts) == 0 {
					sl = in.newBytes(o.st, nil)
				} else {
					sl = SliceV{rope: s}
				}
				fn := in.prog.LookupMethod(w.typ, nil, "Write")
				if fn == nil {
					unsup("Write of %s", w.typ)
				}
				return in.callFn(o.st, fn, []Value{w.val, sl}, nil)
			}), true
		})
	}
	fprint("fmt.Fprintf", func(in *Interp, st *State, a []Value) []Outcome {
		os, _ := in.sprintf(st, a[1].(*Str), in.sliceElems(st, a[2].(SliceV)))
		return os
	})
	fprint("fmt.Fprint", func(in *Interp, st *State, a []Value) []Outcome {
		return in.sprint(st, in.sliceElems(st, a[1].(SliceV)), false)
	})
	fprint("fmt.Fprintln", func(in *Interp, st *State, a []Value) []Outcome {
		return in.sprint(st, in.sliceElems(st, a[1].(SliceV)), true)
	})
	// strconv
	itoa := func(name string, signed bool, w int) {
		def("strconv."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			t := a[0].(*Term)
			if len(a) > 1 {
				base, ok := tConstInt(a[1])
				if !ok {
					return nil, false
				}
				if base == 16 && !signed && !t.isConst() {
					return in.hexText(st, t, false, 1), true
				}
				if t.isConst() && base >= 2 && base <= 36 {
					v := t.big()
					if signed {
						v = signedBig(t)
					}
					return ret(st, litStr(v.Text(base))), true
				}
				if base != 10 {
					return nil, false
				}
			}
			return in.intText(st, t, signed), true
		})
	}
	itoa("Itoa", true, 64)
	itoa("FormatInt", true, 64)
	itoa("FormatUint", false, 64)
	// decimal numbers of concrete length: what is in range gets its value here, the rest its error
	parse := func(name string, signed bool) {
		def("strconv."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s := a[0].(*Str)
			bs := s.bytes()
			if s.isLit() || len(bs) == 0 || in.concrete {
				return nil, false
			}
			bits := 64
			if name != "Atoi" {
				base, ok := tConstInt(a[1])
				if !ok || base != 10 {
					return nil, false
				}
				b, ok := tConstInt(a[2])
				if !ok || b < 0 || b > 64 {
					return nil, false
				}
				if b > 0 {
					bits = b
				}
			}
			fail := func(st *State, kind string) []Outcome {
				args := []Value{litStr(name), s}
				return then(in.callFn(st, fn.Pkg.Func(kind), args, nil), func(o Outcome) []Outcome {
					et := fn.Signature.Results().At(1).Type()
					_ = et
					err := IfaceV{canonType(fn.Pkg.Func(kind).Signature.Results().At(0).Type()), o.val}
					return ret(o.st, Tuple{zeroBV(64), err})
				})
			}
			var os []Outcome
			number := func(st *State, bs []*Term, neg bool) {
				if len(bs) == 0 {
					os = append(os, fail(st, "syntaxError")...)
					return
				}
				var cs []*Term
				for _, b := range bs {
					cs = append(cs, Ule(BV(8, '0'), b), Ule(b, BV(8, '9')))
				}
				good, bad := in.split(st, And(cs...))
				if bad != nil {
					os = append(os, fail(bad, "syntaxError")...)
				}
				if good == nil {
					return
				}
				lim := new(big.Int).Lsh(big.NewInt(1), uint(bits))
				if signed {
					lim.Rsh(lim, 1)
				}
				lim.Sub(lim, big.NewInt(1))
				top := lim
				if neg {
					lim = new(big.Int).Add(lim, big.NewInt(1))
				}
				// the digits before the last few, as many as the limit has, have to be zero
				tail := len(lim.String())
				wide := 64
				if tail > 18 && len(bs) > 18 {
					wide = 72
				}
				var over []*Term
				h := zeroBV(wide)
				for i, b := range bs {
					d := Sub(b, BV(8, '0'))
					if i < len(bs)-tail {
						over = append(over, Not(Eq(d, zeroBV(8))))
						continue
					}
					if i == 0 || i == len(bs)-tail {
						h = Zext(d, wide)
					} else {
						h = Add(Mul(h, BV(wide, 10)), Zext(d, wide))
					}
				}
				// digits that are the text of a term mean that term
				if t := decTerm(bs); t != nil {
					h = Resize(t, wide)
				}
				over = append(over, Ult(BVBig(wide, lim), h))
				big_, fits := in.split(good, Or(over...))
				if fits != nil {
					v := Resize(h, 64)
					if neg {
						v = Neg(v)
					}
					os = append(os, Outcome{st: fits, kind: oRet, val: Tuple{v, IfaceV{}}})
				}
				if big_ != nil {
					for _, o := range fail(big_, "rangeError") {
						if o.kind == oRet {
							m := BVBig(64, top)
							if neg {
								m = Neg(BVBig(64, lim))
							}
							o.val = Tuple{m, o.val.(Tuple)[1]}
						}
						os = append(os, o)
					}
				}
			}
			if !signed {
				number(st, bs, false)
				return os, true
			}
			m, rest := in.split(st, Eq(bs[0], BV(8, '-')))
			if m != nil {
				number(m, bs[1:], true)
			}
			if rest != nil {
				p, d := in.split(rest, Eq(bs[0], BV(8, '+')))
				if p != nil {
					number(p, bs[1:], false)
				}
				if d != nil {
					number(d, bs, false)
				}
			}
			return os, true
		})
	}
	parse("ParseUint", false)
	parse("ParseInt", true)
	parse("Atoi", true)
	app := func(name string, signed bool) {
		def("strconv."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			base, ok := tConstInt(a[2])
			if !ok || base != 10 {
				return nil, false
			}
			return then(in.intText(st, a[1].(*Term), signed), func(o Outcome) []Outcome {
				return in.appendVals(o.st, a[0].(SliceV), termVals(o.val.(*Str).bytes()), 1)
			}), true
		})
	}
	app("AppendInt", true)
	app("AppendUint", false)
	def("strconv.Quote", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		s := a[0].(*Str)
		if s.isLit() {
			return ret(st, litStr(strconv.Quote(s.lit()))), true
		}
		return ret(st, opaqueStr("quote")), true
	})
	// regexp
	compile := func(st *State, pat string) (Value, error) {
		re, err := regexp.Compile(pat)
		if err != nil {
			return nil, err
		}
		return Ptr{obj: st.alloc(&Native{"regexp", re})}, nil
	}
	for _, n := range []string{"MustCompile", "Compile"} {
		n := n
		def("regexp."+n, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			s := a[0].(*Str)
			if !s.isLit() {
				unsup("symbolic regular expression")
			}
			p, err := compile(st, s.lit())
			if n == "MustCompile" {
				if err != nil {
					return []Outcome{rtPanic(st, "regexp: Compile")}, true
				}
				return ret(st, p), true
			}
			if err != nil {
				t := in.typeOf("errors", "errorString").Type()
				id := st.alloc(&Agg{elems: []Value{litStr(err.Error())}})
				return ret(st, Tuple{Ptr{}, IfaceV{canonType(ptrTo(t)), Ptr{obj: id}}}), true
			}
			return ret(st, Tuple{p, IfaceV{}}), true
		})
	}
	reOf := func(in *Interp, st *State, v Value) *regexp.Regexp {
		p := v.(Ptr)
		if p.obj == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		n, ok := st.load(p).(*Native)
		if !ok || n.kind != "regexp" {
			unsup("regexp value")
		}
		return n.d.(*regexp.Regexp)
	}
	R := "(*regexp.Regexp)."
	def(R+"String", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, litStr(reOf(in, st, a[0]).String())), true
	})
	match := func(in *Interp, st *State, re *regexp.Regexp, s *Str) []Outcome {
		if s.isLit() {
			return ret(st, Bool(re.MatchString(s.lit())))
		}
		bs := s.bytes()
		if bs == nil {
			unsup("matching a rope")
		}
		return in.nfaMatch(st, re.String(), bs)
	}
	def(R+"MatchString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return match(in, st, reOf(in, st, a[0]), a[1].(*Str)), true
	})
	def(R+"Match", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return match(in, st, reOf(in, st, a[0]), in.sliceStr(st, a[1].(SliceV))), true
	})
	def("regexp.MatchString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		p := a[0].(*Str)
		if !p.isLit() {
			unsup("symbolic regular expression")
		}
		re, err := regexp.Compile(p.lit())
		if err != nil {
			unsup("bad regular expression")
		}
		return then(match(in, st, re, a[1].(*Str)), func(o Outcome) []Outcome {
			o.val = Tuple{o.val, IfaceV{}}
			return []Outcome{o}
		}), true
	})
	replRe := func(litRepl bool) intrin {
		return func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			re := reOf(in, st, a[0])
			s, r := a[1].(*Str), a[2].(*Str)
			if !r.isLit() {
				unsup("symbolic replacement")
			}
			rl := r.lit()
			if s.isLit() {
				if litRepl {
					return ret(st, litStr(re.ReplaceAllLiteralString(s.lit(), rl))), true
				}
				return ret(st, litStr(re.ReplaceAllString(s.lit(), rl))), true
			}
			if !litRepl && strings.Contains(rl, "$") {
				unsup("replacement template")
			}
			ast, err := syntax.Parse(re.String(), syntax.Perl)
			if err != nil {
				unsup("regexp")
			}
			ast = ast.Simplify()
			run := false
			if ast.Op == syntax.OpPlus {
				run = true
				ast = ast.Sub[0]
			}
			var set []rune
			switch {
			case ast.Op == syntax.OpCharClass:
				set = ast.Rune
			case ast.Op == syntax.OpLiteral && len(ast.Rune) == 1 && ast.Flags&syntax.FoldCase == 0:
				set = []rune{ast.Rune[0], ast.Rune[0]}
			default:
				unsup("regexp replacement of %s", re)
			}
			for _, x := range set {
				if x >= 0x80 {
					unsup("regexp replacement of non-ASCII class")
				}
			}
			cls := func(t *Term) *Term {
				var cs []*Term
				for i := 0; i < len(set); i += 2 {
					cs = append(cs, And(Ule(BV(8, uint64(set[i])), t), Ule(t, BV(8, uint64(set[i+1])))))
				}
				return Or(cs...)
			}
			clsB := func(b byte) bool {
				for i := 0; i < len(set); i += 2 {
					if rune(b) >= set[i] && rune(b) <= set[i+1] {
						return true
					}
				}
				return false
			}
			os, ok := in.replaceClass(st, s, cls, clsB, rl, run)
			if !ok {
				unsup("regexp replacement in a rope")
			}
			return os, true
		}
	}
	def(R+"ReplaceAllString", replRe(false))
	def(R+"ReplaceAllLiteralString", replRe(true))
	def(R+"FindString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		re := reOf(in, st, a[0])
		s := a[1].(*Str)
		if !s.isLit() {
			unsup("FindString")
		}
		return ret(st, litStr(re.FindString(s.lit()))), true
	})
	for _, n := range []string{"FindStringSubmatch", "FindAllString", "Split"} {
		n := n
		def(R+n, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			re := reOf(in, st, a[0])
			s := a[1].(*Str)
			if !s.isLit() {
				unsup("%s on symbolic text", n)
			}
			var r []string
			if n == "FindStringSubmatch" {
				r = re.FindStringSubmatch(s.lit())
			} else {
				k, ok := tConstInt(a[2])
				if !ok {
					unsup("count")
				}
				if n == "Split" {
					r = re.Split(s.lit(), k)
				} else {
					r = re.FindAllString(s.lit(), k)
				}
			}
			if r == nil {
				return ret(st, SliceV{}), true
			}
			return ret(st, in.strSlice(st, r)), true
		})
	}
}

// nfaMatch encodes the whole simulation of the compiled program over symbolic bytes.
func (in *Interp) nfaMatch(st *State, pat string, bs []*Term) []Outcome {
	ast, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		unsup("regexp %s", pat)
	}
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		unsup("regexp %s", pat)
	}
	ascii := true
	for i := range prog.Inst {
		x := &prog.Inst[i]
		switch x.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			ascii = false
		case syntax.InstRune, syntax.InstRune1:
			for _, r := range x.Rune {
				if r >= 0x80 {
					ascii = false
				}
			}
			if syntax.Flags(x.Arg)&syntax.FoldCase != 0 {
				ascii = false
			}
		}
	}
	run := func() *Term {
		n := len(bs)
		word := func(i int) *Term {
			if i < 0 || i >= n {
				return tFalse
			}
			b := bs[i]
			rg := func(lo, hi uint64) *Term { return And(Ule(BV(8, lo), b), Ule(b, BV(8, hi))) }
			return Or(rg('a', 'z'), rg('A', 'Z'), rg('0', '9'), Eq(b, BV(8, '_')))
		}
		cur := map[uint32]*Term{}
		matched := tFalse
		var add func(pos int, pc uint32, c *Term, seen map[uint32]bool)
		add = func(pos int, pc uint32, c *Term, seen map[uint32]bool) {
			if c == tFalse || seen[pc] {
				return
			}
			x := &prog.Inst[pc]
			switch x.Op {
			case syntax.InstFail:
			case syntax.InstMatch:
				matched = Or(matched, c)
			case syntax.InstAlt, syntax.InstAltMatch:
				seen[pc] = true
				add(pos, x.Out, c, seen)
				add(pos, x.Arg, c, seen)
				delete(seen, pc)
			case syntax.InstCapture, syntax.InstNop:
				seen[pc] = true
				add(pos, x.Out, c, seen)
				delete(seen, pc)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(x.Arg)
				k := tTrue
				if e&syntax.EmptyBeginText != 0 && pos != 0 {
					k = tFalse
				}
				if e&syntax.EmptyEndText != 0 && pos != n {
					k = tFalse
				}
				if e&syntax.EmptyBeginLine != 0 && pos > 0 {
					k = And(k, Eq(bs[pos-1], BV(8, '\n')))
				}
				if e&syntax.EmptyEndLine != 0 && pos < n {
					k = And(k, Eq(bs[pos], BV(8, '\n')))
				}
				if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					d := Not(Eq(BoolToBV(word(pos-1), 1), BoolToBV(word(pos), 1)))
					if e&syntax.EmptyWordBoundary != 0 {
						k = And(k, d)
					} else {
						k = And(k, Not(d))
					}
				}
				seen[pc] = true
				add(pos, x.Out, And(c, k), seen)
				delete(seen, pc)
			default:
				if o, ok := cur[pc]; ok {
					cur[pc] = Or(o, c)
				} else {
					cur[pc] = c
				}
			}
		}
		add(0, uint32(prog.Start), tTrue, map[uint32]bool{})
		for i := 0; i < n; i++ {
			prev := cur
			cur = map[uint32]*Term{}
			for pc := uint32(0); pc < uint32(len(prog.Inst)); pc++ {
				c, ok := prev[pc]
				if !ok {
					continue
				}
				x := &prog.Inst[pc]
				var m *Term
				switch x.Op {
				case syntax.InstRuneAny:
					m = tTrue
				case syntax.InstRuneAnyNotNL:
					m = Not(Eq(bs[i], BV(8, '\n')))
				default:
					var cs []*Term
					fold := syntax.Flags(x.Arg)&syntax.FoldCase != 0
					if len(x.Rune) == 1 {
						r := x.Rune[0]
						if r < 0x80 {
							cs = append(cs, Eq(bs[i], BV(8, uint64(r))))
							if fold {
								for q := unicode.SimpleFold(r); q != r; q = unicode.SimpleFold(q) {
									if q < 0x80 {
										cs = append(cs, Eq(bs[i], BV(8, uint64(q))))
									}
								}
							}
						}
					} else {
						for k := 0; k+1 < len(x.Rune); k += 2 {
							lo, hi := x.Rune[k], x.Rune[k+1]
							if lo >= 0x80 {
								continue
							}
							if hi > 0x7f {
								hi = 0x7f
							}
							cs = append(cs, And(Ule(BV(8, uint64(lo)), bs[i]), Ule(bs[i], BV(8, uint64(hi)))))
						}
					}
					m = Or(cs...)
				}
				add(i+1, x.Out, And(c, m), map[uint32]bool{})
			}
			// unanchored search
			add(i+1, uint32(prog.Start), tTrue, map[uint32]bool{})
		}
		return matched
	}
	if ascii {
		return ret(st, run())
	}
	var cs []*Term
	for _, b := range bs {
		cs = append(cs, Ult(b, BV(8, 0x80)))
	}
	x, y := in.split(st, And(cs...))
	var os []Outcome
	if x != nil {
		os = append(os, Outcome{st: x, kind: oRet, val: run()})
	}
	if y != nil {
		os = append(os, Outcome{st: y, kind: oUnsup, msg: "regular expression on symbolic non-ASCII text"})
	}
	return os
}
