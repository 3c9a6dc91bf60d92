package main

// Symbolic strings as ropes.

import (
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

const (
	spLit = iota
	spBytes
	spAtom
	spOpq
)

// StrTbl is a table of literal strings an atom selects from.
type StrTbl struct {
	id   int
	ents []string
	uni  int // common length or -1
	lens []*Term
	// distinct entries, none empty, no white space
	distinct bool
	nospace  bool
	minLen   int
	chars    [256]bool
	pos      map[string]int
	cols     [][]*Term
}

type SPart struct {
	kind int
	lit  string
	bs   []*Term
	tbl  *StrTbl
	idx  *Term
	opq  string
	args []*Term
	lenT *Term
}

type Str struct {
	parts []SPart
	k     string
	room  bool // a Builder's content: the builder has allocated
}

var emptyStr = &Str{}
var strTbls = map[string]*StrTbl{}

func litStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{parts: []SPart{{kind: spLit, lit: s}}}
}

func bytesStr(bs []*Term) *Str { return normStr([]SPart{{kind: spBytes, bs: bs}}) }

func mkStrTbl(ents []string) *StrTbl {
	var sb strings.Builder
	for _, e := range ents {
		sb.WriteString(strconv.Itoa(len(e)))
		sb.WriteByte(':')
		sb.WriteString(e)
	}
	k := sb.String()
	if t, ok := strTbls[k]; ok {
		return t
	}
	t := &StrTbl{id: len(strTbls) + 1, ents: append([]string{}, ents...), uni: len(ents[0]), distinct: true, nospace: true, minLen: len(ents[0]), pos: map[string]int{}}
	for i, e := range ents {
		if len(e) != t.uni {
			t.uni = -1
		}
		if len(e) < t.minLen {
			t.minLen = len(e)
		}
		if _, ok := t.pos[e]; ok {
			t.distinct = false
		} else {
			t.pos[e] = i
		}
		if !utf8.ValidString(e) || len(strings.Fields(e)) != 1 || strings.Fields(e)[0] != e {
			t.nospace = false
		}
		for j := 0; j < len(e); j++ {
			t.chars[e[j]] = true
		}
		t.lens = append(t.lens, BV(64, uint64(len(e))))
	}
	strTbls[k] = t
	return t
}

func atomStr(ents []string, idx *Term) *Str {
	if idx.isConst() {
		return litStr(ents[min(int(idx.c), len(ents)-1)])
	}
	same := true
	for _, e := range ents {
		if e != ents[0] {
			same = false
		}
	}
	if same {
		return litStr(ents[0])
	}
	return normStr([]SPart{{kind: spAtom, tbl: mkStrTbl(ents), idx: idx}})
}

func normStr(ps []SPart) *Str {
	var out []SPart
	addLit := func(s string) {
		if s == "" {
			return
		}
		if n := len(out); n > 0 && out[n-1].kind == spLit {
			out[n-1] = SPart{kind: spLit, lit: out[n-1].lit + s}
			return
		}
		out = append(out, SPart{kind: spLit, lit: s})
	}
	for _, p := range ps {
		switch p.kind {
		case spLit:
			addLit(p.lit)
		case spBytes:
			for i := 0; i < len(p.bs); {
				j := i
				for j < len(p.bs) && p.bs[j].isConst() {
					j++
				}
				if j > i {
					b := make([]byte, j-i)
					for k := range b {
						b[k] = byte(p.bs[i+k].c)
					}
					addLit(string(b))
					i = j
					continue
				}
				for j < len(p.bs) && !p.bs[j].isConst() {
					j++
				}
				if n := len(out); n > 0 && out[n-1].kind == spBytes {
					out[n-1] = SPart{kind: spBytes, bs: append(append([]*Term{}, out[n-1].bs...), p.bs[i:j]...)}
				} else {
					out = append(out, SPart{kind: spBytes, bs: p.bs[i:j]})
				}
				i = j
			}
		case spAtom:
			if p.idx.isConst() {
				addLit(p.tbl.ents[min(int(p.idx.c), len(p.tbl.ents)-1)])
				continue
			}
			out = append(out, p)
		default:
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return emptyStr
	}
	return &Str{parts: out}
}

func concatStr(ss ...*Str) *Str {
	var ps []SPart
	for _, s := range ss {
		ps = append(ps, s.parts...)
	}
	return normStr(ps)
}

func (s *Str) key() string {
	if s.k != "" {
		return s.k
	}
	var sb strings.Builder
	for _, p := range s.parts {
		switch p.kind {
		case spLit:
			sb.WriteString("L" + strconv.Itoa(len(p.lit)) + ":" + p.lit)
		case spBytes:
			sb.WriteString("B" + ids(p.bs) + ";")
		case spAtom:
			sb.WriteString("A" + strconv.Itoa(p.tbl.id) + "," + strconv.Itoa(p.idx.id) + ";")
		case spOpq:
			sb.WriteString("O" + p.opq + "(" + ids(p.args) + ")")
		}
	}
	s.k = sb.String() + "."
	return s.k
}

func (s *Str) isLit() bool {
	return len(s.parts) == 0 || (len(s.parts) == 1 && s.parts[0].kind == spLit)
}
func (s *Str) lit() string {
	if len(s.parts) == 0 {
		return ""
	}
	return s.parts[0].lit
}

// rope reports whether some part has no concrete length.
func (s *Str) rope() bool { _, ok := s.concLen(); return !ok }

func (p *SPart) concLen() (int, bool) {
	switch p.kind {
	case spLit:
		return len(p.lit), true
	case spBytes:
		return len(p.bs), true
	case spAtom:
		return p.tbl.uni, p.tbl.uni >= 0
	case spOpq:
		if p.lenT != nil && p.lenT.isConst() {
			return int(p.lenT.c), true
		}
	}
	return 0, false
}

func (s *Str) concLen() (int, bool) {
	n := 0
	for i := range s.parts {
		l, ok := s.parts[i].concLen()
		if !ok {
			return 0, false
		}
		n += l
	}
	return n, true
}

func (s *Str) lenTerm() *Term {
	r := BV(64, 0)
	for i := range s.parts {
		p := &s.parts[i]
		if l, ok := p.concLen(); ok {
			r = Add(r, BV(64, uint64(l)))
			continue
		}
		if p.kind == spAtom {
			r = Add(r, Table(p.idx, p.tbl.lens))
			continue
		}
		if p.lenT == nil {
			unsup("length of opaque string %s", p.opq)
		}
		r = Add(r, p.lenT)
	}
	return r
}

func (t *StrTbl) col(i int) []*Term {
	for len(t.cols) <= i {
		t.cols = append(t.cols, nil)
	}
	if t.cols[i] == nil {
		c := make([]*Term, len(t.ents))
		for j, e := range t.ents {
			c[j] = BV(8, uint64(e[i]))
		}
		t.cols[i] = c
	}
	return t.cols[i]
}

func (p *SPart) bytes() []*Term {
	switch p.kind {
	case spLit:
		r := make([]*Term, len(p.lit))
		for i := range r {
			r[i] = BV(8, uint64(p.lit[i]))
		}
		return r
	case spBytes:
		return p.bs
	case spAtom:
		if p.tbl.uni >= 0 {
			r := make([]*Term, p.tbl.uni)
			for i := range r {
				r[i] = Table(p.idx, p.tbl.col(i))
			}
			return r
		}
	}
	return nil
}

// bytes expands the string into byte terms, or returns nil.
func (s *Str) bytes() []*Term {
	r := []*Term{}
	for i := range s.parts {
		b := s.parts[i].bytes()
		if b == nil {
			return nil
		}
		r = append(r, b...)
	}
	return r
}

// slice takes s[lo:hi] when the cut points fall inside parts of concrete length.
func (s *Str) slice(lo, hi int) (*Str, bool) {
	if lo == hi {
		return emptyStr, true
	}
	var out []SPart
	pos := 0
	for i := range s.parts {
		p := s.parts[i]
		if pos >= hi {
			break
		}
		l, ok := p.concLen()
		if !ok {
			if h := b58Head(&p); hi-pos <= len(h) {
				out = append(out, SPart{kind: spLit, lit: h[max(lo-pos, 0) : hi-pos]})
				pos = hi
				break
			}
			if n := atomHead(&p); hi-pos <= n {
				bs := []*Term{}
				for k := max(lo-pos, 0); k < hi-pos; k++ {
					bs = append(bs, Table(p.idx, p.tbl.col(k)))
				}
				out = append(out, SPart{kind: spBytes, bs: bs})
				pos = hi
				break
			}
			return nil, false
		}
		a, b := max(lo, pos), min(hi, pos+l)
		if a < b {
			if a == pos && b == pos+l {
				out = append(out, p)
			} else if p.kind == spLit {
				out = append(out, SPart{kind: spLit, lit: p.lit[a-pos : b-pos]})
			} else {
				bs := p.bytes()
				if bs == nil {
					return nil, false
				}
				out = append(out, SPart{kind: spBytes, bs: bs[a-pos : b-pos]})
			}
		}
		pos += l
	}
	if pos < hi {
		return nil, false
	}
	return normStr(out), true
}

// atomHead is how many characters each entry of a table has at least.
func atomHead(p *SPart) int {
	if p.kind != spAtom || len(p.tbl.ents) == 0 {
		return 0
	}
	n := len(p.tbl.ents[0])
	for _, e := range p.tbl.ents {
		n = min(n, len(e))
	}
	return n
}

func (s *Str) at(i int) (*Term, bool) {
	pos := 0
	for k := range s.parts {
		p := &s.parts[k]
		l, ok := p.concLen()
		if !ok {
			if h := b58Head(p); i-pos < len(h) {
				return BV(8, uint64(h[i-pos])), true
			}
			if i-pos < atomHead(p) {
				return Table(p.idx, p.tbl.col(i-pos)), true
			}
			return nil, false
		}
		if i < pos+l {
			switch p.kind {
			case spLit:
				return BV(8, uint64(p.lit[i-pos])), true
			case spBytes:
				return p.bs[i-pos], true
			case spAtom:
				return Table(p.idx, p.tbl.col(i-pos)), true
			}
			return nil, false
		}
		pos += l
	}
	return nil, false
}

var injectiveOpq = map[string]bool{"b58": true}

// strEq is the condition that two strings are equal; ok is false when it cannot be expressed.
func strEq(a, b *Str) (*Term, bool) {
	if a == b || a.key() == b.key() {
		return tTrue, true
	}
	if a.isLit() && b.isLit() {
		return Bool(a.lit() == b.lit()), true
	}
	la, ok1 := a.concLen()
	lb, ok2 := b.concLen()
	if ok1 && ok2 {
		if la != lb {
			return tFalse, true
		}
		x, y := a.bytes(), b.bytes()
		if x != nil && y != nil {
			cs := make([]*Term, la)
			for i := range cs {
				cs[i] = Eq(x[i], y[i])
				if cs[i] == tFalse {
					return tFalse, true
				}
			}
			return And(cs...), true
		}
	}
	return ropeEq(a.parts, b.parts)
}

func ropeEq(a, b []SPart) (*Term, bool) {
	a = append([]SPart{}, a...)
	b = append([]SPart{}, b...)
	res := tTrue
	for {
		if len(a) == 0 && len(b) == 0 {
			return res, true
		}
		if len(a) == 0 || len(b) == 0 {
			r := a
			if len(a) == 0 {
				r = b
			}
			// the remainder has to be empty
			for _, p := range r {
				if l, ok := p.concLen(); ok && l > 0 {
					return tFalse, true
				}
				if p.kind == spAtom {
					if p.tbl.minLen > 0 {
						return tFalse, true
					}
				}
				if p.kind == spOpq && strings.HasPrefix(p.opq, "b58") {
					return tFalse, true // encodings of non-empty data are non-empty
				}
			}
			return nil, false
		}
		p, q := &a[0], &b[0]
		if p.kind == spOpq && q.kind == spOpq {
			if p.opq != q.opq || len(p.args) != len(q.args) {
				if len(a) == 1 && len(b) == 1 && strings.HasPrefix(p.opq, "b58/") && strings.HasPrefix(q.opq, "b58/") {
					return tFalse, true // encodings of data of different lengths
				}
				return nil, false
			}
			var cs []*Term
			for i := range p.args {
				if p.args[i].w != q.args[i].w {
					return nil, false
				}
				cs = append(cs, Eq(p.args[i], q.args[i]))
			}
			c := And(cs...)
			if c != tTrue && !(injectiveOpq[strings.SplitN(p.opq, "/", 2)[0]] && len(a) == 1 && len(b) == 1) {
				return nil, false
			}
			res = And(res, c)
			a, b = a[1:], b[1:]
			continue
		}
		if p.kind == spOpq || q.kind == spOpq {
			o, l := p, q
			if q.kind == spOpq {
				o, l = q, p
			}
			if len(a) == 1 && len(b) == 1 && strings.HasPrefix(o.opq, "b58/") && l.kind == spLit {
				d := b58Decode(l.lit)
				if len(d)*8 != o.args[0].w || b58Encode(d) != l.lit {
					return tFalse, true
				}
				return Eq(o.args[0], BVBytes(d)), true
			}
			return nil, false
		}
		lp, okp := p.concLen()
		lq, okq := q.concLen()
		if okp && okq {
			n := min(lp, lq)
			x, y := p.bytes(), q.bytes()
			for i := 0; i < n; i++ {
				res = And(res, Eq(x[i], y[i]))
			}
			if res == tFalse {
				return tFalse, true
			}
			cut := func(ps []SPart, l int, bs []*Term) []SPart {
				if n == l {
					return ps[1:]
				}
				ps[0] = normStr([]SPart{{kind: spBytes, bs: bs[n:]}}).parts[0]
				rest := normStr([]SPart{{kind: spBytes, bs: bs[n:]}}).parts
				return append(append([]SPart{}, rest...), ps[1:]...)
			}
			a = cut(a, lp, x)
			b = cut(b, lq, y)
			continue
		}
		// a variable-length atom is involved
		if p.kind != spAtom || okp {
			a, b = b, a
			p, q = q, p
		}
		if q.kind == spAtom {
			if !delimited(a, p.tbl, q.tbl) || !delimited(b, p.tbl, q.tbl) {
				if p.tbl == q.tbl && p.idx == q.idx {
					a, b = a[1:], b[1:]
					continue
				}
				return nil, false
			}
			res = And(res, atomEq(p, q))
			if res == tFalse {
				return tFalse, true
			}
			a, b = a[1:], b[1:]
			continue
		}
		if q.kind == spLit {
			// match the literal up to the delimiter that follows the atom
			if len(a) == 1 {
				if len(b) == 1 {
					res = And(res, atomLit(p, q.lit))
					return res, true
				}
				return nil, false
			}
			if !delimited(a, p.tbl, p.tbl) {
				return nil, false
			}
			d := firstByte(&a[1])
			j := strings.IndexByte(q.lit, d)
			if j < 0 {
				if len(b) == 1 {
					return tFalse, true
				}
				return nil, false
			}
			res = And(res, atomLit(p, q.lit[:j]))
			if res == tFalse {
				return tFalse, true
			}
			a = a[1:]
			b[0] = SPart{kind: spLit, lit: q.lit[j:]}
			continue
		}
		return nil, false
	}
}

func firstByte(p *SPart) byte { return p.lit[0] }

// delimited: the first part is followed by the end or by a literal starting with a byte that no table entry contains.
func delimited(a []SPart, t1, t2 *StrTbl) bool {
	if len(a) == 1 {
		return true
	}
	if a[1].kind != spLit {
		return false
	}
	c := a[1].lit[0]
	return !t1.chars[c] && !t2.chars[c]
}

func atomLit(p *SPart, s string) *Term {
	ents := make([]*Term, len(p.tbl.ents))
	any := false
	for i, e := range p.tbl.ents {
		ents[i] = Bool(e == s)
		any = any || e == s
	}
	if !any {
		return tFalse
	}
	return Table(p.idx, ents)
}

func atomEq(p, q *SPart) *Term {
	if p.tbl == q.tbl && p.tbl.distinct {
		w := max(p.idx.w, q.idx.w)
		return Eq(Resize(p.idx, w), Resize(q.idx, w))
	}
	// rank both sides in the union of the tables
	rank := map[string]int{}
	var all []string
	for _, t := range []*StrTbl{p.tbl, q.tbl} {
		for _, e := range t.ents {
			if _, ok := rank[e]; !ok {
				rank[e] = 0
				all = append(all, e)
			}
		}
	}
	sort.Strings(all)
	for i, e := range all {
		rank[e] = i
	}
	f := func(t *StrTbl, idx *Term) *Term {
		es := make([]*Term, len(t.ents))
		for i, e := range t.ents {
			es[i] = BV(32, uint64(rank[e]))
		}
		return Table(idx, es)
	}
	return Eq(f(p.tbl, p.idx), f(q.tbl, q.idx))
}

// strLess is a < b bytewise.
func strLess(a, b *Str) (*Term, bool) {
	if a.isLit() && b.isLit() {
		return Bool(a.lit() < b.lit()), true
	}
	if len(a.parts) == 1 && a.parts[0].kind == spAtom && b.isLit() {
		p := &a.parts[0]
		es := make([]*Term, len(p.tbl.ents))
		for i, e := range p.tbl.ents {
			es[i] = Bool(e < b.lit())
		}
		return Table(p.idx, es), true
	}
	if len(b.parts) == 1 && b.parts[0].kind == spAtom && a.isLit() {
		p := &b.parts[0]
		es := make([]*Term, len(p.tbl.ents))
		for i, e := range p.tbl.ents {
			es[i] = Bool(a.lit() < e)
		}
		return Table(p.idx, es), true
	}
	if len(a.parts) == 1 && len(b.parts) == 1 && a.parts[0].kind == spAtom && b.parts[0].kind == spAtom {
		p, q := &a.parts[0], &b.parts[0]
		if p.tbl == q.tbl && sort.StringsAreSorted(p.tbl.ents) && p.tbl.distinct {
			w := max(p.idx.w, q.idx.w)
			return Ult(Resize(p.idx, w), Resize(q.idx, w)), true
		}
	}
	x, y := a.bytes(), b.bytes()
	if x == nil || y == nil {
		return nil, false
	}
	n := min(len(x), len(y))
	if n >= 16 {
		// long ones as numbers, the form in which keys are compared elsewhere
		a, b := Concat(x[:n]...), Concat(y[:n]...)
		if len(x) < len(y) {
			return Not(Ult(b, a)), true
		}
		return Ult(a, b), true
	}
	r := Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = Or(Ult(x[i], y[i]), And(Eq(x[i], y[i]), r))
	}
	return r, true
}
