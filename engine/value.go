package main

// Values, heap and state merging.

import (
	"fmt"
	"os"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Value interface{}

type FloatV float64

// PNode is an interned access path inside an object.
type PNode struct {
	parent *PNode
	idx    int
	sym    *Term // symbolic element index (idx == -1), 64 bit
	win    int   // >=0 with isWin: a window of win elements starting at idx
	isWin  bool
	id     int
}

type pnKey struct {
	p   *PNode
	idx int
	sym *Term
	win int
}

var pnodes = map[pnKey]*PNode{}

func sub(p *PNode, idx int) *PNode {
	if p != nil && p.isWin {
		return sub(p.parent, p.idx+idx)
	}
	k := pnKey{p, idx, nil, -1}
	if n, ok := pnodes[k]; ok {
		return n
	}
	n := &PNode{parent: p, idx: idx, id: len(pnodes) + 1}
	pnodes[k] = n
	return n
}

func subWin(p *PNode, off, n int) *PNode {
	k := pnKey{p, off, nil, n}
	if n, ok := pnodes[k]; ok {
		return n
	}
	nd := &PNode{parent: p, idx: off, win: n, isWin: true, id: len(pnodes) + 1}
	pnodes[k] = nd
	return nd
}

func subSym(p *PNode, t *Term) *PNode {
	if p != nil && p.isWin {
		return subSym(p.parent, Add(t, BV(64, uint64(p.idx))))
	}
	k := pnKey{p, -1, t, -1}
	if n, ok := pnodes[k]; ok {
		return n
	}
	n := &PNode{parent: p, idx: -1, sym: t, id: len(pnodes) + 1}
	pnodes[k] = n
	return n
}

func (p *PNode) steps() []*PNode {
	var r []*PNode
	for q := p; q != nil; q = q.parent {
		r = append(r, q)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type Ptr struct {
	obj  int
	path *PNode
}

// SliceV is a window on an array. rope is set for byte slices whose length is not concrete.
type SliceV struct {
	obj           int
	path          *PNode
	off, len, cap int
	rope          *Str
}

type Agg struct {
	elems []Value
	owner *Layer
}

type IfaceV struct {
	typ types.Type // canonical; nil for the nil interface
	val Value
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
	nat   *NativeFn
}

type NativeFn struct {
	name string
	f    func(in *Interp, st *State, args []Value) []Outcome
}

type MapV struct{ obj int }

type Tuple []Value

// BigV is an arbitrary-precision signed integer: t is two's complement.
type BigV struct {
	t    *Term
	poly *Poly
}

// Native is engine-side immutable data.
type Native struct {
	kind string
	d    interface{}
}

type MapObj struct {
	keys  []Value
	vals  []Value
	index map[string]int // concrete key -> entry
	owner *Layer
	nsym  int // entries with symbolic keys
}

type Layer struct {
	m      map[int]Value
	parent *Layer
	depth  int
	frozen bool
}

type State struct {
	heap  *Layer
	pc    *PC
	names *NameCnt
	obs   *Obs
	panic []*PanicV // panics being handled by deferred calls, innermost last
	fork_ int       // identifies the harness's own case distinctions; states of different cases are kept apart
	// while watch > 0, the objects below it are shared with other goroutines
	watch, wlocks, rlocks int
	raced                 int // 1 + the first shared object used without the lock it needs
}

// lockedIDs are the shared objects some path wrote under a lock.
var lockedIDs = map[int]bool{}

// shared tells whether an object was there when watching began; package-level variables are made when first met.
func (st *State) shared(id int) bool {
	if id < st.watch {
		return true
	}
	_, ok := baseLayer.m[id]
	return ok
}

func (st *State) touch(id int) {
	if st.watch == 0 || st.raced != 0 || !st.shared(id) {
		return
	}
	if st.wlocks > 0 {
		lockedIDs[id] = true
		return
	}
	st.raced = 1 + id
}

// sync runs a model that stands for synchronised accesses.
func synced(in *Interp, st *State, f func() ([]Outcome, bool)) ([]Outcome, bool) {
	st.wlocks++
	os, ok := f()
	for i := range os {
		if os[i].st != st {
			os[i].st.wlocks--
		}
	}
	st.wlocks--
	return os, ok
}

var forkIDs = map[[3]int]int{}

// caseID names the choice of i at term t in the case prev.
func caseID(prev int, t *Term, i int) int {
	k := [3]int{prev, t.id, i}
	id, ok := forkIDs[k]
	if !ok {
		id = len(forkIDs) + 1
		forkIDs[k] = id
	}
	return id
}

// NameCnt is a persistent list of harness input counters.
type NameCnt struct {
	parent *NameCnt
	name   string
	n      int
}

func (c *NameCnt) get(n string) int {
	for q := c; q != nil; q = q.parent {
		if q.name == n {
			return q.n
		}
	}
	return 0
}

type Obs struct {
	parent *Obs
	label  string
	val    Value
}

type PanicV struct {
	val       IfaceV
	msg       string
	recovered bool
	goexit    bool
}

func (st *State) fork() *State {
	st.heap.frozen = true
	n := *st
	n.panic = append([]*PanicV{}, st.panic...)
	return &n
}

var baseLayer = &Layer{m: map[int]Value{}}
var nextObj = 1

func (st *State) top() *Layer {
	if st.heap.frozen {
		if st.heap.depth > 24 {
			st.flatten()
		} else {
			st.heap = &Layer{m: map[int]Value{}, parent: st.heap, depth: st.heap.depth + 1}
		}
	}
	return st.heap
}

func (st *State) flatten() {
	var ls []*Layer
	for l := st.heap; l != nil && l != baseLayer; l = l.parent {
		ls = append(ls, l)
	}
	n := &Layer{m: map[int]Value{}, parent: baseLayer, depth: 1}
	for i := len(ls) - 1; i >= 0; i-- {
		for k, v := range ls[i].m {
			n.m[k] = v
		}
	}
	st.heap = n
}

func (st *State) get(id int) Value {
	if st.watch > 0 && st.wlocks == 0 && st.rlocks == 0 && st.raced == 0 && lockedIDs[id] && st.shared(id) {
		st.raced = 1 + id
	}
	return st.peek(id)
}

// peek is get for the engine's own purposes.
func (st *State) peek(id int) Value {
	for l := st.heap; l != nil; l = l.parent {
		if v, ok := l.m[id]; ok {
			return v
		}
	}
	return nil
}

func (st *State) put(id int, v Value) {
	st.touch(id)
	st.top().m[id] = v
}

func (st *State) alloc(v Value) int {
	id := nextObj
	nextObj++
	st.put(id, v)
	return id
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- loads and stores ----

func (st *State) load(p Ptr) Value {
	v := st.get(p.obj)
	if v == nil {
		unsup("load from unknown object %d", p.obj)
	}
	if p.path == nil {
		if a, ok := v.(*Agg); ok && a.owner != nil {
			a.owner = nil
		}
		return v
	}
	return loadPath(v, p.path.steps())
}

func loadPath(v Value, steps []*PNode) Value {
	for i, s := range steps {
		a, ok := v.(*Agg)
		if !ok {
			unsup("path into %T", v)
		}
		if s.sym != nil {
			rest := steps[i+1:]
			vals := make([]Value, len(a.elems))
			for j := range a.elems {
				vals[j] = loadPath(a.elems[j], rest)
			}
			return selectVal(s.sym, vals)
		}
		if s.isWin {
			if s.idx+s.win > len(a.elems) {
				unsup("window")
			}
			v = &Agg{elems: append([]Value{}, a.elems[s.idx:s.idx+s.win]...)}
			continue
		}
		if s.idx >= len(a.elems) {
			unsup("path index %d of %d", s.idx, len(a.elems))
		}
		v = a.elems[s.idx]
	}
	if a, ok := v.(*Agg); ok {
		a.owner = nil
	}
	return v
}

func (st *State) store(p Ptr, v Value) {
	st.touch(p.obj)
	if p.path == nil {
		st.put(p.obj, v)
		return
	}
	cur := st.get(p.obj)
	if cur == nil {
		unsup("store to unknown object")
	}
	top := st.top()
	steps := p.path.steps()
	a, ok := cur.(*Agg)
	if ok && a.owner == top && len(steps) == 1 && steps[0].sym == nil && !steps[0].isWin {
		a.elems[steps[0].idx] = v
		return
	}
	n := storePath(cur, steps, v)
	if na, ok := n.(*Agg); ok {
		na.owner = top
	}
	top.m[p.obj] = n
}

func storePath(cur Value, steps []*PNode, v Value) Value {
	if len(steps) == 0 {
		return v
	}
	a, ok := cur.(*Agg)
	if !ok {
		unsup("store path into %T", cur)
	}
	s := steps[0]
	n := &Agg{elems: append([]Value{}, a.elems...)}
	if s.sym != nil {
		for j := range n.elems {
			nv := storePath(a.elems[j], steps[1:], v)
			m, ok := iteVal(Eq(s.sym, BV(64, uint64(j))), nv, a.elems[j])
			if !ok {
				unsup("symbolic store of %T", v)
			}
			n.elems[j] = m
		}
		return n
	}
	if s.isWin {
		if len(steps) != 1 {
			unsup("store inside window")
		}
		b, ok := v.(*Agg)
		if !ok || len(b.elems) != s.win || s.idx+s.win > len(a.elems) {
			unsup("window store")
		}
		copy(n.elems[s.idx:], b.elems)
		return n
	}
	if s.idx >= len(a.elems) {
		unsup("store index %d of %d", s.idx, len(a.elems))
	}
	n.elems[s.idx] = storePath(a.elems[s.idx], steps[1:], v)
	return n
}

// selectVal reads vals[idx] for a symbolic idx known to be in range.
func selectVal(idx *Term, vals []Value) Value {
	if idx.isConst() {
		return vals[idx.c]
	}
	// which entries can it be?
	if idx.leaves > 0 {
		// ite tree of constants
		var rec func(t *Term) (Value, bool)
		rec = func(t *Term) (Value, bool) {
			if t.isConst() {
				i := int(t.c)
				if i >= len(vals) {
					i = len(vals) - 1
				}
				return vals[i], true
			}
			x, ok1 := rec(t.args[1])
			y, ok2 := rec(t.args[2])
			if !ok1 || !ok2 {
				return nil, false
			}
			return iteVal(t.args[0], x, y)
		}
		if v, ok := rec(idx); ok {
			return v
		}
	}
	lo, hi := urange(idx, 3)
	l, h := 0, len(vals)-1
	if lo.IsInt64() && lo.Int64() < int64(len(vals)) {
		l = int(lo.Int64())
	}
	if hi.IsInt64() && hi.Int64() < int64(h) {
		h = int(hi.Int64())
	}
	if l == h {
		return vals[l]
	}
	switch vals[l].(type) {
	case *Term:
		allc := true
		ts := make([]*Term, h+1)
		for i := 0; i <= h; i++ {
			t, ok := vals[i].(*Term)
			if !ok {
				unsup("mixed select")
			}
			ts[i] = t
			if !t.isConst() {
				allc = false
			}
		}
		if allc {
			return Table(idx, ts)
		}
		r := ts[h]
		for i := h - 1; i >= l; i-- {
			r = Ite(Eq(idx, BV(idx.w, uint64(i))), ts[i], r)
		}
		return r
	case *Str:
		ss := make([]string, len(vals))
		for i := range vals {
			s, ok := vals[i].(*Str)
			if !ok || !s.isLit() {
				goto generic
			}
			ss[i] = s.lit()
		}
		return atomStr(ss, idx)
	case *Agg:
		a0 := vals[l].(*Agg)
		n := &Agg{elems: make([]Value, len(a0.elems))}
		for k := range a0.elems {
			col := make([]Value, h+1)
			for i := 0; i <= h; i++ {
				a, ok := vals[i].(*Agg)
				if !ok || len(a.elems) != len(a0.elems) {
					unsup("select agg")
				}
				col[i] = a.elems[k]
			}
			n.elems[k] = selectVal(idx, col)
		}
		return n
	}
generic:
	r := vals[h]
	for i := h - 1; i >= l; i-- {
		m, ok := iteVal(Eq(idx, BV(idx.w, uint64(i))), vals[i], r)
		if !ok {
			// values the caller may not use further (pointers, slices): opaque
			return opaqueSelect(idx, vals[l:h+1])
		}
		r = m
	}
	return r
}

// Unusable is a value that could not be represented; touching it is an error.
type Unusable struct{ why string }

func opaqueSelect(idx *Term, vals []Value) Value {
	return &Unusable{fmt.Sprintf("symbolic selection among %T", vals[0])}
}

func sameVal(x, y Value) bool {
	switch a := x.(type) {
	case *Term, *Agg, *Closure, *BigV, *Native, *MapObj, *Unusable, FloatV, Ptr, MapV, *ssa.Builtin:
		return x == y
	case *Str:
		b, ok := y.(*Str)
		return ok && (a == b || a.key() == b.key())
	case SliceV:
		b, ok := y.(SliceV)
		return ok && a == b
	case IfaceV:
		b, ok := y.(IfaceV)
		return ok && a.typ == b.typ && sameVal(a.val, b.val)
	case Tuple:
		b, ok := y.(Tuple)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case nil:
		return y == nil
	}
	return false
}

// iteVal builds c ? x : y without touching the heap.
func iteVal(c *Term, x, y Value) (Value, bool) {
	m := &merger{cond: c, free: true}
	return m.val(x, y)
}

// ---- merging ----

type merger struct {
	cond    *Term // true: side A
	a, b    *State
	entry   int
	ba      map[int]int // B object -> A object
	ab      map[int]int
	queue   [][2]int
	queued  map[[2]int]bool
	free    bool // no object unification, constants of any width may differ
	newVals map[int]Value
}

func (m *merger) existsIn(st *State, id int) bool { return st.peek(id) != nil }

func (m *merger) obj(x, y int) bool {
	if x == 0 || y == 0 {
		return x == y
	}
	if m.free {
		return x == y
	}
	if z, ok := m.ba[y]; ok {
		return z == x
	}
	if _, ok := m.ab[x]; ok {
		return false
	}
	if x == y {
		m.ba[y], m.ab[x] = x, y
		if x > m.entry {
			m.enqueue(x, y)
		}
		return true
	}
	// both private to their side
	if m.existsIn(m.b, x) || m.existsIn(m.a, y) {
		return false
	}
	m.ba[y], m.ab[x] = x, y
	m.enqueue(x, y)
	return true
}

func (m *merger) enqueue(x, y int) {
	k := [2]int{x, y}
	if !m.queued[k] {
		m.queued[k] = true
		m.queue = append(m.queue, k)
	}
}

var mergeDebug = os.Getenv("SYMGO_MERGE") != ""
var mergeWhy = map[string]int{}

func (m *merger) val(x, y Value) (Value, bool) {
	v, ok := m.val1(x, y)
	if !ok && mergeDebug && !m.free {
		var a, b strings.Builder
		shapeOf(&a, x)
		shapeOf(&b, y)
		mergeWhy[fmt.Sprintf("%T %s | %T %s", x, tail(a.String(), 60), y, tail(b.String(), 60))]++
	}
	return v, ok
}

func (m *merger) val1(x, y Value) (Value, bool) {
	switch a := x.(type) {
	case nil:
		return nil, y == nil
	case *Term:
		b, ok := y.(*Term)
		if !ok || a.w != b.w {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if !m.free && a.w == 64 && a.leaves > 0 && b.leaves > 0 {
			return nil, false // keep counters and lengths concrete
		}
		return Ite(m.cond, a, b), true
	case FloatV:
		return x, x == y
	case *Str:
		b, ok := y.(*Str)
		if !ok {
			return nil, false
		}
		return m.str(a, b)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok || a.path != b.path || !m.obj(a.obj, b.obj) {
			return nil, false
		}
		return a, true
	case SliceV:
		b, ok := y.(SliceV)
		if !ok {
			return nil, false
		}
		if a.rope != nil || b.rope != nil {
			if a.rope != nil && b.rope != nil && a.rope.key() == b.rope.key() {
				return a, true
			}
			return nil, false
		}
		if a.len == 0 && b.len == 0 && a.cap == 0 && b.cap == 0 && (a.obj == 0) == (b.obj == 0) {
			return a, true
		}
		if a.path != b.path || a.off != b.off || a.len != b.len || a.cap != b.cap || !m.obj(a.obj, b.obj) {
			return nil, false
		}
		return a, true
	case *Agg:
		b, ok := y.(*Agg)
		if !ok || len(a.elems) != len(b.elems) {
			return nil, false
		}
		n := &Agg{elems: make([]Value, len(a.elems))}
		for i := range a.elems {
			v, ok := m.val(a.elems[i], b.elems[i])
			if !ok {
				return nil, false
			}
			n.elems[i] = v
		}
		return n, true
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok || a.typ != b.typ {
			return nil, false
		}
		if a.typ == nil {
			return a, true
		}
		v, ok := m.val(a.val, b.val)
		return IfaceV{a.typ, v}, ok
	case *Closure:
		b, ok := y.(*Closure)
		if !ok {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if a == nil || b == nil || a.fn != b.fn || a.nat != b.nat || len(a.binds) != len(b.binds) {
			return nil, false
		}
		n := &Closure{fn: a.fn, nat: a.nat}
		for i := range a.binds {
			v, ok := m.val(a.binds[i], b.binds[i])
			if !ok {
				return nil, false
			}
			n.binds = append(n.binds, v)
		}
		return n, true
	case MapV:
		b, ok := y.(MapV)
		if !ok || !m.obj(a.obj, b.obj) {
			return nil, false
		}
		return a, true
	case *MapObj:
		b, ok := y.(*MapObj)
		if !ok {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if len(a.keys) != len(b.keys) {
			return nil, false
		}
		n := a.clone()
		for i := range a.keys {
			if !sameVal(a.keys[i], b.keys[i]) {
				return nil, false
			}
			v, ok := m.val(a.vals[i], b.vals[i])
			if !ok {
				return nil, false
			}
			n.vals[i] = v
		}
		return n, true
	case Tuple:
		b, ok := y.(Tuple)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		n := make(Tuple, len(a))
		for i := range a {
			v, ok := m.val(a[i], b[i])
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case *BigV:
		b, ok := y.(*BigV)
		if !ok {
			return nil, false
		}
		if a == b || a.t == b.t {
			return a, true
		}
		return bigIte(m.cond, a, b), true
	case *Native:
		b, ok := y.(*Native)
		if !ok {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if a.kind == b.kind && a.kind == "hash" {
			ha, hb := a.d.(*hashState), b.d.(*hashState)
			if ha.alg != hb.alg || ha.data.rope() != hb.data.rope() {
				return nil, false
			}
			s, ok := m.str(ha.data, hb.data)
			if !ok {
				return nil, false
			}
			var k *Str
			if ha.key != nil {
				if hb.key == nil {
					return nil, false
				}
				if k, ok = m.str(ha.key, hb.key); !ok {
					return nil, false
				}
			}
			return &Native{"hash", &hashState{alg: ha.alg, key: k, data: s}}, true
		}
		return nil, false
	case *Unusable:
		if _, ok := y.(*Unusable); ok {
			return x, true
		}
		return nil, false
	}
	if x == y {
		return x, true
	}
	return nil, false
}

func (m *merger) str(a, b *Str) (*Str, bool) {
	if a == b || a.key() == b.key() {
		return a, true
	}
	la, ok1 := a.concLen()
	lb, ok2 := b.concLen()
	if ok1 && ok2 && la == lb && (m.free || !a.isLit() || !b.isLit()) {
		ba, bb := a.bytes(), b.bytes()
		if ba != nil && bb != nil {
			out := make([]*Term, la)
			for i := range out {
				out[i] = Ite(m.cond, ba[i], bb[i])
			}
			return bytesStr(out), true
		}
	}
	if len(a.parts) == 1 && len(b.parts) == 1 && (a.parts[0].kind == spAtom || b.parts[0].kind == spAtom) {
		if r, ok := mergeAtoms(m.cond, &a.parts[0], &b.parts[0]); ok {
			return r, true
		}
	}
	if len(a.parts) == len(b.parts) {
		// part by part
		out := &Str{}
		for i := range a.parts {
			p, q := a.parts[i], b.parts[i]
			switch {
			case p.kind == spAtom && q.kind == spAtom && p.tbl == q.tbl:
				out.parts = append(out.parts, SPart{kind: spAtom, tbl: p.tbl, idx: Ite(m.cond, p.idx, q.idx)})
			case p.kind == spLit && q.kind == spLit && p.lit == q.lit:
				out.parts = append(out.parts, p)
			case p.kind == spOpq && q.kind == spOpq && p.opq == q.opq && len(p.args) == len(q.args):
				n := SPart{kind: spOpq, opq: p.opq, lenT: p.lenT}
				for j := range p.args {
					if p.args[j].w != q.args[j].w {
						return nil, false
					}
					n.args = append(n.args, Ite(m.cond, p.args[j], q.args[j]))
				}
				out.parts = append(out.parts, n)
			case p.kind == spBytes && q.kind == spBytes && len(p.bs) == len(q.bs):
				n := SPart{kind: spBytes}
				for j := range p.bs {
					n.bs = append(n.bs, Ite(m.cond, p.bs[j], q.bs[j]))
				}
				out.parts = append(out.parts, n)
			default:
				return nil, false
			}
		}
		return normStr(out.parts), true
	}
	return nil, false
}

// mergeAtoms joins two choices from string tables (a literal is a choice of one).
func mergeAtoms(c *Term, p, q *SPart) (*Str, bool) {
	ents := func(x *SPart) ([]string, *Term) {
		switch x.kind {
		case spAtom:
			return x.tbl.ents, x.idx
		case spLit:
			return []string{x.lit}, BV(16, 0)
		}
		return nil, nil
	}
	e1, i1 := ents(p)
	e2, i2 := ents(q)
	if e1 == nil || e2 == nil {
		return nil, false
	}
	flip := false
	if len(e2) > len(e1) {
		e1, i1, e2, i2, flip = e2, i2, e1, i1, true
	}
	all := e1
	off := -1
	if len(e2) == 1 {
		for k, e := range e1 {
			if e == e2[0] {
				off = k
				break
			}
		}
	} else {
		same := true
		for k := range e2 {
			if e1[k] != e2[k] {
				same = false
				break
			}
		}
		if same {
			off = 0
		}
	}
	if off < 0 {
		off = len(e1)
		all = append(append([]string{}, e1...), e2...)
	}
	if len(all) > 60000 {
		return nil, false
	}
	w := max(i1.w, i2.w, 17)
	j1, j2 := Resize(i1, w), Add(Resize(i2, w), BV(w, uint64(off)))
	if flip {
		j1, j2 = j2, j1
	}
	return atomStr(all, narrow(Ite(c, j1, j2))), true
}

func narrow(t *Term) *Term {
	if !t.isConst() && t.lz > 0 && t.lz < t.w {
		return Extract(t, t.w-t.lz-1, 0)
	}
	return t
}

// mergeStates joins two states and the values live in them.
func mergeStates(a, b *State, av, bv []Value, entry int) (*State, []Value, bool) {
	if len(av) != len(bv) || len(a.panic) != len(b.panic) || a.fork_ != b.fork_ || a.watch != b.watch || a.wlocks != b.wlocks || a.rlocks != b.rlocks || a.raced != b.raced {
		return nil, nil, false
	}
	for i := range a.panic {
		if a.panic[i] != b.panic[i] {
			return nil, nil, false
		}
	}
	if a.names != b.names {
		// equal counters suffice
		if !sameNames(a.names, b.names) {
			return nil, nil, false
		}
	}
	anc := commonPC(a.pc, b.pc)
	ra, rb := restPC(a.pc, anc), restPC(b.pc, anc)
	ca := And(ra...)
	cb := And(rb...)
	cond := ca
	if len(rb) < len(ra) {
		cond = Not(cb)
	}
	if cond.isConst() {
		return nil, nil, false
	}
	m := &merger{cond: cond, a: a, b: b, entry: entry, ba: map[int]int{}, ab: map[int]int{}, queued: map[[2]int]bool{}, newVals: map[int]Value{}}
	out := make([]Value, len(av))
	for i := range av {
		v, ok := m.val(av[i], bv[i])
		if !ok {
			return nil, nil, false
		}
		out[i] = v
	}
	// observations
	obs := a.obs
	if a.obs != b.obs {
		o, ok := m.obs(a.obs, b.obs)
		if !ok {
			return nil, nil, false
		}
		obs = o
	}
	// objects that existed at frame entry
	anch := commonLayer(a.heap, b.heap)
	ids := map[int]bool{}
	for _, h := range []*Layer{a.heap, b.heap} {
		for l := h; l != anch; l = l.parent {
			for id := range l.m {
				if id <= entry {
					ids[id] = true
				}
			}
		}
	}
	for id := range ids {
		x, y := a.peek(id), b.peek(id)
		if sameVal(x, y) {
			continue
		}
		if x == nil || y == nil {
			return nil, nil, false
		}
		v, ok := m.val(x, y)
		if !ok {
			return nil, nil, false
		}
		m.newVals[id] = v
	}
	for len(m.queue) > 0 {
		q := m.queue[0]
		m.queue = m.queue[1:]
		x, y := a.peek(q[0]), b.peek(q[1])
		if x == nil || y == nil {
			return nil, nil, false
		}
		v, ok := m.val(x, y)
		if !ok {
			return nil, nil, false
		}
		if !sameVal(v, x) {
			m.newVals[q[0]] = v
		}
	}
	n := a.fork()
	n.obs = obs
	n.pc = anc.push(Or(ca, cb))
	for id, v := range m.newVals {
		n.put(id, v)
	}
	return n, out, true
}

func (m *merger) obs(x, y *Obs) (*Obs, bool) {
	if x == y {
		return x, true
	}
	if x == nil || y == nil || x.label != y.label {
		return nil, false
	}
	p, ok := m.obs(x.parent, y.parent)
	if !ok {
		return nil, false
	}
	mm := *m
	mm.free = true
	v, ok := mm.val(x.val, y.val)
	if !ok {
		return nil, false
	}
	return &Obs{p, x.label, v}, true
}

func sameNames(a, b *NameCnt) bool {
	seen := map[string]bool{}
	for _, l := range []*NameCnt{a, b} {
		for q := l; q != nil; q = q.parent {
			if !seen[q.name] {
				seen[q.name] = true
				if a.get(q.name) != b.get(q.name) {
					return false
				}
			}
		}
	}
	return true
}

func commonLayer(a, b *Layer) *Layer {
	seen := map[*Layer]bool{}
	for l := a; l != nil; l = l.parent {
		seen[l] = true
	}
	for l := b; l != nil; l = l.parent {
		if seen[l] {
			return l
		}
	}
	return nil
}

// ---- maps ----

func (o *MapObj) clone() *MapObj {
	n := &MapObj{keys: append([]Value{}, o.keys...), vals: append([]Value{}, o.vals...), index: make(map[string]int, len(o.index)), nsym: o.nsym}
	for k, v := range o.index {
		n.index[k] = v
	}
	return n
}

// ckey is a printable key for concrete comparable values.
func ckey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return "", false
		}
		return "t" + strconv.Itoa(x.w) + ":" + x.big().Text(62), true
	case *Str:
		if !x.isLit() {
			return "", false
		}
		return "s" + x.lit(), true
	case Ptr:
		if x.path != nil {
			return fmt.Sprintf("p%d.%d", x.obj, x.path.id), true
		}
		return fmt.Sprintf("p%d", x.obj), true
	case IfaceV:
		if x.typ == nil {
			return "nil", true
		}
		k, ok := ckey(x.val)
		return "i" + strconv.Itoa(typeID(x.typ)) + k, ok
	case *Agg:
		var sb strings.Builder
		sb.WriteString("a")
		for _, e := range x.elems {
			k, ok := ckey(e)
			if !ok {
				return "", false
			}
			sb.WriteString(strconv.Itoa(len(k)) + ":" + k)
		}
		return sb.String(), true
	case FloatV:
		return fmt.Sprint("f", float64(x)), true
	}
	return "", false
}

// ---- types ----

var typeCanon typeutil.Map
var typeIDs = map[types.Type]int{}

func canonType(t types.Type) types.Type {
	t = types.Unalias(t)
	if c := typeCanon.At(t); c != nil {
		return c.(types.Type)
	}
	typeCanon.Set(t, t)
	return t
}

func typeID(t types.Type) int {
	if id, ok := typeIDs[t]; ok {
		return id
	}
	typeIDs[t] = len(typeIDs) + 1
	return len(typeIDs)
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

const secpPkg = "github.com/decred/dcrd/dcrec/secp256k1/v4"

var zeroFV = &BigV{t: BV(1, 0)}

func zero(t types.Type) Value {
	switch {
	case isNamed(t, "math/big", "Int"):
		return bigConst(0)
	case isNamed(t, secpPkg, "FieldVal"), isNamed(t, secpPkg, "ModNScalar"):
		return &BigV{t: zeroBV(256)}
	case isNamed(t, "strings", "Builder"):
		return emptyStr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return BV(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return &Unusable{"complex"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return Ptr{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		a := &Agg{elems: make([]Value, u.NumFields())}
		for i := range a.elems {
			a.elems[i] = zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{elems: make([]Value, n)}
		if n > 0 {
			z := zero(u.Elem())
			for i := range a.elems {
				a.elems[i] = z
			}
		}
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	unsup("zero of %s", t)
	return nil
}
