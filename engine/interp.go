package main

// Symbolic execution of go/ssa.

import (
	"fmt"
	"go/constant"
	"path/filepath"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	oRet = iota
	oPanic
	oUnsup
	oStop // path ends quietly (false assumption)
)

type Outcome struct {
	st   *State
	kind int
	val  Value
	pv   *PanicV
	msg  string
}

type Interp struct {
	prog      *ssa.Program
	sol       *Solver
	globals   map[*ssa.Global]int
	infos     map[*ssa.Function]*FnInfo
	initState map[*ssa.Package]int // 1 running, 2 done
	initSt    *State
	depth     int
	concrete  bool // package initialisation
	steps     int64
	merges    int64
	mergeFail int64
	forks     int64
	states    int64
	executed  map[string]int
	models    map[string]int // intrinsics used
	deadline  time.Time
	feasMs    int
	feasCache map[feasKey]Res
	mapOrder  string
	h         *Harness
	debug     bool
	unknownFe int
	scalars []*Term // arguments of scalar multiplications so far
	stackFns  []string
	maxUnroll int
}

type feasKey struct {
	pc *PC
	t  int
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
}

type FnInfo struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	n      int
	live   [][]int // per block: live-in slots after phis
	rpo    []int   // per block index
	loops  []*loopInfo
	inLoop []*loopInfo // innermost loop of each block
	phis   []int       // number of phis at block start
	mid    map[[2]int][]int
}

// edgeLive adds what is live where b is left towards its successors.
func (fi *FnInfo) edgeLive(b *ssa.BasicBlock, liveIn func(i int, f func(k int))) map[int]bool {
	cur := map[int]bool{}
	for _, s := range b.Succs {
		add := map[int]bool{}
		liveIn(s.Index, func(k int) { add[k] = true })
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		for i := 0; i < fi.phis[s.Index]; i++ {
			delete(add, fi.num[s.Instrs[i].(*ssa.Phi)])
		}
		for i := 0; i < fi.phis[s.Index]; i++ {
			if n, ok := fi.num[s.Instrs[i].(*ssa.Phi).Edges[pi]]; ok {
				add[n] = true
			}
		}
		for k := range add {
			cur[k] = true
		}
	}
	return cur
}

func (fi *FnInfo) stepLive(cur map[int]bool, ins ssa.Instruction) {
	if v, ok := ins.(ssa.Value); ok {
		delete(cur, fi.num[v])
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil {
			if n, ok := fi.num[*op]; ok {
				cur[n] = true
			}
		}
	}
}

// liveAt gives the slots live before instruction idx of b.
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, idx int) []int {
	if idx == fi.phis[b.Index] {
		return fi.live[b.Index]
	}
	k := [2]int{b.Index, idx}
	if r, ok := fi.mid[k]; ok {
		return r
	}
	cur := fi.edgeLive(b, func(i int, f func(k int)) {
		for _, k := range fi.live[i] {
			f(k)
		}
	})
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		fi.stepLive(cur, b.Instrs[i])
	}
	r := []int{}
	for k := range cur {
		r = append(r, k)
	}
	sort.Ints(r)
	fi.mid[k] = r
	return r
}

func (in *Interp) info(fn *ssa.Function) *FnInfo {
	if fi, ok := in.infos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, num: map[ssa.Value]int{}, mid: map[[2]int][]int{}}
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	nb := len(fn.Blocks)
	fi.phis = make([]int, nb)
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			if _, ok := ins.(*ssa.Phi); ok {
				fi.phis[b.Index] = i + 1
			}
		}
	}
	// reverse post order
	fi.rpo = make([]int, nb)
	for i := range fi.rpo {
		fi.rpo[i] = nb + i
	}
	seen := make([]bool, nb)
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i].Index] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && !seen[fn.Recover.Index] {
			dfs(fn.Recover)
		}
	}
	for i, b := range post {
		fi.rpo[b.Index] = len(post) - 1 - i
	}
	// natural loops
	byHeader := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					fi.loops = append(fi.loops, l)
				}
				stk := []*ssa.BasicBlock{b}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stk = append(stk, x.Preds...)
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].blocks) > len(fi.loops[j].blocks) })
	fi.inLoop = make([]*loopInfo, nb)
	for _, l := range fi.loops { // large to small
		for b := range l.blocks {
			if p := fi.inLoop[b.Index]; p != nil && b == l.header {
				l.parent = p
			}
			_ = b
		}
		l.parent = fi.inLoop[l.header.Index]
		if l.parent != nil {
			l.depth = l.parent.depth + 1
		}
		for b := range l.blocks {
			fi.inLoop[b.Index] = l
		}
	}
	// liveness
	liveIn := make([]map[int]bool, nb)
	for i := range liveIn {
		liveIn[i] = map[int]bool{}
	}
	changed := true
	for changed {
		changed = false
		for _, b := range post { // post order suits backward flow
			cur := fi.edgeLive(b, func(i int, f func(k int)) {
				for k := range liveIn[i] {
					f(k)
				}
			})
			for i := len(b.Instrs) - 1; i >= fi.phis[b.Index]; i-- {
				fi.stepLive(cur, b.Instrs[i])
			}
			if len(cur) != len(liveIn[b.Index]) {
				changed = true
			} else {
				for k := range cur {
					if !liveIn[b.Index][k] {
						changed = true
					}
				}
			}
			liveIn[b.Index] = cur
		}
	}
	fi.live = make([][]int, nb)
	for i := range liveIn {
		for k := range liveIn[i] {
			fi.live[i] = append(fi.live[i], k)
		}
		sort.Ints(fi.live[i])
	}
	in.infos[fn] = fi
	return fi
}

type deferred struct {
	fv   Value
	args []Value
	bi   *ssa.Builtin
	call *ssa.CallCommon
}

type Item struct {
	st     *State
	regs   []Value
	defers []*deferred
	blk    *ssa.BasicBlock
	idx    int
	cnt    map[*loopInfo]int
	key    []int
}

func (fi *FnInfo) setKey(it *Item) {
	var ls []*loopInfo
	for l := fi.inLoop[it.blk.Index]; l != nil; l = l.parent {
		ls = append(ls, l)
	}
	k := make([]int, 0, 2*len(ls)+1)
	for i := len(ls) - 1; i >= 0; i-- {
		k = append(k, fi.rpo[ls[i].header.Index], it.cnt[ls[i]])
	}
	it.key = append(k, fi.rpo[it.blk.Index])
}

func cmpKey(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

func cloneItem(it *Item) *Item {
	n := *it
	n.regs = append([]Value{}, it.regs...)
	return &n
}

// ---- feasibility ----

func (in *Interp) implied(st *State, c *Term) (bool, bool) {
	if c.isConst() {
		return c == tTrue, true
	}
	nc := Not(c)
	n := 0
	for q := st.pc; q != nil && n < 400; q = q.parent {
		n++
		if q.t == c {
			return true, true
		}
		if q.t == nc {
			return false, true
		}
		if q.t.op == OAnd {
			for _, a := range q.t.args {
				if a == c {
					return true, true
				}
				if a == nc {
					return false, true
				}
			}
		}
		if nc.op == OAnd { // c is a disjunction of negations; skip
		}
	}
	if c.op == OAnd {
		all := true
		for _, a := range c.args {
			v, ok := in.implied1(st, a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.op == OOr {
		all := true
		for _, a := range c.args {
			v, ok := in.implied1(st, a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (in *Interp) implied1(st *State, c *Term) (bool, bool) {
	nc := Not(c)
	n := 0
	for q := st.pc; q != nil && n < 400; q = q.parent {
		n++
		if q.t == c {
			return true, true
		}
		if q.t == nc {
			return false, true
		}
		if q.t.op == OAnd {
			for _, a := range q.t.args {
				if a == c {
					return true, true
				}
				if a == nc {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (in *Interp) feasible(st *State, c *Term) bool {
	if v, ok := in.implied(st, c); ok {
		return v
	}
	k := feasKey{st.pc, c.id}
	if r, ok := in.feasCache[k]; ok {
		return r != Unsat
	}
	in.checkTime()
	r, _ := in.sol.Check(st.pc, []*Term{c}, in.feasMs, false)
	in.feasCache[k] = r
	if r == Unknown {
		in.unknownFe++
	}
	return r != Unsat
}

type timeUp struct{}

func (in *Interp) checkTime() {
	if !in.deadline.IsZero() && time.Now().After(in.deadline) {
		panic(timeUp{})
	}
}

// split decides a branch. It returns the states in which c holds and does not hold (nil if infeasible).
func (in *Interp) split(st *State, c *Term) (*State, *State) {
	if v, ok := in.implied(st, c); ok {
		if v {
			return st, nil
		}
		return nil, st
	}
	if in.concrete {
		unsup("symbolic branch during initialisation")
	}
	t := in.feasible(st, c)
	if !t {
		return nil, st
	}
	f := in.feasible(st, Not(c))
	if !f {
		return st, nil
	}
	in.forks++
	a, b := st.fork(), st.fork()
	a.pc = st.pc.push(c)
	b.pc = st.pc.push(Not(c))
	return a, b
}

// splitN forks on exclusive, exhaustive conditions tried in order.
func (in *Interp) splitN(st *State, conds []*Term, f func(st *State, i int)) {
	cur := st
	for i, c := range conds {
		if cur == nil {
			return
		}
		if i == len(conds)-1 {
			f(cur, i)
			return
		}
		a, b := in.split(cur, c)
		if a != nil {
			f(a, i)
		}
		cur = b
	}
}

type cval struct {
	st *State
	v  uint64
}

// concretize forks on every feasible value of a small-range term.
func (in *Interp) concretize(st *State, t *Term, limit int) []cval {
	if t.isConst() {
		return []cval{{st, t.big().Uint64()}}
	}
	var out []cval
	cands := map[uint64]bool{}
	if t.leaves > 0 {
		collectLeaves(t, cands)
	} else if lo, hi := urange(t, 4); new(big.Int).Sub(hi, lo).Cmp(big.NewInt(int64(limit))) <= 0 {
		for v := lo.Uint64(); ; v++ {
			cands[v] = true
			if v == hi.Uint64() {
				break
			}
		}
	}
	cur := st
	if len(cands) > 0 {
		var vs []uint64
		for v := range cands {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		for _, v := range vs {
			if cur == nil {
				break
			}
			a, b := in.split(cur, Eq(t, BV(t.w, v)))
			if a != nil {
				out = append(out, cval{a, v})
			}
			cur = b
		}
		return out
	}
	for cur != nil {
		if len(out) >= limit {
			unsup("more than %d values for a size or index", limit)
		}
		probe := Var(fmt.Sprintf("conc!%d", t.id), t.w)
		r, m := in.sol.Check(cur.pc, []*Term{Eq(probe, t)}, in.feasMs*4, true)
		if r == Unsat {
			break
		}
		if r == Unknown || m == nil {
			unsup("cannot enumerate values")
		}
		v := m[probe.name].big().Uint64()
		a, b := in.split(cur, Eq(t, BV(t.w, v)))
		if a != nil {
			out = append(out, cval{a, v})
		}
		cur = b
	}
	return out
}

func collectLeaves(t *Term, m map[uint64]bool) {
	if t.isConst() {
		m[t.big().Uint64()] = true
		return
	}
	collectLeaves(t.args[1], m)
	collectLeaves(t.args[2], m)
}

// ---- execution ----

func ret(st *State, v Value) []Outcome { return []Outcome{{st: st, kind: oRet, val: v}} }

func rtPanic(st *State, msg string) Outcome {
	return Outcome{st: st, kind: oPanic, pv: &PanicV{msg: msg, val: IfaceV{canonType(types.Typ[types.String]), litStr("runtime error: " + msg)}}}
}

func (in *Interp) callFn(st *State, fn *ssa.Function, args []Value, binds []Value) (outs []Outcome) {
	if in.depth > 400 {
		return []Outcome{{st: st, kind: oUnsup, msg: "call depth"}}
	}
	if os, ok := in.intrinsic(st, fn, args); ok {
		return os
	}
	return in.callBody(st, fn, args, binds)
}

// callBody executes fn itself, never a model of it.
func (in *Interp) callBody(st *State, fn *ssa.Function, args []Value, binds []Value) (outs []Outcome) {
	if fn.Blocks == nil {
		return []Outcome{{st: st, kind: oUnsup, msg: "no body: " + fn.String()}}
	}
	if fn.Pkg != nil {
		if fn.Name() != "init" || fn.Synthetic == "" {
			in.ensureInit(fn.Pkg)
		}
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		in.ensureInit(o.Pkg)
	}
	if !in.concrete {
		in.executed[fn.String()]++
	}
	in.depth++
	defer func() { in.depth-- }()
	fi := in.info(fn)
	regs := make([]Value, fi.n)
	copy(regs, args)
	copy(regs[len(fn.Params):], binds)
	entry := nextObj - 1
	start := &Item{st: st, regs: regs, blk: fn.Blocks[0], idx: 0, cnt: map[*loopInfo]int{}}
	fi.setKey(start)
	work := []*Item{start}
	for len(work) > 0 {
		// smallest key
		best := 0
		for i := 1; i < len(work); i++ {
			if cmpKey(work[i].key, work[best].key) < 0 {
				best = i
			}
		}
		var group, rest []*Item
		bk := work[best].key
		for _, w := range work {
			if cmpKey(w.key, bk) == 0 && w.blk == work[best].blk {
				group = append(group, w)
			} else {
				rest = append(rest, w)
			}
		}
		work = rest
		if len(group) > 1 {
			group = in.mergeItems(fi, group, entry)
		}
		mid := group
		for len(mid) > 0 {
			first := mid[0].idx
			for _, g := range mid {
				if g.idx < first {
					first = g.idx
				}
			}
			var now, later []*Item
			for _, g := range mid {
				if g.idx == first {
					now = append(now, g)
				} else {
					later = append(later, g)
				}
			}
			if len(now) > 1 && first != fi.phis[now[0].blk.Index] {
				now = in.mergeItems(fi, now, entry)
			}
			mid = later
			stop := len(now)+len(later) > 1
			for _, it := range now {
				next, os := in.runBlock(fi, it, stop)
				outs = append(outs, os...)
				for _, n := range next {
					if n.idx == fi.phis[n.blk.Index] && n.key != nil {
						work = append(work, n)
					} else {
						mid = append(mid, n)
					}
				}
			}
		}
		in.checkTime()
	}
	if len(outs) > 1 {
		outs = in.mergeOutcomes(outs, entry)
	}
	return outs
}

func shapeOf(sb *strings.Builder, v Value) {
	switch x := v.(type) {
	case *Term:
		if x.w == 64 && x.leaves > 0 {
			if x.isConst() {
				fmt.Fprintf(sb, "c%d,", x.c)
			} else {
				fmt.Fprintf(sb, "l%d,", x.id)
			}
		} else {
			sb.WriteString("t,")
		}
	case *Str:
		if x.isLit() {
			fmt.Fprintf(sb, "s%q,", x.lit())
		} else if l, ok := x.concLen(); ok {
			fmt.Fprintf(sb, "n%d,", l)
		} else {
			fmt.Fprintf(sb, "r%d,", len(x.parts))
		}
	case Ptr:
		if x.obj == 0 {
			sb.WriteString("nil,")
		} else {
			sb.WriteString("p,")
		}
	case SliceV:
		fmt.Fprintf(sb, "[%d:%d],", x.off, x.len)
	case IfaceV:
		if x.typ == nil {
			sb.WriteString("inil,")
		} else {
			fmt.Fprintf(sb, "i%d", typeID(x.typ))
			shapeOf(sb, x.val)
		}
	case Tuple:
		for _, e := range x {
			shapeOf(sb, e)
		}
	case *Agg:
		if len(x.elems) <= 8 {
			sb.WriteByte('{')
			for _, e := range x.elems {
				shapeOf(sb, e)
			}
			sb.WriteByte('}')
		} else {
			sb.WriteString("A,")
		}
	default:
		fmt.Fprintf(sb, "%T,", v)
	}
}

func (in *Interp) mergeItems(fi *FnInfo, group []*Item, entry int) []*Item {
	live := fi.liveAt(group[0].blk, group[0].idx)
	extract := func(it *Item) []Value {
		vs := make([]Value, len(live))
		for i, s := range live {
			vs[i] = it.regs[s]
		}
		return vs
	}
	sig := func(it *Item) string {
		var sb strings.Builder
		for _, v := range extract(it) {
			shapeOf(&sb, v)
		}
		fmt.Fprintf(&sb, "d%d:%d", len(it.defers), it.st.fork_)
		return sb.String()
	}
	return mergeAll(in, group, sig, func(it *Item) *State { return it.st }, func(x, y *Item) *Item {
		if !sameDefers(x.defers, y.defers) {
			return nil
		}
		ns, vs, ok := mergeStates(x.st, y.st, extract(x), extract(y), entry)
		if !ok {
			return nil
		}
		n := cloneItem(x)
		for i := range n.regs {
			n.regs[i] = nil
		}
		for i, s := range live {
			n.regs[s] = vs[i]
		}
		n.st = ns
		return n
	})
}

// mergeAll joins elements of equal signature, the most closely related ones first.
func mergeAll[T comparable](in *Interp, list []T, sig func(T) string, stOf func(T) *State, join func(x, y T) T) []T {
	var none T
	buckets := map[string][]T{}
	var order []string
	add := func(t T) string {
		k := sig(t)
		if _, ok := buckets[k]; !ok {
			order = append(order, k)
		}
		buckets[k] = append(buckets[k], t)
		return k
	}
	for _, t := range list {
		add(t)
	}
	fails := 0
	for bi := 0; bi < len(order); bi++ {
		k := order[bi]
		failed := map[[2]T]bool{}
		for {
			es := buckets[k]
			if len(es) < 2 || fails > 3000 {
				break
			}
			in.checkTime()
			x, y, bd := -1, -1, -1
			for i := range es {
				for j := i + 1; j < len(es); j++ {
					if failed[[2]T{es[i], es[j]}] {
						continue
					}
					if d := depthOf(commonPC(stOf(es[i]).pc, stOf(es[j]).pc)); d > bd {
						x, y, bd = i, j, d
					}
				}
			}
			if x < 0 {
				break
			}
			n := join(es[x], es[y])
			if n == none {
				in.mergeFail++
				fails++
				failed[[2]T{es[x], es[y]}] = true
				continue
			}
			in.merges++
			rest := append(append(append([]T{}, es[:x]...), es[x+1:y]...), es[y+1:]...)
			if sig(n) == k {
				buckets[k] = append(append(append([]T{}, rest[:x]...), n), rest[x:]...)
				continue
			}
			buckets[k] = rest
			if k2 := add(n); len(buckets[k2]) > 1 {
				order = append(order, k2) // look at that bucket again
			}
		}
	}
	var r []T
	done := map[string]bool{}
	for _, k := range order {
		if !done[k] {
			done[k] = true
			r = append(r, buckets[k]...)
		}
	}
	return r
}

func sameDefers(a, b []*deferred) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (in *Interp) mergeOutcomes(outs []Outcome, entry int) []Outcome {
	sig := func(o Outcome) string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d:%d", o.kind, o.st.fork_)
		if o.kind == oPanic {
			sb.WriteString(o.pv.msg)
			shapeOf(&sb, o.pv.val)
		} else {
			shapeOf(&sb, o.val)
		}
		return sb.String()
	}
	var rets []*Outcome
	var rest []Outcome
	for i := range outs {
		switch outs[i].kind {
		case oStop:
		case oRet:
			rets = append(rets, &outs[i])
		default:
			rest = append(rest, outs[i])
		}
	}
	rets = mergeAll(in, rets, func(o *Outcome) string { return sig(*o) }, func(o *Outcome) *State { return o.st }, func(x, y *Outcome) *Outcome {
		ns, vs, ok := mergeStates(x.st, y.st, []Value{x.val}, []Value{y.val}, entry)
		if !ok {
			return nil
		}
		return &Outcome{st: ns, kind: oRet, val: vs[0]}
	})
	var r []Outcome
	for _, o := range rets {
		r = append(r, *o)
	}
	return append(r, rest...)
}

func (in *Interp) jump(fi *FnInfo, it *Item, to *ssa.BasicBlock) *Item {
	from := it.blk
	n := it
	np := fi.phis[to.Index]
	if np > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		vals := make([]Value, np)
		for i := 0; i < np; i++ {
			vals[i] = in.operand(it, fi, to.Instrs[i].(*ssa.Phi).Edges[pi])
		}
		for i := 0; i < np; i++ {
			n.regs[fi.num[to.Instrs[i].(*ssa.Phi)]] = vals[i]
		}
	}
	// loop counters
	cnt := it.cnt
	lto := fi.inLoop[to.Index]
	if lto != nil || len(cnt) > 0 {
		nc := map[*loopInfo]int{}
		for l := lto; l != nil; l = l.parent {
			if l.header == to {
				if l.blocks[from] {
					nc[l] = cnt[l] + 1
				} else {
					nc[l] = 0
				}
			} else {
				nc[l] = cnt[l]
			}
		}
		n.cnt = nc
		for l, c := range nc {
			if c > in.maxUnroll && !in.concrete {
				unsup("loop bound %d reached in %s", in.maxUnroll, fi.fn)
			}
			_ = l
		}
	}
	n.blk = to
	n.idx = np
	fi.setKey(n)
	return n
}

func (in *Interp) globalPtr(g *ssa.Global) Ptr {
	id, ok := in.globals[g]
	if !ok {
		id = nextObj
		nextObj++
		in.globals[g] = id
		baseLayer.m[id] = zero(g.Type().Underlying().(*types.Pointer).Elem())
		if g.Pkg != nil {
			if fs := embeds[g.Pkg.Pkg.Path()+"."+g.Name()]; fs != nil {
				baseLayer.m[id] = embedded(g.Type().Underlying().(*types.Pointer).Elem(), fs)
			}
		}
	}
	if g.Pkg != nil {
		in.ensureInit(g.Pkg)
	}
	return Ptr{obj: id}
}

// embedded is the value the linker gives a variable under a go:embed directive.
func embedded(t types.Type, files []string) Value {
	sort.Slice(files, func(i, j int) bool { return filepath.Base(files[i]) < filepath.Base(files[j]) })
	alloc := func(v Value) int {
		id := nextObj
		nextObj++
		baseLayer.m[id] = v
		return id
	}
	var vs []Value
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			unsup("embedded file %s", f)
		}
		if types.Identical(t.Underlying(), types.Typ[types.String]) {
			return litStr(string(b))
		}
		if t.String() != "embed.FS" {
			unsup("embedded %s", t)
		}
		hash := make([]*Term, 16)
		for i := range hash {
			hash[i] = BV(8, 0)
		}
		vs = append(vs, &Agg{elems: []Value{litStr(filepath.Base(f)), litStr(string(b)), bytesAgg(Concat(hash...))}})
	}
	list := SliceV{obj: alloc(&Agg{elems: vs}), len: len(vs), cap: len(vs)}
	return &Agg{elems: []Value{Ptr{obj: alloc(list)}}}
}

func (in *Interp) operand(it *Item, fi *FnInfo, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return in.globalPtr(x)
	case *ssa.Function:
		return in.fnVal(x)
	case *ssa.Builtin:
		return x
	}
	r := it.regs[fi.num[v]]
	if u, ok := r.(*Unusable); ok {
		panic(unsupported{u.why})
	}
	return r
}

var fnVals = map[*ssa.Function]*Closure{}

func (in *Interp) fnVal(f *ssa.Function) *Closure {
	if c, ok := fnVals[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	fnVals[f] = c
	return c
}

var constCache = map[*ssa.Const]Value{}

func constVal(c *ssa.Const) Value {
	if v, ok := constCache[c]; ok {
		return v
	}
	v := constVal1(c)
	constCache[c] = v
	return v
}

func constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if w, _, ok := intWidth(t); ok {
		v := constant.ToInt(c.Value)
		b := new(big.Int)
		if i, ok := constant.Int64Val(v); ok {
			b.SetInt64(i)
		} else {
			b.SetString(v.ExactString(), 10)
		}
		return BVBig(w, b)
	}
	if bt, ok := t.(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case bt.Info()&types.IsString != 0:
			return litStr(constant.StringVal(c.Value))
		case bt.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return FloatV(f)
		case bt.Info()&types.IsComplex != 0:
			return &Unusable{"complex"}
		}
	}
	unsup("constant of type %s", c.Type())
	return nil
}

// runBlock executes it to the end of its block, or with stop set to behind its first call. It returns successor items and finished outcomes.
func (in *Interp) runBlock(fi *FnInfo, it *Item, stop bool) (next []*Item, outs []Outcome) {
	in.states++
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				pos := ""
				if it.idx < len(it.blk.Instrs) {
					pos = fi.fn.Prog.Fset.Position(it.blk.Instrs[it.idx].Pos()).String()
				}
				outs = append(outs, Outcome{st: it.st, kind: oUnsup, msg: e.msg + " in " + fi.fn.String() + " " + pos})
			case timeUp:
				panic(r)
			default:
				if in.debug {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
				}
				outs = append(outs, Outcome{st: it.st, kind: oUnsup, msg: fmt.Sprintf("engine: %v in %s", r, fi.fn)})
			}
		}
	}()
	for it.idx < len(it.blk.Instrs) {
		in.steps++
		if in.steps&1023 == 0 {
			in.checkTime()
		}
		ins := it.blk.Instrs[it.idx]
		set := func(v Value) { it.regs[fi.num[ins.(ssa.Value)]] = v }
		// cont continues this block in the given outcomes
		cont := func(os []Outcome) bool {
			if len(os) == 1 && os[0].kind == oRet {
				it.st = os[0].st
				if v, ok := ins.(ssa.Value); ok {
					it.regs[fi.num[v]] = os[0].val
				}
				return true
			}
			for _, o := range os {
				switch o.kind {
				case oRet:
					n := cloneItem(it)
					n.st = o.st
					if v, ok := ins.(ssa.Value); ok {
						n.regs[fi.num[v]] = o.val
					}
					n.idx++
					n.key = nil
					next = append(next, n)
				case oPanic:
					outs = append(outs, in.unwind(fi, it, o)...)
				case oStop:
				default:
					outs = append(outs, o)
				}
			}
			return false
		}
		// check continues only where c holds; elsewhere the program panics
		check := func(c *Term, msg string) bool {
			a, b := in.split(it.st, c)
			if b != nil {
				outs = append(outs, in.unwind(fi, it, rtPanic(b, msg))...)
			}
			if a == nil {
				return false
			}
			it.st = a
			return true
		}
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			set(Ptr{obj: it.st.alloc(zero(x.Type().Underlying().(*types.Pointer).Elem()))})
		case *ssa.BinOp:
			a, b := in.operand(it, fi, x.X), in.operand(it, fi, x.Y)
			if x.Op == token.QUO || x.Op == token.REM {
				if bt, ok := b.(*Term); ok {
					if !check(Not(Eq(bt, zeroBV(bt.w))), "integer divide by zero") {
						return
					}
				}
			}
			if x.Op == token.SHL || x.Op == token.SHR {
				if _, sg, ok := intWidth(x.Y.Type()); ok && sg {
					bt := b.(*Term)
					if !check(Not(Slt(bt, zeroBV(bt.w))), "negative shift amount") {
						return
					}
				}
			}
			v, ok := in.binop(it.st, x.Op, x.X.Type(), a, b)
			if !ok {
				// comparison that cannot be expressed
				unsup("%s on %T and %T", x.Op, a, b)
			}
			set(v)
		case *ssa.UnOp:
			a := in.operand(it, fi, x.X)
			switch x.Op {
			case token.MUL:
				p, ok := a.(Ptr)
				if !ok {
					unsup("load from %T", a)
				}
				if p.obj == 0 {
					outs = append(outs, in.unwind(fi, it, rtPanic(it.st, "invalid memory address or nil pointer dereference"))...)
					return
				}
				v := it.st.load(p)
				if u, ok := v.(*Unusable); ok && strings.HasPrefix(u.why, "symbolic selection") {
					os := in.loadForking(it.st, p)
					if !cont(os) {
						return
					}
					break
				}
				if x.CommaOk {
					unsup("commaok load")
				}
				set(v)
			case token.NOT:
				set(Not(a.(*Term)))
			case token.SUB:
				switch t := a.(type) {
				case *Term:
					set(Neg(t))
				case FloatV:
					set(FloatV(-t))
				default:
					unsup("neg %T", a)
				}
			case token.XOR:
				set(Bnot(a.(*Term)))
			default:
				unsup("unop %s", x.Op)
			}
		case *ssa.Call:
			os := in.call(fi, it, &x.Call)
			if !cont(os) {
				return
			}
		case *ssa.ChangeInterface:
			set(in.operand(it, fi, x.X))
		case *ssa.ChangeType:
			set(in.operand(it, fi, x.X))
		case *ssa.Convert:
			os := in.convert(it.st, in.operand(it, fi, x.X), x.X.Type(), x.Type())
			if !cont(os) {
				return
			}
		case *ssa.MultiConvert:
			os := in.convert(it.st, in.operand(it, fi, x.X), x.X.Type(), x.Type())
			if !cont(os) {
				return
			}
		case *ssa.MakeInterface:
			set(IfaceV{canonType(x.X.Type()), in.operand(it, fi, x.X)})
		case *ssa.Extract:
			tp, ok := in.operand(it, fi, x.Tuple).(Tuple)
			if !ok {
				unsup("extract from non-tuple")
			}
			set(tp[x.Index])
		case *ssa.Slice:
			var lo, hi, mx Value
			if x.Low != nil {
				lo = in.operand(it, fi, x.Low)
			}
			if x.High != nil {
				hi = in.operand(it, fi, x.High)
			}
			if x.Max != nil {
				mx = in.operand(it, fi, x.Max)
			}
			if !cont(in.slice(it.st, in.operand(it, fi, x.X), lo, hi, mx, x.X.Type())) {
				return
			}
		case *ssa.Return:
			var v Value
			switch len(x.Results) {
			case 0:
				v = Tuple{}
			case 1:
				v = in.operandRaw(it, fi, x.Results[0])
			default:
				tp := make(Tuple, len(x.Results))
				for i, r := range x.Results {
					tp[i] = in.operandRaw(it, fi, r)
				}
				v = tp
			}
			outs = append(outs, Outcome{st: it.st, kind: oRet, val: v})
			return
		case *ssa.RunDefers:
			ds := it.defers
			it.defers = nil
			os := in.runDefers(fi, it, it.st, ds)
			if !cont(os) {
				return
			}
		case *ssa.Panic:
			v := in.operand(it, fi, x.X).(IfaceV)
			outs = append(outs, in.unwind(fi, it, Outcome{st: it.st, kind: oPanic, pv: &PanicV{val: v, msg: in.panicMsg(it.st, v)}})...)
			return
		case *ssa.Store:
			p, ok := in.operand(it, fi, x.Addr).(Ptr)
			if !ok {
				unsup("store to non-pointer")
			}
			if p.obj == 0 {
				outs = append(outs, in.unwind(fi, it, rtPanic(it.st, "invalid memory address or nil pointer dereference"))...)
				return
			}
			if !cont(in.storeForking(it.st, p, in.operandRaw(it, fi, x.Val))) {
				return
			}
		case *ssa.MapUpdate:
			mv := in.operand(it, fi, x.Map).(MapV)
			if mv.obj == 0 {
				outs = append(outs, in.unwind(fi, it, rtPanic(it.st, "assignment to entry in nil map"))...)
				return
			}
			if !cont(in.mapSet(it.st, mv, in.operand(it, fi, x.Key), in.operandRaw(it, fi, x.Value))) {
				return
			}
		case *ssa.If:
			c := in.operand(it, fi, x.Cond).(*Term)
			a, b := in.split(it.st, c)
			if a != nil && b != nil {
				n := cloneItem(it)
				n.st = b
				it.st = a
				next = append(next, in.jump(fi, n, x.Block().Succs[1]), in.jump(fi, it, x.Block().Succs[0]))
			} else if a != nil {
				it.st = a
				next = append(next, in.jump(fi, it, x.Block().Succs[0]))
			} else {
				it.st = b
				next = append(next, in.jump(fi, it, x.Block().Succs[1]))
			}
			return
		case *ssa.Jump:
			next = append(next, in.jump(fi, it, x.Block().Succs[0]))
			return
		case *ssa.Defer:
			d := &deferred{call: &x.Call}
			fv, args := in.prepCall(fi, it, &x.Call)
			d.fv, d.args = fv, args
			it.defers = append(append([]*deferred{}, it.defers...), d)
		case *ssa.MakeClosure:
			c := &Closure{fn: x.Fn.(*ssa.Function)}
			for _, b := range x.Bindings {
				c.binds = append(c.binds, in.operandRaw(it, fi, b))
			}
			set(c)
		case *ssa.MakeMap:
			set(MapV{it.st.alloc(&MapObj{index: map[string]int{}, owner: it.st.top()})})
		case *ssa.MakeSlice:
			lt := in.operand(it, fi, x.Len).(*Term)
			ct := in.operand(it, fi, x.Cap).(*Term)
			if !lt.isConst() || !ct.isConst() {
				var os []Outcome
				for _, lc := range in.concretize(it.st, Resize(lt, 64), 512) {
					for _, cc := range in.concretize(lc.st, Resize(ct, 64), 512) {
						if int64(lc.v) < 0 || int64(cc.v) < int64(lc.v) || cc.v > 1<<24 {
							os = append(os, rtPanic(cc.st, "makeslice: len out of range"))
							continue
						}
						os = append(os, Outcome{st: cc.st, kind: oRet, val: in.makeSlice(cc.st, x.Type(), int(lc.v), int(cc.v))})
					}
				}
				if !cont(os) {
					return
				}
				break
			}
			l, c := lt.sint(), ct.sint()
			if l < 0 || c < l || c > 1<<24 {
				outs = append(outs, in.unwind(fi, it, rtPanic(it.st, "makeslice: len out of range"))...)
				return
			}
			set(in.makeSlice(it.st, x.Type(), int(l), int(c)))
		case *ssa.FieldAddr:
			p := in.operand(it, fi, x.X).(Ptr)
			if p.obj == 0 {
				outs = append(outs, in.unwind(fi, it, rtPanic(it.st, "invalid memory address or nil pointer dereference"))...)
				return
			}
			set(Ptr{p.obj, sub(p.path, x.Field)})
		case *ssa.Field:
			a, ok := in.operand(it, fi, x.X).(*Agg)
			if !ok {
				unsup("field of %T", in.operand(it, fi, x.X))
			}
			set(a.elems[x.Field])
		case *ssa.IndexAddr:
			base := in.operand(it, fi, x.X)
			idx := in.index64(in.operand(it, fi, x.Index).(*Term), x.Index.Type())
			var obj int
			var path *PNode
			off, n := 0, 0
			switch b := base.(type) {
			case SliceV:
				if b.rope != nil {
					unsup("index of rope bytes")
				}
				obj, path, off, n = b.obj, b.path, b.off, b.len
			case Ptr:
				if b.obj == 0 {
					outs = append(outs, in.unwind(fi, it, rtPanic(it.st, "invalid memory address or nil pointer dereference"))...)
					return
				}
				obj, path = b.obj, b.path
				n = int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			default:
				unsup("indexaddr %T", base)
			}
			if !check(Ult(idx, BV(64, uint64(n))), "index out of range") {
				return
			}
			if idx.isConst() {
				set(Ptr{obj, sub(path, off+int(idx.c))})
			} else {
				set(Ptr{obj, subSym(path, Add(idx, BV(64, uint64(off))))})
			}
		case *ssa.Index:
			base := in.operand(it, fi, x.X)
			idx := in.index64(in.operand(it, fi, x.Index).(*Term), x.Index.Type())
			switch b := base.(type) {
			case *Agg:
				if !check(Ult(idx, BV(64, uint64(len(b.elems)))), "index out of range") {
					return
				}
				set(selectVal(idx, b.elems))
			case *Str:
				if !in.strIndex(it, b, idx, check, set) {
					return
				}
			default:
				unsup("index of %T", base)
			}
		case *ssa.Lookup:
			base := in.operand(it, fi, x.X)
			switch b := base.(type) {
			case *Str:
				idx := in.index64(in.operand(it, fi, x.Index).(*Term), x.Index.Type())
				if !in.strIndex(it, b, idx, check, set) {
					return
				}
			case MapV:
				mt := x.X.Type().Underlying().(*types.Map)
				os := in.mapGet(it.st, b, in.operand(it, fi, x.Index), mt.Elem(), x.CommaOk)
				if !cont(os) {
					return
				}
			default:
				unsup("lookup in %T", base)
			}
		case *ssa.TypeAssert:
			os := in.typeAssert(it.st, in.operand(it, fi, x.X), x.AssertedType, x.CommaOk)
			if !cont(os) {
				return
			}
		case *ssa.Range:
			set(in.rangeStart(it.st, in.operand(it, fi, x.X)))
		case *ssa.Next:
			os := in.rangeNext(it.st, in.operand(it, fi, x.Iter).(Ptr), x)
			if !cont(os) {
				return
			}
		case *ssa.SliceToArrayPointer:
			s := in.operand(it, fi, x.X).(SliceV)
			n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if s.rope != nil {
				unsup("array of rope bytes")
			}
			if s.len < n {
				outs = append(outs, in.unwind(fi, it, rtPanic(it.st, "cannot convert slice to array: length"))...)
				return
			}
			if s.obj == 0 {
				if n == 0 {
					set(Ptr{obj: it.st.alloc(&Agg{})})
				} else {
					set(Ptr{})
				}
				break
			}
			set(in.windowPtr(it.st, s, n))
		case *ssa.Go:
			unsup("goroutine")
		case *ssa.Select, *ssa.Send, *ssa.MakeChan:
			unsup("channel operation")
		default:
			unsup("instruction %T", ins)
		}
		it.idx++
		if stop {
			if _, ok := ins.(*ssa.Call); ok {
				it.key = nil
				return []*Item{it}, outs
			}
		}
	}
	return
}

func (in *Interp) windowPtr(st *State, s SliceV, n int) Ptr {
	arr := in.arrayOf(st, s)
	if s.off == 0 && n == len(arr.elems) {
		return Ptr{s.obj, s.path}
	}
	return Ptr{s.obj, subWin(s.path, s.off, n)}
}

func (in *Interp) operandRaw(it *Item, fi *FnInfo, v ssa.Value) Value {
	if n, ok := fi.num[v]; ok {
		return it.regs[n]
	}
	return in.operand(it, fi, v)
}

// storeForking stores; where a symbolic index cannot be expressed in the stored value, one state per index.
func (in *Interp) storeForking(st *State, p Ptr, v Value) (os []Outcome) {
	sym := -1
	steps := p.path.steps()
	for i, s := range steps {
		if s.sym != nil {
			sym = i
			break
		}
	}
	if sym < 0 {
		st.store(p, v)
		return []Outcome{{st: st, kind: oRet}}
	}
	if func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if u, is := r.(unsupported); !is || !strings.HasPrefix(u.msg, "symbolic store") {
					panic(r)
				}
			}
		}()
		st.store(p, v)
		return true
	}() {
		return []Outcome{{st: st, kind: oRet}}
	}
	for _, c := range in.concretize(st, steps[sym].sym, 600) {
		var q *PNode
		for j, t := range steps {
			switch {
			case j == sym:
				q = sub(q, int(c.v))
			case t.sym != nil:
				q = subSym(q, t.sym)
			case t.isWin:
				q = subWin(q, t.idx, t.win)
			default:
				q = sub(q, t.idx)
			}
		}
		for _, o := range in.storeForking(c.st, Ptr{p.obj, q}, v) {
			os = append(os, o)
		}
	}
	return os
}

func (in *Interp) loadForking(st *State, p Ptr) []Outcome {
	// enumerate the first symbolic index of the path
	steps := p.path.steps()
	for i, s := range steps {
		if s.sym == nil {
			continue
		}
		var os []Outcome
		for _, c := range in.concretize(st, s.sym, 256) {
			var q *PNode
			for j, t := range steps {
				switch {
				case j == i:
					q = sub(q, int(c.v))
				case t.sym != nil:
					q = subSym(q, t.sym)
				case t.isWin:
					q = subWin(q, t.idx, t.win)
				default:
					q = sub(q, t.idx)
				}
			}
			v := c.st.load(Ptr{p.obj, q})
			if u, ok := v.(*Unusable); ok {
				if strings.HasPrefix(u.why, "symbolic selection") {
					os = append(os, in.loadForking(c.st, Ptr{p.obj, q})...)
					continue
				}
			}
			os = append(os, Outcome{st: c.st, kind: oRet, val: v})
		}
		return os
	}
	unsup("load")
	return nil
}

func (in *Interp) index64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, sg, _ := intWidth(ty)
	if sg {
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func (in *Interp) strIndex(it *Item, s *Str, idx *Term, check func(*Term, string) bool, set func(Value)) bool {
	if l, ok := s.concLen(); ok {
		if !check(Ult(idx, BV(64, uint64(l))), "index out of range") {
			return false
		}
		if idx.isConst() {
			t, ok := s.at(int(idx.c))
			if !ok {
				unsup("index of opaque string")
			}
			set(t)
			return true
		}
		bs := s.bytes()
		if bs == nil {
			unsup("index of opaque string")
		}
		vs := make([]Value, len(bs))
		for i := range bs {
			vs[i] = bs[i]
		}
		set(selectVal(idx, vs))
		return true
	}
	if !check(Ult(idx, s.lenTerm()), "index out of range") {
		return false
	}
	if idx.isConst() {
		if t, ok := s.at(int(idx.c)); ok {
			set(t)
			return true
		}
	}
	unsup("index into rope")
	return false
}

// unwind runs the deferred calls of a panicking frame.
func (in *Interp) unwind(fi *FnInfo, it *Item, o Outcome) []Outcome {
	if len(it.defers) == 0 {
		return []Outcome{o}
	}
	st := o.st.fork()
	st.panic = append(append([]*PanicV{}, st.panic...), o.pv)
	lvl := len(st.panic)
	var res []Outcome
	os := in.runDefers(fi, it, st, it.defers)
	for _, q := range os {
		switch q.kind {
		case oRet:
			if len(q.st.panic) < lvl {
				res = append(res, Outcome{st: q.st, kind: oUnsup, msg: "panic stack"})
				continue
			}
			pv := q.st.panic[lvl-1]
			ns := q.st.fork()
			ns.panic = append([]*PanicV{}, ns.panic[:lvl-1]...)
			if !pv.recovered {
				res = append(res, Outcome{st: ns, kind: oPanic, pv: pv})
				continue
			}
			if fi.fn.Recover == nil {
				res = append(res, Outcome{st: ns, kind: oRet, val: zeroResults(fi.fn)})
				continue
			}
			n := cloneItem(it)
			n.st = ns
			n.defers = nil
			n.blk = fi.fn.Recover
			n.idx = 0
			pend := []*Item{n}
			for len(pend) > 0 {
				x := pend[len(pend)-1]
				pend = pend[:len(pend)-1]
				nx, os2 := in.runBlock(fi, x, false)
				pend = append(pend, nx...)
				res = append(res, os2...)
			}
		case oPanic:
			// replaces the current panic
			ns := q.st.fork()
			if len(ns.panic) >= lvl {
				ns.panic = append([]*PanicV{}, ns.panic[:lvl-1]...)
			}
			res = append(res, Outcome{st: ns, kind: oPanic, pv: q.pv})
		default:
			res = append(res, q)
		}
	}
	return res
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Tuple{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (in *Interp) runDefers(fi *FnInfo, it *Item, st *State, ds []*deferred) []Outcome {
	cur := []Outcome{{st: st, kind: oRet, val: Tuple{}}}
	for i := len(ds) - 1; i >= 0; i-- {
		var nx []Outcome
		for _, c := range cur {
			if c.kind != oRet {
				nx = append(nx, c)
				continue
			}
			for _, o := range in.callValue(c.st, ds[i].fv, ds[i].args, ds[i].call) {
				if o.kind == oRet {
					o.val = Tuple{}
				}
				nx = append(nx, o)
			}
		}
		cur = nx
	}
	return cur
}

func (in *Interp) panicMsg(st *State, v IfaceV) string {
	if v.typ == nil {
		return "nil"
	}
	if s, ok := v.val.(*Str); ok && s.isLit() {
		return s.lit()
	}
	return "panic(" + v.typ.String() + ")"
}

func (in *Interp) prepCall(fi *FnInfo, it *Item, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := in.operand(it, fi, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, in.operandRaw(it, fi, a))
		}
		return nil, args
	}
	fv := in.operand(it, fi, c.Value)
	for _, a := range c.Args {
		args = append(args, in.operandRaw(it, fi, a))
	}
	return fv, args
}

func (in *Interp) call(fi *FnInfo, it *Item, c *ssa.CallCommon) []Outcome {
	fv, args := in.prepCall(fi, it, c)
	return in.callValue(it.st, fv, args, c)
}

func (in *Interp) callValue(st *State, fv Value, args []Value, c *ssa.CallCommon) []Outcome {
	if c != nil && c.IsInvoke() {
		iv, ok := args[0].(IfaceV)
		if !ok {
			unsup("invoke on %T", args[0])
		}
		return in.invoke(st, iv, c.Method, args[1:])
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		return in.builtin(st, f, args, c)
	case *Closure:
		if f == nil {
			return []Outcome{rtPanic(st, "invalid memory address or nil pointer dereference")}
		}
		if f.nat != nil {
			return f.nat.f(in, st, args)
		}
		return in.callFn(st, f.fn, args, f.binds)
	}
	unsup("call of %T", fv)
	return nil
}

func (in *Interp) invoke(st *State, iv IfaceV, m *types.Func, args []Value) []Outcome {
	if iv.typ == nil {
		return []Outcome{rtPanic(st, "invalid memory address or nil pointer dereference")}
	}
	if n, ok := iv.val.(*Native); ok {
		return in.nativeMethod(st, n, m.Name(), args)
	}
	fn := in.prog.LookupMethod(iv.typ, m.Pkg(), m.Name())
	if fn == nil {
		unsup("method %s of %s", m.Name(), iv.typ)
	}
	return in.callFn(st, fn, append([]Value{iv.val}, args...), nil)
}

func (in *Interp) makeSlice(st *State, t types.Type, l, c int) SliceV {
	et := t.Underlying().(*types.Slice).Elem()
	a := &Agg{elems: make([]Value, c)}
	if c > 0 {
		z := zero(et)
		for i := range a.elems {
			a.elems[i] = z
		}
	}
	id := st.alloc(a)
	a.owner = st.top()
	return SliceV{obj: id, len: l, cap: c}
}

func (in *Interp) newBytes(st *State, bs []*Term) SliceV {
	a := &Agg{elems: make([]Value, len(bs))}
	for i, b := range bs {
		a.elems[i] = b
	}
	return SliceV{obj: st.alloc(a), len: len(bs), cap: len(bs)}
}

func (in *Interp) newSlice(st *State, vs []Value) SliceV {
	return SliceV{obj: st.alloc(&Agg{elems: vs}), len: len(vs), cap: len(vs)}
}

// arrayOf is the array a slice looks at.
func (in *Interp) arrayOf(st *State, s SliceV) *Agg {
	if s.obj == 0 {
		return &Agg{}
	}
	v := st.get(s.obj)
	if s.path != nil {
		v = loadPath(v, s.path.steps())
	}
	a, ok := v.(*Agg)
	if !ok {
		unsup("slice of %T", v)
	}
	return a
}

func (in *Interp) sliceElems(st *State, s SliceV) []Value {
	if s.rope != nil {
		unsup("elements of rope bytes")
	}
	if s.len == 0 {
		return nil
	}
	return in.arrayOf(st, s).elems[s.off : s.off+s.len]
}

func (in *Interp) sliceBytes(st *State, s SliceV) []*Term {
	es := in.sliceElems(st, s)
	r := make([]*Term, len(es))
	for i, e := range es {
		t, ok := e.(*Term)
		if !ok {
			unsup("byte slice element %T", e)
		}
		r[i] = t
	}
	return r
}

// sliceStr is the content of a byte slice as a string.
func (in *Interp) sliceStr(st *State, s SliceV) *Str {
	if s.rope != nil {
		return s.rope
	}
	return bytesStr(in.sliceBytes(st, s))
}

// setElems overwrites part of a slice's array.
func (in *Interp) setElems(st *State, s SliceV, at int, vs []Value) {
	if len(vs) == 0 {
		return
	}
	arr := in.arrayOf(st, s)
	st.touch(s.obj)
	if s.path == nil && arr.owner != nil && arr.owner == st.top() {
		copy(arr.elems[s.off+at:], vs)
		return
	}
	n := &Agg{elems: append([]Value{}, arr.elems...)}
	copy(n.elems[s.off+at:], vs)
	st.store(Ptr{s.obj, s.path}, n)
	if s.path == nil {
		n.owner = st.top()
	}
}

func (in *Interp) slice(st *State, x Value, lo, hi, mx Value, t types.Type) []Outcome {
	conc := func(v Value, def int) (*Term, bool) {
		if v == nil {
			return BV(64, uint64(def)), true
		}
		tm := v.(*Term)
		if tm.w < 64 {
			tm = Zext(tm, 64)
		}
		return tm, tm.isConst()
	}
	var length, capacity int
	var str *Str
	var sv SliceV
	switch b := x.(type) {
	case *Str:
		str = b
		l, ok := b.concLen()
		if !ok {
			if lo == nil && hi == nil {
				return ret(st, b)
			}
			return in.sliceRope(st, b, lo, hi)
		}
		length, capacity = l, l
	case SliceV:
		if b.rope != nil {
			if lo == nil && hi == nil {
				return ret(st, b)
			}
			unsup("slicing rope bytes")
		}
		sv = b
		length, capacity = b.len, b.cap
	case Ptr:
		if b.obj == 0 {
			return []Outcome{rtPanic(st, "invalid memory address or nil pointer dereference")}
		}
		n := int(t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		sv = SliceV{obj: b.obj, path: b.path, len: n, cap: n}
		if b.path != nil && b.path.isWin {
			sv.off = b.path.idx
			sv.path = b.path.parent
		}
		length, capacity = n, n
	default:
		unsup("slice of %T", x)
	}
	lt, ok1 := conc(lo, 0)
	ht, ok2 := conc(hi, length)
	mt, ok3 := conc(mx, capacity)
	if ok1 && ok2 && ok3 {
		return []Outcome{in.slice1(st, str, sv, length, capacity, lt.sint(), ht.sint(), mt.sint())}
	}
	// bounds first, then enumerate
	limit := BV(64, uint64(capacity))
	good := And(Ule(lt, ht), Ule(ht, mt), Ule(mt, limit))
	var outs []Outcome
	a, b := in.split(st, good)
	if b != nil {
		outs = append(outs, rtPanic(b, "slice bounds out of range"))
	}
	if a != nil {
		for _, l := range in.concretize(a, lt, 600) {
			for _, h := range in.concretize(l.st, ht, 600) {
				for _, m := range in.concretize(h.st, mt, 600) {
					outs = append(outs, in.slice1(m.st, str, sv, length, capacity, int64(l.v), int64(h.v), int64(m.v)))
				}
			}
		}
	}
	return outs
}

func (in *Interp) slice1(st *State, str *Str, sv SliceV, length, capacity int, l, h, m int64) Outcome {
	if l < 0 || h < l || m < h || m > int64(capacity) {
		return rtPanic(st, "slice bounds out of range")
	}
	if str != nil {
		r, ok := str.slice(int(l), int(h))
		if !ok {
			unsup("slice of opaque string")
		}
		return Outcome{st: st, kind: oRet, val: r}
	}
	if sv.obj == 0 {
		return Outcome{st: st, kind: oRet, val: sv}
	}
	n := SliceV{obj: sv.obj, path: sv.path, off: sv.off + int(l), len: int(h - l), cap: int(m - l)}
	return Outcome{st: st, kind: oRet, val: n}
}

// sliceRope cuts a rope at constant offsets or at its own length.
func (in *Interp) sliceRope(st *State, s *Str, lo, hi Value) []Outcome {
	l := 0
	if lo != nil {
		t := lo.(*Term)
		if !t.isConst() {
			// an offset that is the length of a prefix of parts
			if r, ok := suffixFrom(s, t); ok && hi == nil {
				return ret(st, r)
			}
			if hi == nil {
				unsup("rope slice at symbolic offset")
			}
			if r, ok := cutRope(s, t, hi.(*Term)); ok {
				return ret(st, r)
			}
			unsup("rope slice at symbolic offset")
		}
		l = int(t.c)
	}
	if hi != nil {
		t := hi.(*Term)
		if r, ok := cutRope(s, BV(64, uint64(l)), t); ok {
			return ret(st, r)
		}
		if t.isConst() {
			if r, ok := s.slice(l, int(t.c)); ok {
				return ret(st, r)
			}
		}
		unsup("rope slice")
	}
	// drop l bytes at the front
	if r, ok := suffixFrom(s, BV(64, uint64(l))); ok {
		return ret(st, r)
	}
	// check the cut lies in the concrete-length prefix
	pos := 0
	for i := range s.parts {
		p := s.parts[i]
		pl, ok := p.concLen()
		if !ok {
			break
		}
		if l < pos+pl {
			bs := p.bytes()
			if bs == nil {
				break
			}
			ps := append([]SPart{{kind: spBytes, bs: bs[l-pos:]}}, s.parts[i+1:]...)
			return ret(st, normStr(ps))
		}
		pos += pl
	}
	unsup("rope slice")
	return nil
}

func partLen(p *SPart) *Term {
	return (&Str{parts: []SPart{*p}}).lenTerm()
}

func suffixFrom(s *Str, off *Term) (*Str, bool) {
	pos := BV(64, 0)
	for i := range s.parts {
		if pos == off {
			return normStr(s.parts[i:]), true
		}
		pos = Add(pos, partLen(&s.parts[i]))
	}
	if pos == off {
		return emptyStr, true
	}
	return nil, false
}

func cutRope(s *Str, lo, hi *Term) (*Str, bool) {
	a, b := -1, -1
	pos := BV(64, 0)
	for i := 0; i <= len(s.parts); i++ {
		if pos == lo && a < 0 {
			a = i
		}
		if pos == hi {
			b = i
		}
		if i < len(s.parts) {
			pos = Add(pos, partLen(&s.parts[i]))
		}
	}
	if a < 0 || b < a {
		return nil, false
	}
	return normStr(s.parts[a:b]), true
}

// ---- operators ----

func (in *Interp) binop(st *State, op token.Token, t types.Type, a, b Value) (Value, bool) {
	switch op {
	case token.EQL:
		return in.eqVal(a, b)
	case token.NEQ:
		r, ok := in.eqVal(a, b)
		if !ok {
			return nil, false
		}
		return Not(r), true
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		_, sg, _ := intWidth(t)
		switch op {
		case token.ADD:
			return Add(x, y), true
		case token.SUB:
			return Sub(x, y), true
		case token.MUL:
			return Mul(x, y), true
		case token.QUO:
			if sg {
				return Sdiv(x, y), true
			}
			return Udiv(x, y), true
		case token.REM:
			if sg {
				return Srem(x, y), true
			}
			return Urem(x, y), true
		case token.AND:
			if x.w == 0 {
				return And(x, y), true
			}
			return Band(x, y), true
		case token.OR:
			if x.w == 0 {
				return Or(x, y), true
			}
			return Bor(x, y), true
		case token.XOR:
			return Bxor(x, y), true
		case token.AND_NOT:
			return Band(x, Bnot(y)), true
		case token.SHL, token.SHR:
			// bring the count to the operand's width
			if y.w != x.w {
				if y.w < x.w {
					y = Zext(y, x.w)
				} else if y.isConst() {
					if y.big().Cmp(big.NewInt(int64(x.w))) >= 0 {
						y = BV(x.w, uint64(x.w))
					} else {
						y = Resize(y, x.w)
					}
				} else {
					over := Not(Ult(y, BV(y.w, uint64(x.w))))
					y = Ite(over, BV(x.w, uint64(x.w)), Resize(y, x.w))
				}
			}
			if op == token.SHL {
				return Shl(x, y), true
			}
			if sg {
				return Ashr(x, y), true
			}
			return Lshr(x, y), true
		case token.LSS:
			if sg {
				return Slt(x, y), true
			}
			return Ult(x, y), true
		case token.LEQ:
			if sg {
				return Not(Slt(y, x)), true
			}
			return Ule(x, y), true
		case token.GTR:
			if sg {
				return Slt(y, x), true
			}
			return Ult(y, x), true
		case token.GEQ:
			if sg {
				return Not(Slt(x, y)), true
			}
			return Ule(y, x), true
		}
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			return concatStr(x, y), true
		case token.LSS:
			return strLess(x, y)
		case token.GTR:
			return strLess(y, x)
		case token.LEQ:
			r, ok := strLess(y, x)
			if !ok {
				return nil, false
			}
			return Not(r), true
		case token.GEQ:
			r, ok := strLess(x, y)
			if !ok {
				return nil, false
			}
			return Not(r), true
		}
	case FloatV:
		y, ok := b.(FloatV)
		if !ok {
			return nil, false
		}
		switch op {
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.MUL:
			return x * y, true
		case token.QUO:
			return x / y, true
		case token.LSS:
			return Bool(x < y), true
		case token.GTR:
			return Bool(x > y), true
		case token.LEQ:
			return Bool(x <= y), true
		case token.GEQ:
			return Bool(x >= y), true
		}
	}
	return nil, false
}

func (in *Interp) eqVal(a, b Value) (*Term, bool) {
	switch x := a.(type) {
	case nil:
		return Bool(b == nil), true
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		return Eq(x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		return strEq(x, y)
	case FloatV:
		return Bool(x == b), true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if x == y {
			return tTrue, true
		}
		if x.obj != y.obj {
			return tFalse, true
		}
		hasSym := func(p *PNode) bool {
			for q := p; q != nil; q = q.parent {
				if q.sym != nil || q.isWin {
					return true
				}
			}
			return false
		}
		if hasSym(x.path) || hasSym(y.path) {
			return nil, false
		}
		return tFalse, true
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return nil, false
		}
		nilX, nilY := x.obj == 0 && x.rope == nil, y.obj == 0 && y.rope == nil
		if nilX || nilY {
			return Bool(nilX && nilY), true
		}
		return nil, false
	case MapV:
		return Bool(a == b), true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == nil || y == nil {
			return Bool(x == nil && y == nil), true
		}
		return nil, false
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if x.typ != y.typ {
			return tFalse, true
		}
		if x.typ == nil {
			return tTrue, true
		}
		return in.eqVal(x.val, y.val)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.elems) != len(y.elems) {
			return nil, false
		}
		var cs []*Term
		for i := range x.elems {
			c, ok := in.eqVal(x.elems[i], y.elems[i])
			if !ok {
				return nil, false
			}
			if c == tFalse {
				return tFalse, true
			}
			cs = append(cs, c)
		}
		return And(cs...), true
	case *Native:
		return Bool(a == b), true
	case *BigV:
		y, ok := b.(*BigV)
		if !ok {
			return nil, false
		}
		return bigEq(x, y), true
	}
	return nil, false
}

func (in *Interp) convert(st *State, v Value, from, to types.Type) []Outcome {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.TypeParam); ok {
		_ = tp
		unsup("convert to type parameter")
	}
	wt, _, tInt := intWidth(tu)
	wf, sf, fInt := intWidth(fu)
	switch {
	case tInt && fInt:
		t := v.(*Term)
		if wt <= wf {
			return ret(st, Resize(t, wt))
		}
		if sf {
			return ret(st, Sext(t, wt))
		}
		return ret(st, Zext(t, wt))
	}
	fb, fBasic := fu.(*types.Basic)
	tb, tBasic := tu.(*types.Basic)
	if tBasic && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case *Str:
			return ret(st, x)
		case SliceV:
			et := fu.(*types.Slice).Elem()
			if w, _, ok := intWidth(et); ok && w == 8 {
				return ret(st, in.sliceStr(st, x))
			}
			// runes
			var rs []rune
			for _, e := range in.sliceElems(st, x) {
				t := e.(*Term)
				if !t.isConst() {
					return in.runesToStr(st, x)
				}
				rs = append(rs, rune(t.sint()))
			}
			return ret(st, litStr(string(rs)))
		case *Term:
			if x.isConst() {
				return ret(st, litStr(string(rune(x.sint()))))
			}
			lo := Extract(x, min(x.w, 8)-1, 0)
			a, b := in.split(st, Ult(x, BV(x.w, 0x80)))
			var os []Outcome
			if a != nil {
				os = append(os, Outcome{st: a, kind: oRet, val: bytesStr([]*Term{lo})})
			}
			if b != nil {
				os = append(os, Outcome{st: b, kind: oUnsup, msg: "symbolic non-ASCII rune to string"})
			}
			return os
		}
	}
	if fBasic && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(*Str)
			if w, _, ok := intWidth(sl.Elem()); ok && w == 8 {
				bs := s.bytes()
				if bs == nil {
					return ret(st, SliceV{rope: s})
				}
				return ret(st, in.newBytes(st, bs))
			}
			if s.isLit() {
				var vs []Value
				for _, r := range []rune(s.lit()) {
					vs = append(vs, BV(32, uint64(uint32(r))))
				}
				return ret(st, in.newSlice(st, vs))
			}
			bs := s.bytes()
			if bs == nil {
				unsup("[]rune of rope")
			}
			conds := make([]*Term, len(bs))
			vs := make([]Value, len(bs))
			for i, b := range bs {
				conds[i] = Ult(b, BV(8, 0x80))
				vs[i] = Zext(b, 32)
			}
			a, b := in.split(st, And(conds...))
			var os []Outcome
			if a != nil {
				os = append(os, Outcome{st: a, kind: oRet, val: in.newSlice(a, vs)})
			}
			if b != nil {
				os = append(os, Outcome{st: b, kind: oUnsup, msg: "[]rune of symbolic non-ASCII text"})
			}
			return os
		}
	}
	isF := func(b *types.Basic, ok bool) bool { return ok && b.Info()&types.IsFloat != 0 }
	if isF(tb, tBasic) {
		switch x := v.(type) {
		case FloatV:
			if tb.Kind() == types.Float32 {
				return ret(st, FloatV(float32(x)))
			}
			return ret(st, x)
		case *Term:
			if x.isConst() {
				if sf {
					return ret(st, FloatV(float64(x.sint())))
				}
				return ret(st, FloatV(float64(x.c)))
			}
			unsup("symbolic float")
		}
	}
	if isF(fb, fBasic) && tInt {
		if x, ok := v.(FloatV); ok {
			return ret(st, BVBig(wt, big.NewInt(int64(x))))
		}
	}
	if p, ok := v.(Ptr); ok {
		if tInt {
			// addresses are only ever compared with zero or used for alignment
			unsup("pointer to integer")
		}
		return ret(st, p)
	}
	if tBasic && tb.Kind() == types.UnsafePointer {
		unsup("integer to pointer")
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (in *Interp) runesToStr(st *State, x SliceV) []Outcome {
	es := in.sliceElems(st, x)
	var conds []*Term
	bs := make([]*Term, len(es))
	for i, e := range es {
		t := e.(*Term)
		conds = append(conds, Ult(t, BV(t.w, 0x80)))
		bs[i] = Extract(t, 7, 0)
	}
	a, b := in.split(st, And(conds...))
	var os []Outcome
	if a != nil {
		os = append(os, Outcome{st: a, kind: oRet, val: bytesStr(bs)})
	}
	if b != nil {
		os = append(os, Outcome{st: b, kind: oUnsup, msg: "symbolic non-ASCII runes to string"})
	}
	return os
}

func (in *Interp) typeAssert(st *State, v Value, at types.Type, commaOk bool) []Outcome {
	iv := v.(IfaceV)
	ok := false
	if iv.typ != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			if n, isN := iv.val.(*Native); isN {
				ok = nativeImplements(n, it)
			} else {
				ok = types.Implements(iv.typ, it)
			}
		} else {
			ok = types.Identical(iv.typ, at)
		}
	}
	_, isI := at.Underlying().(*types.Interface)
	if commaOk {
		if !ok {
			return ret(st, Tuple{zero(at), tFalse})
		}
		if isI {
			return ret(st, Tuple{iv, tTrue})
		}
		return ret(st, Tuple{iv.val, tTrue})
	}
	if !ok {
		return []Outcome{rtPanic(st, "interface conversion")}
	}
	if isI {
		return ret(st, iv)
	}
	return ret(st, iv.val)
}

// ---- maps and ranges ----

func ownMap(st *State, m MapV) *MapObj {
	st.touch(m.obj)
	o := st.get(m.obj).(*MapObj)
	top := st.top()
	if o.owner != top {
		o = o.clone()
		o.owner = top
		top.m[m.obj] = o
	}
	return o
}

// mapSet stores under a key, in one state for every entry that may already have the key.
func (in *Interp) mapSet(st *State, m MapV, k, v Value) []Outcome {
	o := st.get(m.obj).(*MapObj)
	ck, conc := ckey(k)
	if conc && o.nsym == 0 {
		o = ownMap(st, m)
		if i, ok := o.index[ck]; ok {
			o.vals[i] = v
		} else {
			o.index[ck] = len(o.keys)
			o.keys = append(o.keys, k)
			o.vals = append(o.vals, v)
		}
		return ret(st, Tuple{})
	}
	var os []Outcome
	cur := st
	for i := range o.keys {
		e, ok := in.eqVal(o.keys[i], k)
		if !ok {
			unsup("map key comparison")
		}
		if e == tFalse {
			continue
		}
		a, b := in.split(cur, e)
		if a != nil {
			ownMap(a, m).vals[i] = v
			os = append(os, Outcome{st: a, kind: oRet, val: Tuple{}})
		}
		if cur = b; cur == nil {
			return os
		}
	}
	n := ownMap(cur, m)
	if conc {
		n.index[ck] = len(n.keys)
	} else {
		n.nsym++
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	return append(os, Outcome{st: cur, kind: oRet, val: Tuple{}})
}

func (in *Interp) mapGet(st *State, m MapV, k Value, et types.Type, commaOk bool) []Outcome {
	mk := func(st *State, v Value, ok *Term) Outcome {
		if commaOk {
			return Outcome{st: st, kind: oRet, val: Tuple{v, ok}}
		}
		return Outcome{st: st, kind: oRet, val: v}
	}
	if m.obj == 0 {
		return []Outcome{mk(st, zero(et), tFalse)}
	}
	o := st.get(m.obj).(*MapObj)
	if o.nsym == 0 {
		if ck, ok := ckey(k); ok {
			if i, ok := o.index[ck]; ok {
				return []Outcome{mk(st, o.vals[i], tTrue)}
			}
			return []Outcome{mk(st, zero(et), tFalse)}
		}
	}
	if len(o.keys) == 0 {
		return []Outcome{mk(st, zero(et), tFalse)}
	}
	z := zero(et)
	// atom keys: one table over the atom's index
	if s, ok := k.(*Str); ok && len(s.parts) == 1 && s.parts[0].kind == spAtom && o.nsym == 0 {
		p := s.parts[0]
		which := make([]*Term, len(p.tbl.ents))
		found := make([]*Term, len(p.tbl.ents))
		vals := make([]Value, 0, len(o.vals)+1)
		vals = append(vals, o.vals...)
		vals = append(vals, z)
		for i, e := range p.tbl.ents {
			j, ok := o.index["s"+e]
			if !ok {
				j = len(o.keys)
			}
			which[i] = BV(32, uint64(j))
			found[i] = Bool(ok)
		}
		f := Table(p.idx, found)
		v := selectVal(Zext(Table(p.idx, which), 64), vals)
		if u, ok := v.(*Unusable); ok {
			_ = u
			return in.mapGetFork(st, o, k, z, mk)
		}
		return []Outcome{mk(st, v, f)}
	}
	conds := make([]*Term, len(o.keys))
	var idxs []int
	for i := range o.keys {
		e, ok := in.eqVal(o.keys[i], k)
		if !ok {
			unsup("map key comparison")
		}
		conds[i] = e
		if e != tFalse {
			idxs = append(idxs, i)
		}
	}
	if len(idxs) == 0 {
		return []Outcome{mk(st, z, tFalse)}
	}
	n := len(idxs)
	w := 32
	sel := BV(w, uint64(n))
	fs := make([]*Term, n)
	vals := make([]Value, n+1)
	for j := n - 1; j >= 0; j-- {
		i := idxs[j]
		sel = mk3(conds[i], BV(w, uint64(j)), sel)
		fs[j] = conds[i]
		vals[j] = o.vals[i]
	}
	vals[n] = z
	v := selectVal(Zext(sel, 64), vals)
	if _, ok := v.(*Unusable); ok {
		return in.mapGetFork(st, o, k, z, mk)
	}
	return []Outcome{mk(st, v, Or(fs...))}
}

func mk3(c, a, b *Term) *Term { return Ite(c, a, b) }

// mapGetFork answers a lookup whose values cannot be merged by forking on the entry.
func (in *Interp) mapGetFork(st *State, o *MapObj, k Value, z Value, mk func(*State, Value, *Term) Outcome) []Outcome {
	var outs []Outcome
	cur := st
	for i := range o.keys {
		if cur == nil {
			break
		}
		e, ok := in.eqVal(o.keys[i], k)
		if !ok {
			unsup("map key comparison")
		}
		if e == tFalse {
			continue
		}
		a, b := in.split(cur, e)
		if a != nil {
			outs = append(outs, mk(a, o.vals[i], tTrue))
		}
		cur = b
	}
	if cur != nil {
		outs = append(outs, mk(cur, z, tFalse))
	}
	return outs
}

type iterData struct {
	kind string
	keys []Value
	m    MapV
	str  *Str
}

func (in *Interp) rangeStart(st *State, v Value) Value {
	d := &iterData{}
	switch x := v.(type) {
	case *Str:
		d.kind = "str"
		d.str = x
	case MapV:
		d.kind = "map"
		d.m = x
		if x.obj != 0 {
			o := st.get(x.obj).(*MapObj)
			d.keys = append([]Value{}, o.keys...)
			switch in.mapOrder {
			case "rev":
				for i, j := 0, len(d.keys)-1; i < j; i, j = i+1, j-1 {
					d.keys[i], d.keys[j] = d.keys[j], d.keys[i]
				}
			case "rot":
				k := len(d.keys) / 3
				d.keys = append(append([]Value{}, d.keys[k:]...), d.keys[:k]...)
			case "mix":
				n := len(d.keys)
				var ks []Value
				for i := 0; i < n; i += 2 {
					ks = append(ks, d.keys[i])
				}
				for i := 1; i < n; i += 2 {
					ks = append(ks, d.keys[i])
				}
				d.keys = ks
			}
		}
	default:
		unsup("range over %T", v)
	}
	return Ptr{obj: st.alloc(&Agg{elems: []Value{BV(64, 0), &Native{"iter", d}}})}
}

func (in *Interp) rangeNext(st *State, p Ptr, x *ssa.Next) []Outcome {
	a := st.get(p.obj).(*Agg)
	pos := int(a.elems[0].(*Term).c)
	d := a.elems[1].(*Native).d.(*iterData)
	adv := func(st *State, n int) { st.put(p.obj, &Agg{elems: []Value{BV(64, uint64(n)), a.elems[1]}}) }
	tt := x.Type().(*types.Tuple)
	zk := func() Value {
		if b, ok := tt.At(1).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(tt.At(1).Type())
	}
	zv := func() Value {
		if b, ok := tt.At(2).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(tt.At(2).Type())
	}
	if d.kind == "map" {
		for pos < len(d.keys) {
			k := d.keys[pos]
			o := st.get(d.m.obj).(*MapObj)
			// still present?
			var v Value
			found := false
			if ck, ok := ckey(k); ok {
				if i, ok := o.index[ck]; ok {
					v, found = o.vals[i], true
				}
			} else {
				for i := range o.keys {
					if sameVal(o.keys[i], k) {
						v, found = o.vals[i], true
					}
				}
			}
			pos++
			if found {
				adv(st, pos)
				return ret(st, Tuple{tTrue, k, v})
			}
		}
		adv(st, pos)
		return ret(st, Tuple{tFalse, zk(), zv()})
	}
	l, ok := d.str.concLen()
	if !ok {
		unsup("range over rope")
	}
	if pos >= l {
		return ret(st, Tuple{tFalse, zk(), zv()})
	}
	b, ok := d.str.at(pos)
	if !ok {
		unsup("range over opaque string")
	}
	var outs []Outcome
	s1, s2 := in.split(st, Ult(b, BV(8, 0x80)))
	if s1 != nil {
		if s1 == st && s2 == nil {
		}
		adv(s1, pos+1)
		outs = append(outs, Outcome{st: s1, kind: oRet, val: Tuple{tTrue, BV(64, uint64(pos)), Zext(b, 32)}})
	}
	if s2 != nil {
		rest, ok := d.str.slice(pos, l)
		if !ok {
			unsup("range over opaque string")
		}
		fn := in.findFn("unicode/utf8", "DecodeRuneInString")
		for _, o := range in.callFn(s2, fn, []Value{rest}, nil) {
			if o.kind != oRet {
				outs = append(outs, o)
				continue
			}
			tp := o.val.(Tuple)
			for _, c := range in.concretize(o.st, tp[1].(*Term), 8) {
				adv(c.st, pos+int(c.v))
				outs = append(outs, Outcome{st: c.st, kind: oRet, val: Tuple{tTrue, BV(64, uint64(pos)), tp[0]}})
			}
		}
	}
	return outs
}

func (in *Interp) findFn(pkg, name string) *ssa.Function {
	p := in.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	f := p.Func(name)
	if f == nil {
		unsup("function %s.%s", pkg, name)
	}
	return f
}

// ---- package initialisation ----

var skipInit = map[string]bool{"runtime": true, "internal/cpu": true, "os": true, "syscall": true, "time": true, "reflect": true, "internal/poll": true,
	"runtime/debug": true, "internal/godebug": true, "internal/godebugs": true, "log": true, "net": true, "crypto/internal/boring": true, "internal/testlog": true, "os/signal": true, "testing": true}

func (in *Interp) ensureInit(p *ssa.Package) {
	if in.initState[p] != 0 {
		return
	}
	in.initState[p] = 1
	defer func() { in.initState[p] = 2 }()
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	t0 := time.Now()
	wasC := in.concrete
	in.concrete = true
	d := in.depth
	in.depth = 0
	saved := in.deadline
	in.deadline = time.Time{}
	st := &State{heap: baseLayer}
	wasF := baseLayer.frozen
	baseLayer.frozen = false
	outs := in.callFn(st, f, nil, nil)
	// fold any layers into the base
	for _, o := range outs {
		if o.kind != oRet {
			if in.debug || isRepo(p.Pkg.Path()) {
				fmt.Fprintf(os.Stderr, "init of %s incomplete: %d %s %v\n", p.Pkg.Path(), o.kind, o.msg, pvs(o.pv))
			}
			if in.h != nil && isRepo(p.Pkg.Path()) {
				in.h.initProblem(p.Pkg.Path(), o)
			}
		}
		var ls []*Layer
		for l := o.st.heap; l != nil && l != baseLayer; l = l.parent {
			ls = append(ls, l)
		}
		for i := len(ls) - 1; i >= 0; i-- {
			for k, v := range ls[i].m {
				baseLayer.m[k] = v
			}
		}
	}
	baseLayer.frozen = wasF
	in.concrete = wasC
	in.depth = d
	in.deadline = saved
	if in.debug {
		fmt.Fprintf(os.Stderr, "init %s %v\n", p.Pkg.Path(), time.Since(t0))
	}
}

func pvs(p *PanicV) string {
	if p == nil {
		return ""
	}
	return p.msg
}

func isRepo(p string) bool { return strings.HasPrefix(p, "github.com/mearaj/bips") }
