package main

// Harness execution: symbolic inputs, assertions, counterexample realisation, native replay.

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type AssertStat struct {
	Label    string `json:"label"`
	Proved   int    `json:"proved"`
	Trivial  int    `json:"proved_by_simplification"`
	Unknown  int    `json:"unknown"`
	Refuted  int    `json:"refuted"`
	Unreplay int    `json:"candidates_not_reproduced"`
}

type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Input   map[string]string `json:"input"`
	Stub    []StubEnt         `json:"stub,omitempty"`
	Detail  string            `json:"detail"`
	Native  []string          `json:"native_output"`
	Replay  string            `json:"replay_file"`
}

// StubEnt fixes the result of one oracle call during replay.
type StubEnt struct {
	Kind string   `json:"kind"`
	Args []string `json:"args"`
	Out  string   `json:"out"`
}

type ReplayCase struct {
	Race bool `json:"race,omitempty"` // the race detector watches two goroutines
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Thorough bool              `json:"thorough"`
	Input    map[string]string `json:"input"`
	Stub     []StubEnt         `json:"stub,omitempty"`
}

type Result struct {
	Harness    string         `json:"harness"`
	MapOrder   string         `json:"map_order,omitempty"`
	Status     string         `json:"status"`
	Asserts    []*AssertStat  `json:"assertions"`
	Reached    []string       `json:"reached"`
	Unreached  []string       `json:"reach_not_witnessed"`
	Returned   int            `json:"returned_paths"`
	Undecided  map[string]int `json:"undecided_paths,omitempty"`
	Violations []*Violation   `json:"violations,omitempty"`
	Unrepro    []*Violation   `json:"unreproduced,omitempty"`
	Functions  map[string]int `json:"functions"`
	Models     map[string]int `json:"models"`
	Inputs     map[string]int `json:"inputs"`
	Blocks     int64          `json:"blocks"`
	Steps      int64          `json:"steps"`
	Forks      int64          `json:"forks"`
	Merges     int64          `json:"merges"`
	Queries    int            `json:"queries"`
	QSat       int            `json:"q_sat"`
	QUnsat     int            `json:"q_unsat"`
	QUnknown   int            `json:"q_unknown"`
	SolverS    float64        `json:"solver_s"`
	MaxQueryS  float64        `json:"max_query_s"`
	WallS      float64        `json:"wall_s"`
	Validated  int            `json:"traces_validated"`
	Mismatch   []string       `json:"mismatch,omitempty"`
	Samples    []interface{}  `json:"samples,omitempty"`
	Notes      []string       `json:"notes,omitempty"`
	Cross      string         `json:"cross_check,omitempty"`
	Choices    int            `json:"choices,omitempty"` // alternatives of the first vChoose
	Part       string         `json:"part,omitempty"`
}

type reachPt struct {
	label string
	pc    *PC
}

type Harness struct {
	searched int
	// only the alternatives i of the first vChoose with i%cases == caseNo, when cases > 0
	cases, caseNo int
	firstChoice   string
	prop, name string
	thorough   bool
	native     string
	scratch    string
	replayDir  string
	in         *Interp
	res        *Result
	asserts    map[string]*AssertStat
	order      []string
	inputs     map[string]int // variable -> width
	reach      map[string][]*PC
	reachOrder []string
	tries      map[string]int
	done       map[string]bool // labels already confirmed
	races      map[string]bool // labels of vShared
	queryMs    int
	cross      *Solver
	crossN     int
	crossBad   int
}

func (h *Harness) initProblem(pkg string, o Outcome) {
	msg := o.msg
	if o.pv != nil {
		msg = "panic: " + o.pv.msg
	}
	h.res.Notes = append(h.res.Notes, "initialisation of "+pkg+" incomplete: "+msg)
}

func (h *Harness) stat(label string) *AssertStat {
	s := h.asserts[label]
	if s == nil {
		s = &AssertStat{Label: label}
		h.asserts[label] = s
		h.order = append(h.order, label)
	}
	return s
}

func (h *Harness) input(st *State, name Value, w int) (*State, *Term) {
	n, ok := name.(*Str)
	if !ok || !n.isLit() {
		unsup("input name")
	}
	base := n.lit()
	k := st.names.get(base)
	ns := st.fork()
	ns.names = &NameCnt{parent: st.names, name: base, n: k + 1}
	vn := fmt.Sprintf("%s#%d", base, k)
	if old, ok := h.inputs[vn]; ok && old != w {
		vn = fmt.Sprintf("%s:%d", vn, w)
	}
	h.inputs[vn] = w
	return ns, Var(vn, w)
}

func hdef(name string, f func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome) {
	def(harnessPkg+"."+name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return f(in.h, in, st, fn, a), true
	})
}

func constArg(v Value) int {
	n, ok := tConstInt(v)
	if !ok {
		unsup("harness argument must be constant")
	}
	return n
}

func init() {
	scalar := func(name string, w int) {
		hdef(name, func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
			ns, v := h.input(st, a[0], w)
			return ret(ns, v)
		})
	}
	scalar("vBool", 0)
	scalar("vByte", 8)
	scalar("vU16", 16)
	scalar("vU32", 32)
	scalar("vU64", 64)
	hdef("vInt", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		ns, v := h.input(st, a[0], 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		x, _ := in.split(ns, And(Sle(lo, v), Sle(v, hi)))
		if x == nil {
			return []Outcome{{st: ns, kind: oStop}}
		}
		return ret(x, v)
	})
	hdef("vBytes", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		n := constArg(a[1])
		if n == 0 {
			return ret(st, in.newBytes(st, nil))
		}
		ns, v := h.input(st, a[0], 8*n)
		return ret(ns, in.newBytes(ns, bytesOf(v)))
	})
	hdef("vString", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		n := constArg(a[1])
		if n == 0 {
			return ret(st, emptyStr)
		}
		ns, v := h.input(st, a[0], 8*n)
		return ret(ns, bytesStr(bytesOf(v)))
	})
	hdef("vIndex", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		n := constArg(a[1])
		w := big.NewInt(int64(n - 1)).BitLen()
		if n <= 1 {
			return ret(st, BV(64, 0))
		}
		ns, v := h.input(st, a[0], w)
		if n != 1<<uint(w) {
			ns.pc = ns.pc.push(Ult(v, BV(w, uint64(n))))
		}
		return ret(ns, Zext(v, 64))
	})
	hdef("vChoose", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		n := constArg(a[1])
		ns, v := h.input(st, a[0], 32)
		if h.firstChoice == "" {
			h.firstChoice = v.name
			h.res.Choices = n
		}
		var os []Outcome
		for i := 0; i < n; i++ {
			if h.cases > 0 && v.name == h.firstChoice && i%h.cases != h.caseNo {
				continue
			}
			s := ns.fork()
			s.pc = s.pc.push(Eq(v, BV(32, uint64(i))))
			s.fork_ = caseID(s.fork_, v, i)
			os = append(os, Outcome{st: s, kind: oRet, val: BV(64, uint64(i))})
		}
		return os
	})
	// vPick concretises a term within bounds: one path per value
	hdef("vPick", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		var os []Outcome
		for _, c := range in.concretize(st, a[0].(*Term), 600) {
			os = append(os, Outcome{st: c.st, kind: oRet, val: BV(64, c.v)})
		}
		return os
	})
	hdef("vAssume", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		x, _ := in.split(st, a[0].(*Term))
		if x == nil {
			return []Outcome{{st: st, kind: oStop}}
		}
		return ret(x, Tuple{})
	})
	hdef("vThorough", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		return ret(st, Bool(h.thorough))
	})
	hdef("vReach", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		l := a[0].(*Str).lit()
		if h.reach[l] == nil {
			h.reachOrder = append(h.reachOrder, l)
		}
		if len(h.reach[l]) < 8 {
			h.reach[l] = append(h.reach[l], st.pc)
		}
		return ret(st, Tuple{})
	})
	hdef("vObserve", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		ns := st.fork()
		iv := a[1].(IfaceV)
		// freeze slice contents now
		if s, ok := iv.val.(SliceV); ok {
			if w, _, ok := intWidth(iv.typ.Underlying().(*types.Slice).Elem()); ok && w == 8 {
				iv = IfaceV{canonType(types.Typ[types.String]), in.sliceStr(st, s)}
			} else {
				iv = IfaceV{canonType(types.Typ[types.Int]), BV(64, uint64(s.len))}
			}
		}
		ns.obs = &Obs{parent: st.obs, label: a[0].(*Str).lit(), val: iv}
		return ret(ns, Tuple{})
	})
	// vAlone runs f and takes everything it did to memory back
	hdef("vAlone", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		before := st.fork()
		var os []Outcome
		for _, o := range in.callValue(st.fork(), a[0], nil, nil) {
			n := o.st.fork()
			n.heap, n.panic, n.obs = before.heap, before.panic, before.obs
			o.st = n
			os = append(os, o)
		}
		return os
	})
	// vShared runs f as one of several goroutines: it must not use memory that was there before without the locks
	// that memory needs.
	hdef("vShared", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		label := a[0].(*Str).lit()
		h.races[label] = true
		n := st.fork()
		n.watch, n.wlocks, n.rlocks, n.raced = nextObj, 0, 0, 0
		os := in.callValue(n, a[1], nil, nil)
		if len(lockedIDs) > 0 {
			os = then(os, func(o Outcome) []Outcome { return in.callValue(o.st, a[1], nil, nil) })
		}
		var out []Outcome
		for _, o := range os {
			raced := o.st.raced
			s := o.st.fork()
			s.watch, s.raced = 0, 0
			o.st = s
			if raced != 0 && o.kind == oRet {
				if len(h.res.Notes) < 8 {
					h.res.Notes = append(h.res.Notes, label+": memory of "+in.ownerOf(raced-1)+" is written")
				}
				out = append(out, h.assert(s, label, tFalse)...)
				continue
			}
			if o.kind == oRet {
				h.stat(label).Proved++
			}
			out = append(out, o)
		}
		return out
	})
	hdef("vAssert", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		return h.assert(st, a[0].(*Str).lit(), a[1].(*Term))
	})
	// vSame asserts equality of two byte strings or strings
	hdef("vNote", func(h *Harness, in *Interp, st *State, fn *ssa.Function, a []Value) []Outcome {
		h.res.Notes = append(h.res.Notes, a[0].(*Str).lit())
		return ret(st, Tuple{})
	})
}

func (h *Harness) assert(st *State, label string, c *Term) []Outcome {
	in := h.in
	s := h.stat(label)
	if v, ok := in.implied(st, c); ok && v {
		s.Trivial++
		return ret(st, Tuple{})
	}
	in.checkTime()
	nc := Not(c)
	ms := h.queryMs
	twins := ufTwins(nc)
	if len(twins) > 0 && ms > 5000 {
		ms = 5000
	}
	r, m := in.sol.Check(st.pc, []*Term{nc}, ms, true)
	if r == Unknown && len(twins) > 0 {
		if nc = h.unify(st.pc, nc); nc == tFalse {
			r = Unsat
		} else {
			r, m = in.sol.Check(st.pc, []*Term{nc}, h.queryMs, true)
		}
	}
	switch r {
	case Unsat:
		s.Proved++
		h.crossCheck(st.pc, []*Term{nc})
		return ret(st, Tuple{})
	case Unknown:
		s.Unknown++
	case Sat:
		if h.candidate(st, label, []*Term{nc}, m) {
			s.Proved++ // with true values of the real functions added the solver finds no model
			return ret(st, Tuple{})
		}
		s.Refuted++
	}
	// go on where it holds
	if v, ok := in.implied(st, c); ok && !v {
		return []Outcome{{st: st, kind: oStop}}
	}
	if !in.feasible(st, c) {
		return []Outcome{{st: st, kind: oStop}}
	}
	ns := st.fork()
	ns.pc = st.pc.push(c)
	return ret(ns, Tuple{})
}

// ufTwins lists the pairs of different applications of one uninterpreted function in a term, inner ones first.
func ufTwins(t *Term) [][2]*Term {
	seen := map[int]bool{}
	by := map[string][]*Term{}
	var names []string
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasUF || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OUF {
			if by[t.name] == nil {
				names = append(names, t.name)
			}
			by[t.name] = append(by[t.name], t)
		}
	}
	walk(t)
	var out [][2]*Term
	for _, n := range names {
		l := by[n]
		for i := range l {
			for j := 0; j < i && len(out) < 40; j++ {
				out = append(out, [2]*Term{l[j], l[i]})
			}
		}
	}
	return out
}

// unify replaces applications of uninterpreted functions by equal ones where their arguments are proved equal.
func (h *Harness) unify(pc *PC, t *Term) *Term {
	tried := map[[2]int]bool{}
	for n := 0; n < 12; n++ {
		done := true
		for _, p := range ufTwins(t) {
			k := [2]int{p[0].id, p[1].id}
			if tried[k] {
				continue
			}
			tried[k] = true
			var eqs []*Term
			for i := range p[0].args {
				if p[0].args[i].w != p[1].args[i].w {
					eqs = []*Term{tFalse}
					break
				}
				eqs = append(eqs, Eq(p[0].args[i], p[1].args[i]))
			}
			eq := And(eqs...)
			if eq == tFalse {
				continue
			}
			h.in.checkTime()
			if r, _ := h.in.sol.Check(pc, []*Term{Not(eq)}, 5000, false); r == Unsat {
				t = replaceTerms(t, map[int]*Term{p[1].id: p[0]}, map[int]*Term{})
				done = false
				break
			}
		}
		if done || t == tFalse {
			break
		}
	}
	return t
}

func (h *Harness) crossCheck(pc *PC, extra []*Term) {
	if h.cross == nil || h.crossN >= 40 {
		return
	}
	h.crossN++
	r, _ := h.cross.Check(pc, extra, 20000, false)
	if r == Sat {
		h.crossBad++
		h.res.Notes = append(h.res.Notes, "the second solver disagrees on a query")
	}
}

const excluded = "excluded by the real functions"

// candidate tries to turn a solver model into a concrete failing run. It returns true where the true values of the
// real functions rule out every model.
func (h *Harness) candidate(st *State, label string, extra []*Term, m Model) bool {
	if h.done[label] || h.tries[label] >= 6 {
		return false
	}
	env, why := h.realize(st.pc, extra, m)
	if env == nil && why == excluded {
		return true
	}
	h.tries[label]++
	var v *Violation
	if env != nil {
		v = &Violation{Harness: h.name, Label: label, Input: h.inputsOf(env)}
		ok, out := h.replay(v)
		v.Native = out
		if ok {
			v.Detail = "reproduced by the compiled code"
			h.confirm(v)
			return false
		}
		v.Detail = "model not reproduced by the compiled code"
	} else {
		// an event of negligible probability: replay with the oracle's answers fixed
		v = &Violation{Harness: h.name, Label: label, Input: h.inputsOf(m)}
		stub := h.stubs(st.pc, extra, m)
		if h.in.debug {
			fmt.Fprintln(os.Stderr, "stub", stub)
		}
		if stub != nil {
			v.Stub = stub
			v.Input = h.inputsOf(m)
			ok, out := h.replay(v)
			v.Native = out
			if h.in.debug {
				b, _ := json.MarshalIndent(v, "", " ")
				fmt.Fprintln(os.Stderr, string(b))
			}
			if ok {
				v.Detail = "reproduced by the compiled code with the hash oracle's answers fixed to those of the model"
				h.confirm(v)
				return false
			}
		}
		v.Detail = "no realisable input found: " + why
	}
	h.stat(label).Unreplay++
	if len(h.res.Unrepro) < 10 {
		h.res.Unrepro = append(h.res.Unrepro, v)
	}
	return false
}

func (h *Harness) confirm(v *Violation) {
	h.done[v.Label] = true
	rc := ReplayCase{Property: h.prop, Harness: h.name, Label: v.Label, Thorough: h.thorough, Input: v.Input, Stub: v.Stub, Race: h.races[v.Label]}
	b, _ := json.MarshalIndent(rc, "", " ")
	os.MkdirAll(h.replayDir, 0o755)
	f := filepath.Join(h.replayDir, fmt.Sprintf("%s-%s.json", h.name, fileSafe(v.Label)))
	os.WriteFile(f, b, 0o644)
	v.Replay = f
	h.res.Violations = append(h.res.Violations, v)
}

func fileSafe(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	r := b.String()
	if len(r) > 60 {
		r = r[:60]
	}
	return r
}

func (h *Harness) inputsOf(env map[string]*Term) map[string]string {
	r := map[string]string{}
	for n, w := range h.inputs {
		t := env[n]
		if t == nil {
			continue
		}
		if w == 0 {
			if t == tTrue {
				r[n] = "01"
			} else {
				r[n] = "00"
			}
			continue
		}
		nb := (w + 7) / 8
		r[n] = hex.EncodeToString(t.big().FillBytes(make([]byte, nb)))
	}
	return r
}

func allTrue(ts []*Term, env map[string]*Term) bool {
	memo := map[int]*Term{}
	for _, t := range ts {
		if Eval(t, env, memo) != tTrue {
			return false
		}
	}
	return true
}

// realize refines a model until it agrees with the real functions behind the uninterpreted ones.
func (h *Harness) realize(pc *PC, extra []*Term, m Model) (map[string]*Term, string) {
	in := h.in
	all := append(pc.list(), extra...)
	var apps []*Term
	seen := map[int]bool{}
	for _, t := range all {
		collectUF(t, seen, &apps)
	}
	if m == nil {
		r, mm := in.sol.Check(pc, extra, h.queryMs, true)
		if r != Sat {
			return nil, "no model (" + r.String() + ")"
		}
		m = mm
	}
	if allTrue(all, m) {
		return m, ""
	}
	if len(apps) == 0 {
		return nil, "model does not satisfy its own constraints"
	}
	// point facts
	facts := append([]*Term{}, extra...)
	named := map[string][]*Term{}
	for _, a := range apps {
		named[a.name] = append(named[a.name], a)
	}
	for _, p := range ufPoints {
		as := named[p.d.name]
		if len(as) > 8 {
			as = as[:8]
		}
		for _, a := range as {
			var eqs []*Term
			for i, x := range a.args {
				eqs = append(eqs, Eq(x, p.args[i]))
			}
			if c := And(eqs...); c != tFalse && len(facts) < 400 {
				if a.w == 0 {
					facts = append(facts, Implies(c, boolIs(a, p.val == tTrue)))
				} else {
					facts = append(facts, Implies(c, Eq(a, p.val)))
				}
			}
		}
	}
	addFacts := func(env map[string]*Term) {
		memo := map[int]*Term{}
		for _, a := range apps {
			var eqs []*Term
			for _, x := range a.args {
				eqs = append(eqs, Eq(x, Eval(x, env, memo)))
			}
			v := Eval(a, env, memo)
			f := Implies(And(eqs...), Eq(a, v))
			if a.w == 0 {
				f = Implies(And(eqs...), boolIs(a, v == tTrue))
			}
			if f != tTrue {
				facts = append(facts, f)
			}
		}
	}
	cur := m
	for round := 0; round < 3; round++ {
		addFacts(cur)
		r, mm := in.sol.Check(pc, facts, h.queryMs, true)
		if r == Unsat {
			return nil, excluded
		}
		if r != Sat {
			break
		}
		cur = mm
		if allTrue(all, cur) {
			return cur, ""
		}
	}
	// scalars whose points have coordinates of unusual shape
	for _, pins := range specialPins(apps, false) {
		env := cur
		for round := 0; round < 3; round++ {
			r, mm := in.sol.Check(pc, append(append([]*Term{}, facts...), pins...), h.queryMs, true)
			if r != Sat {
				break
			}
			env = mm
			if allTrue(all, env) {
				return env, ""
			}
			addFacts(env)
		}
	}
	// fix the arguments of the functions, innermost first
	for attempt := 0; attempt < 6; attempt++ {
		pins := append([]*Term{}, facts...)
		env := map[string]*Term(cur)
		okAll := true
		memo := map[int]*Term{}
		for _, a := range apps {
			// arguments under the real functions where already fixed
			var eqs []*Term
			for _, x := range a.args {
				eqs = append(eqs, Eq(x, Eval(x, env, memo)))
			}
			v := Eval(a, env, memo)
			try := append(append([]*Term{}, pins...), And(eqs...))
			if a.w == 0 {
				try = append(try, boolIs(a, v == tTrue))
			} else {
				try = append(try, Eq(a, v))
			}
			r, mm := in.sol.Check(pc, try, h.queryMs, true)
			if r != Sat {
				okAll = false
				break
			}
			pins = try
			env = mm
			memo = map[int]*Term{}
			if allTrue(all, env) {
				return env, ""
			}
		}
		if okAll && allTrue(all, env) {
			return env, ""
		}
		// exclude this choice of the first differing argument and start again from another model
		memo = map[int]*Term{}
		var block []*Term
		for _, a := range apps {
			for _, x := range a.args {
				if !x.hasUF {
					block = append(block, Not(Eq(x, Eval(x, map[string]*Term(cur), memo))))
				}
			}
		}
		if len(block) == 0 {
			break
		}
		addFacts(env)
		// random restart: perturb by fixing low bits of the inputs
		facts2 := append(append([]*Term{}, facts...), Or(block...))
		seed := attempt*7919 + 13
		for n, w := range h.inputs {
			if w >= 64 {
				seed = seed*1103515245 + 12345
				facts2 = append(facts2, Eq(Extract(Var(n, w), 15, 0), BV(16, uint64(seed>>8)&0xffff)))
			}
		}
		r, mm := in.sol.Check(pc, facts2, h.queryMs, true)
		if r != Sat {
			r, mm = in.sol.Check(pc, append(append([]*Term{}, facts...), Or(block...)), h.queryMs, true)
		}
		if r != Sat {
			break
		}
		cur = mm
		if allTrue(all, cur) {
			return cur, ""
		}
	}
	if env := h.search(all, apps, []map[string]*Term{m, cur}); env != nil {
		return env, ""
	}
	return nil, "the real functions never gave the required values"
}

// search looks for inputs near a model that satisfy everything under the real functions: those the
// functions are applied to are drawn at random, the others stay. It only serves to find an input to replay.
func (h *Harness) search(all, apps []*Term, bases []map[string]*Term) map[string]*Term {
	seen := map[int]bool{}
	var vars []*Term
	for _, a := range apps {
		for _, x := range a.args {
			collectVars(x, seen, &vars)
		}
	}
	var names []*Term
	for _, v := range vars {
		if v.w >= 64 {
			names = append(names, v)
		}
	}
	if len(names) == 0 || h.searched >= 3 {
		return nil
	}
	h.searched++
	end := time.Now().Add(6 * time.Second)
	rnd := rand.New(rand.NewSource(1))
	for n := 0; n < 20000 && time.Now().Before(end); n++ {
		base := bases[n%len(bases)]
		env := map[string]*Term{}
		for k, v := range base {
			env[k] = v
		}
		for _, v := range names {
			if len(names) > 1 && rnd.Intn(3) == 0 {
				continue
			}
			x := new(big.Int).Rand(rnd, new(big.Int).Lsh(big.NewInt(1), uint(v.w-rnd.Intn(2))))
			if rnd.Intn(8) == 0 {
				x.SetInt64(int64(rnd.Intn(1 << 16)))
			}
			env[v.name] = BVBig(v.w, x)
		}
		if allTrue(all, env) {
			return env
		}
	}
	return nil
}

func boolIs(t *Term, v bool) *Term {
	if v {
		return t
	}
	return Not(t)
}

// specialPins offers constraints that tie a scalar to one of a few whose points have a leading zero byte
// in a coordinate, together with the facts about them.
func specialPins(apps []*Term, all bool) [][]*Term {
	var out [][]*Term
	seen := map[int]bool{}
	for _, a := range apps {
		if (a.name != "smulx" && a.name != "smuly") || seen[a.args[0].id] || (a.args[0].hasUF && !all) {
			continue
		}
		seen[a.args[0].id] = true
		for _, ks := range specialScalars() {
			var or, facts []*Term
			for _, k := range ks {
				kt := BVBig(256, k)
				c := Eq(a.args[0], kt)
				or = append(or, c)
				facts = append(facts, Implies(c, Eq(UF(ufSmulX, a.args[0]), ufReal(ufSmulX, []*Term{kt}))),
					Implies(c, Eq(UF(ufSmulY, a.args[0]), ufReal(ufSmulY, []*Term{kt}))))
			}
			out = append(out, append([]*Term{Or(or...)}, facts...))
		}
		if len(out) >= 12 {
			break
		}
	}
	return out
}

var specials [][]*big.Int

func specialScalars() [][]*big.Int {
	if specials == nil {
		specials = make([][]*big.Int, 2)
		for k := int64(1); k < 4000 && (len(specials[0]) < 5 || len(specials[1]) < 5); k++ {
			x, y := realMul(big.NewInt(k))
			if x.BitLen() <= 248 && len(specials[0]) < 5 {
				specials[0] = append(specials[0], big.NewInt(k))
			}
			if y.BitLen() <= 248 && len(specials[1]) < 5 {
				specials[1] = append(specials[1], big.NewInt(k))
			}
		}
	}
	return specials
}

// stubs lists the hash answers a model relies on.
func (h *Harness) stubs(pc *PC, extra []*Term, m Model) []StubEnt {
	first, good := h.stubsWith(pc, extra, m, nil)
	if good || first == nil {
		return first
	}
	var apps []*Term
	seen := map[int]bool{}
	for _, t := range append(pc.list(), extra...) {
		collectUF(t, seen, &apps)
	}
	for _, pins := range specialPins(apps, true) {
		if out, good := h.stubsWith(pc, extra, m, pins); good {
			return out
		}
	}
	return first
}

func (h *Harness) stubsWith(pc *PC, extra []*Term, m Model, pins []*Term) ([]StubEnt, bool) {
	all := append(pc.list(), extra...)
	var apps []*Term
	seen := map[int]bool{}
	for _, t := range all {
		collectUF(t, seen, &apps)
	}
	// ask the solver for the value of every hash application
	var hs []*Term
	for _, a := range apps {
		if strings.HasPrefix(a.name, "hmac_") {
			hs = append(hs, a)
		}
	}
	if len(hs) == 0 || len(hs) > 6 {
		return nil, false
	}
	// the curve must be real: keep hash values as given by the model and refine everything else
	probe := make([]*Term, len(hs))
	ex := append(append([]*Term{}, extra...), pins...)
	for i, a := range hs {
		probe[i] = Var(fmt.Sprintf("probe!%d", a.id), a.w)
		ex = append(ex, Eq(probe[i], a))
	}
	r, mm := h.in.sol.Check(pc, ex, h.queryMs, true)
	if r != Sat {
		return nil, false
	}
	env := map[string]*Term(mm)
	forced := map[int]*Term{}
	for i, a := range hs {
		forced[a.id] = mm[probe[i].name]
	}
	// evaluate with forced hash values; the curve is real
	evalF := func(t *Term) *Term {
		memo := map[int]*Term{}
		for id, v := range forced {
			memo[id] = v
		}
		return Eval(t, env, memo)
	}
	good := false
	for round := 0; round < 4; round++ {
		ok := true
		for _, t := range all {
			if evalF(t) != tTrue {
				ok = false
				break
			}
		}
		if ok {
			good = true
			break
		}
		// pin everything computed by hash applications and the inputs to them, learn curve facts
		var facts []*Term
		for _, a := range apps {
			if strings.HasPrefix(a.name, "hmac_") {
				continue
			}
			var eqs []*Term
			for _, x := range a.args {
				eqs = append(eqs, Eq(x, evalF(x)))
			}
			v := evalF(a)
			if a.w == 0 {
				facts = append(facts, Implies(And(eqs...), boolIs(a, v == tTrue)))
			} else {
				facts = append(facts, Implies(And(eqs...), Eq(a, v)))
			}
			// steer the next model to the same arguments
			if !strings.HasPrefix(a.name, "sha") {
				facts = append(facts, And(eqs...))
			}
		}
		r, mm = h.in.sol.Check(pc, append(append([]*Term{}, ex...), facts...), h.queryMs, true)
		if r != Sat {
			break
		}
		env = mm
		for i, a := range hs {
			forced[a.id] = mm[probe[i].name]
		}
	}
	if good || pins == nil {
		for k, v := range env {
			m[k] = v
		}
	}
	var out []StubEnt
	for _, a := range hs {
		d := ufDecls[a.name]
		if d.inputs == nil {
			return nil, false
		}
		var vals []*big.Int
		for _, x := range a.args {
			vals = append(vals, evalF(x).big())
		}
		e := StubEnt{Kind: d.kind, Out: hex.EncodeToString(forced[a.id].big().FillBytes(make([]byte, a.w/8)))}
		for _, b := range d.inputs(vals) {
			e.Args = append(e.Args, hex.EncodeToString(b))
		}
		out = append(out, e)
	}
	return out, good
}

type nativeOut struct {
	lines []string
	fails map[string]bool
	panic string
	obs   []string
	reach map[string]bool
	ended bool
	stop  bool
}

func (h *Harness) runNative(c ReplayCase) *nativeOut {
	return runNative(h.native, h.scratch, c)
}

func runNative(bin, scratch string, c ReplayCase) *nativeOut {
	o := &nativeOut{fails: map[string]bool{}, reach: map[string]bool{}}
	if bin == "" {
		return o
	}
	if len(c.Stub) > 0 {
		bin += "-stub"
	}
	limit := 60 * time.Second
	if c.Race {
		var err error
		if bin, err = buildRace(bin); err != nil {
			o.lines = append(o.lines, "NOTE "+err.Error())
			return o
		}
		limit = 120 * time.Second
	}
	b, _ := json.Marshal(c)
	f, err := os.CreateTemp(scratch, "case*.json")
	if err != nil {
		return o
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_INPUT="+f.Name(), "VERIF_HARNESS="+c.Harness)
	if c.Race {
		cmd.Env = append(cmd.Env, "VERIF_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	var buf, eb bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &eb
	err = cmd.Run()
	for _, l := range strings.Split(buf.String(), "\n") {
		if !strings.HasPrefix(l, "@@") {
			continue
		}
		l = l[2:]
		o.lines = append(o.lines, l)
		switch {
		case strings.HasPrefix(l, "FAIL "):
			o.fails[l[5:]] = true
		case strings.HasPrefix(l, "PANIC "):
			o.panic = l[6:]
		case strings.HasPrefix(l, "OBS "):
			o.obs = append(o.obs, l[4:])
		case strings.HasPrefix(l, "REACH "):
			o.reach[l[6:]] = true
		case l == "END":
			o.ended = true
		case l == "ASSUME":
			o.stop = true
		}
	}
	if e := eb.String(); c.Race && (strings.Contains(e, "WARNING: DATA RACE") || strings.Contains(e, "fatal error: concurrent map")) {
		o.fails[c.Label] = true
		o.ended = true
		o.lines = append(o.lines, "FAIL "+c.Label)
		o.lines = append(o.lines, strings.Split(tail(e, 3000), "\n")...)
	}
	if !o.ended && !o.stop && o.panic == "" {
		e := eb.String()
		if ctx.Err() != nil {
			o.panic = "did not finish within 60 s"
		} else if i := strings.Index(e, "panic:"); i >= 0 || strings.Contains(e, "fatal error:") {
			o.panic = strings.SplitN(e[max(i, 0):], "\n", 2)[0]
		} else if err != nil {
			o.panic = "exit: " + err.Error()
		}
		if o.panic != "" {
			o.lines = append(o.lines, "PANIC "+o.panic)
		}
	}
	return o
}

func (h *Harness) replay(v *Violation) (bool, []string) {
	o := h.runNative(ReplayCase{Property: h.prop, Harness: h.name, Label: v.Label, Thorough: h.thorough, Input: v.Input, Stub: v.Stub, Race: h.races[v.Label]})
	if strings.HasPrefix(v.Label, "panic") {
		return o.panic != "", o.lines
	}
	if o.fails[v.Label] {
		return true, o.lines
	}
	// a different failure of the same run is a violation too
	for l := range o.fails {
		v.Label = l
		return true, o.lines
	}
	if o.panic != "" {
		v.Label = "panic: " + o.panic
		return true, o.lines
	}
	return false, o.lines
}

// canonical text of an observed value
func (h *Harness) canon(v Value, env map[string]*Term, memo map[int]*Term) (string, bool) {
	iv, ok := v.(IfaceV)
	if !ok {
		return "", false
	}
	if iv.typ == nil {
		return "nil", true
	}
	if h.opaque(iv.val) {
		return "", false
	}
	switch x := iv.val.(type) {
	case *Term:
		c := Eval(x, env, memo)
		if c.w == 0 {
			return fmt.Sprint(c == tTrue), true
		}
		if _, sg, _ := intWidth(iv.typ); sg {
			return signedBig(c).String(), true
		}
		return c.big().String(), true
	case *Str:
		b, ok := evalStr(x, env, memo)
		if !ok {
			return "", false
		}
		return "x" + hex.EncodeToString(b), true
	}
	return "", false
}

func (h *Harness) opaque(v Value) bool {
	var vars []*Term
	seen := map[int]bool{}
	switch x := v.(type) {
	case *Term:
		collectVars(x, seen, &vars)
	case *Str:
		for i := range x.parts {
			p := &x.parts[i]
			for _, b := range p.bs {
				collectVars(b, seen, &vars)
			}
			if p.idx != nil {
				collectVars(p.idx, seen, &vars)
			}
			for _, a := range p.args {
				collectVars(a, seen, &vars)
			}
		}
	}
	for _, v := range vars {
		for _, p := range []string{"rand!", "clock!", "fmtlen!"} {
			if strings.HasPrefix(v.name, p) {
				return true
			}
		}
	}
	return false
}

func evalStr(s *Str, env map[string]*Term, memo map[int]*Term) ([]byte, bool) {
	var out []byte
	for i := range s.parts {
		p := &s.parts[i]
		switch p.kind {
		case spLit:
			out = append(out, p.lit...)
		case spBytes:
			for _, b := range p.bs {
				out = append(out, byte(Eval(b, env, memo).c))
			}
		case spAtom:
			k := int(Eval(p.idx, env, memo).c)
			if k >= len(p.tbl.ents) {
				return nil, false
			}
			out = append(out, p.tbl.ents[k]...)
		case spOpq:
			if strings.HasPrefix(p.opq, "b58/") {
				t := Eval(p.args[0], env, memo)
				out = append(out, b58Encode(t.big().FillBytes(make([]byte, t.w/8)))...)
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
	return out, true
}

// validate compares engine and native execution on concrete inputs of a finished path.
func (h *Harness) validate(st *State) {
	env, _ := h.realize(st.pc, nil, nil)
	if env == nil {
		return
	}
	memo := map[int]*Term{}
	var want []string
	for o := st.obs; o != nil; o = o.parent {
		c, ok := h.canon(o.val, env, memo)
		if !ok {
			c = "?"
		}
		want = append([]string{o.label + " " + c}, want...)
	}
	inp := h.inputsOf(env)
	o := h.runNative(ReplayCase{Property: h.prop, Harness: h.name, Thorough: h.thorough, Input: inp})
	if h.native == "" {
		return
	}
	bad := ""
	if !o.ended {
		bad = fmt.Sprintf("native run did not finish: %v", o.lines)
	} else if len(o.obs) != len(want) {
		bad = fmt.Sprintf("observations differ in number: engine %v native %v", want, o.obs)
	} else {
		for i := range want {
			if strings.HasSuffix(want[i], " ?") {
				continue
			}
			if want[i] != o.obs[i] {
				bad = fmt.Sprintf("observation differs: engine %s native %s", want[i], o.obs[i])
				break
			}
		}
	}
	for l := range o.fails {
		// the compiled code fails an assertion on this input
		v := &Violation{Harness: h.name, Label: l, Input: inp, Native: o.lines, Detail: "found while validating a path against the compiled code"}
		if !h.done[l] {
			h.confirm(v)
		}
	}
	if bad == "" {
		h.res.Validated++
		if len(h.res.Samples) < 3 {
			h.res.Samples = append(h.res.Samples, map[string]interface{}{"harness": h.name, "input": inp, "observed": want})
		}
		for l := range o.reach {
			found := false
			for _, r := range h.res.Reached {
				if r == l {
					found = true
				}
			}
			if !found {
				h.res.Reached = append(h.res.Reached, l)
			}
		}
	} else if len(o.fails) == 0 {
		b, _ := json.Marshal(inp)
		h.res.Mismatch = append(h.res.Mismatch, bad+" input "+string(b))
	}
}

// witness shows that a point of the harness is reached by a concrete run.
func (h *Harness) witness(l string) {
	for _, r := range h.res.Reached {
		if r == l {
			return
		}
	}
	for i, pc := range h.reach[l] {
		if i >= 3 {
			break
		}
		env, _ := h.realize(pc, nil, nil)
		if env == nil {
			continue
		}
		o := h.runNative(ReplayCase{Property: h.prop, Harness: h.name, Thorough: h.thorough, Input: h.inputsOf(env)})
		if o.reach[l] {
			h.res.Reached = append(h.res.Reached, l)
			return
		}
	}
	h.res.Unreached = append(h.res.Unreached, l)
}

func (h *Harness) run(fn *ssa.Function, budget time.Duration) {
	in := h.in
	t0 := time.Now()
	// initialise packages before the clock starts
	in.ensureInit(fn.Pkg)
	in.deadline = time.Now().Add(budget)
	h.res.Status = "complete"
	var outs []Outcome
	st := &State{heap: (&Layer{m: map[int]Value{}, parent: baseLayer, depth: 1})}
	baseLayer.frozen = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case timeUp:
					h.res.Status = "time limit"
				case unsupported:
					outs = []Outcome{{st: st, kind: oUnsup, msg: e.msg}}
				default:
					panic(r)
				}
			}
		}()
		outs = in.callFn(st, fn, nil, nil)
	}()
	if mergeDebug {
		for k, v := range mergeWhy {
			fmt.Fprintln(os.Stderr, "merge", v, k)
		}
	}
	in.deadline = time.Time{}
	h.res.Undecided = map[string]int{}
	var good []*State
	for _, o := range outs {
		switch o.kind {
		case oRet:
			h.res.Returned++
			good = append(good, o.st)
		case oPanic:
			label := "panic: " + o.pv.msg
			s := h.stat(label)
			r, m := in.sol.Check(o.st.pc, nil, h.queryMs, true)
			switch r {
			case Sat:
				s.Refuted++
				h.candidate(o.st, label, nil, m)
			case Unknown:
				s.Unknown++
			}
		case oUnsup:
			r, _ := in.sol.Check(o.st.pc, nil, h.queryMs, false)
			if r != Unsat {
				h.res.Undecided[o.msg]++
			}
		}
	}
	if len(h.res.Undecided) > 0 && h.res.Status == "complete" {
		h.res.Status = "partial"
	}
	// translation validation on a spread of finished paths
	in.deadline = time.Time{}
	step := max(1, len(good)/4)
	for i := 0; i < len(good); i += step {
		h.validate(good[i])
	}
	for _, l := range h.reachOrder {
		h.witness(l)
	}
	sort.Strings(h.res.Reached)
	for _, l := range h.order {
		h.res.Asserts = append(h.res.Asserts, h.asserts[l])
	}
	h.res.Functions = in.executed
	h.res.Models = in.models
	h.res.Inputs = h.inputs
	h.res.Blocks = in.states
	h.res.Steps = in.steps
	h.res.Forks = in.forks
	h.res.Merges = in.merges
	h.res.Queries = in.sol.Queries
	h.res.QSat, h.res.QUnsat, h.res.QUnknown = in.sol.NSat, in.sol.NUnsat, in.sol.NUnknown
	h.res.SolverS = in.sol.Time.Seconds()
	h.res.MaxQueryS = in.sol.MaxTime.Seconds()
	h.res.WallS = time.Since(t0).Seconds()
	if h.cross != nil {
		h.res.Cross = fmt.Sprintf("%d queries repeated with a second solver, %d disagreements", h.crossN, h.crossBad)
	}
}

// buildRace builds the native program once more, with the race detector.
func buildRace(bin string) (string, error) {
	out := bin + "-race"
	if _, err := os.Stat(out); err == nil {
		return out, nil
	}
	tmp := fmt.Sprintf("%s.%d", out, os.Getpid())
	cmd := exec.Command(filepath.Join(goBin, "go"), "build", "-race", "-overlay", bin+"-overlay.json", "-o", tmp, "./zzverif")
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building with the race detector: %v: %s", err, b)
	}
	return out, os.Rename(tmp, out)
}

// ownerOf names the package-level variable that leads to an object.
func (in *Interp) ownerOf(id int) string {
	for g, p := range in.globals {
		if p == id {
			return g.String()
		}
	}
	return "package-level variables"
}
