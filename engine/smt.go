package main

// SMT back end: one z3 process kept alive; the path condition is mirrored on its assertion stack.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// PC is a persistent list of path-condition conjuncts.
type PC struct {
	parent *PC
	t      *Term
	depth  int
}

func (p *PC) push(t *Term) *PC {
	if t == tTrue {
		return p
	}
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PC{parent: p, t: t, depth: d}
}

func (p *PC) list() []*Term {
	var r []*Term
	for q := p; q != nil; q = q.parent {
		r = append(r, q.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func depthOf(p *PC) int {
	if p == nil {
		return 0
	}
	return p.depth
}

func commonPC(a, b *PC) *PC {
	for depthOf(a) > depthOf(b) {
		a = a.parent
	}
	for depthOf(b) > depthOf(a) {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

func restPC(p, anc *PC) []*Term {
	var r []*Term
	for q := p; q != anc; q = q.parent {
		r = append(r, q.t)
	}
	return r
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type level struct {
	node    *PC
	defs    []int
	axioms  []int
	extraPC bool
}

// Model maps variable names to constants.
type Model map[string]*Term

type Solver struct {
	bin      []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	axDone   map[int]bool
	levels   []level
	log      io.Writer
	Queries  int
	NSat     int
	NUnsat   int
	NUnknown int
	Time     time.Duration
	MaxTime  time.Duration
	deadline time.Time
}

func newSolver(bin ...string) *Solver {
	s := &Solver{bin: bin}
	if f := os.Getenv("SYMGO_SMTLOG"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			s.log = w
		}
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.axDone = map[int]bool{}
	s.levels = []level{{}}
	if strings.Contains(s.bin[0], "cvc5") {
		s.send("(set-logic ALL)\n")
	} else {
		s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
	}
}

func (s *Solver) kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t == tTrue {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		h := t.big().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(h)) + h
	}
	h := t.big().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(h)) + h
}

func symName(n string) string { return "|" + n + "|" }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		return symName(t.name)
	}
	return "t" + strconv.Itoa(t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}



// define emits definitions for t and everything below it at the current level.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !s.defined[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x.id] {
			continue
		}
		s.emit(x)
	}
}

func (s *Solver) mark(id int) {
	s.defined[id] = true
	l := &s.levels[len(s.levels)-1]
	l.defs = append(l.defs, id)
}

func (s *Solver) emit(x *Term) {
	switch x.op {
	case OVar:
		s.send(fmt.Sprintf("(declare-const %s %s)\n", symName(x.name), sortOf(x.w)))
		s.mark(x.id)
		return
	case OUF:
		d := ufDecls[x.name]
		key := -1 - d.num()
		if !s.defined[key] {
			var sb strings.Builder
			for _, w := range d.argw {
				sb.WriteString(sortOf(w) + " ")
			}
			s.send(fmt.Sprintf("(declare-fun %s (%s) %s)\n", symName(x.name), sb.String(), sortOf(x.w)))
			s.mark(key)
		}
		if len(x.args) == 0 {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortOf(x.w), symName(x.name)))
			s.mark(x.id)
			return
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(define-fun t%d () %s ", x.id, sortOf(x.w))
	switch x.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", x.hi, x.lo, s.ref(x.args[0]))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", x.w-x.args[0].w, s.ref(x.args[0]))
	case OTable:
		s.tableSMT(&sb, x.args[0], x.tbl.ents)
	case OUF:
		sb.WriteString("(" + symName(x.name))
		for _, a := range x.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		sb.WriteByte(')')
	default:
		n, ok := opNames[x.op]
		if !ok {
			panic("emit op")
		}
		sb.WriteString("(" + n)
		for _, a := range x.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
	s.send(sb.String())
	s.mark(x.id)
}

func (s *Solver) tableSMT(sb *strings.Builder, idx *Term, ents []*Term) {
	// pad to a power of two by the last entry
	n := 1 << uint(idx.w)
	r := s.ref(idx)
	var rec func(lo, bit int)
	at := func(i int) *Term { return ents[min(i, len(ents)-1)] }
	rec = func(lo, bit int) {
		if bit < 0 {
			sb.WriteString(constSMT(at(lo)))
			return
		}
		size := 1 << uint(bit+1)
		same := true
		f := at(lo)
		for i := lo + 1; i < lo+size && i <= len(ents); i++ {
			if at(i) != f {
				same = false
				break
			}
		}
		if same {
			sb.WriteString(constSMT(f))
			return
		}
		// equal halves
		half := size / 2
		eq := true
		for i := 0; i < half; i++ {
			if at(lo+i) != at(lo+half+i) {
				eq = false
				break
			}
		}
		if eq {
			rec(lo, bit-1)
			return
		}
		fmt.Fprintf(sb, "(ite (= ((_ extract %d %d) %s) #b1) ", bit, bit, r)
		rec(lo+half, bit-1)
		sb.WriteByte(' ')
		rec(lo, bit-1)
		sb.WriteByte(')')
	}
	_ = n
	rec(0, idx.w-1)
}

// collectUF lists the UF applications under t.
func collectUF(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.id] || t.op == OConst || !t.hasUF {
		return
	}
	seen[t.id] = true
	for _, a := range t.args {
		collectUF(a, seen, out)
	}
	if t.op == OUF {
		*out = append(*out, t)
	}
}

func (s *Solver) assertTerm(t *Term) {
	s.define(t)
	if t.hasUF {
		s.axioms(t, 0)
	}
	s.send("(assert " + s.ref(t) + ")\n")
}

// axioms states the contracts of every UF application under t not stated yet on this stack.
func (s *Solver) axioms(t *Term, depth int) {
	if depth > 3 {
		return
	}
	var apps []*Term
	collectUF(t, map[int]bool{}, &apps)
	for _, a := range apps {
		if s.axDone[a.id] {
			continue
		}
		s.axDone[a.id] = true
		l := &s.levels[len(s.levels)-1]
		l.axioms = append(l.axioms, a.id)
		d := ufDecls[a.name]
		if d.axiom == nil {
			continue
		}
		for _, ax := range d.axiom(a) {
			if ax == tTrue {
				continue
			}
			s.define(ax)
			s.send("(assert " + s.ref(ax) + ")\n")
			if ax.hasUF {
				s.axioms(ax, depth+1)
			}
		}
	}
}

func (s *Solver) pushLevel(n *PC) {
	s.send("(push 1)\n")
	s.levels = append(s.levels, level{node: n})
}

func (s *Solver) popLevels(n int) {
	if n <= 0 {
		return
	}
	for i := 0; i < n; i++ {
		l := s.levels[len(s.levels)-1]
		for _, d := range l.defs {
			delete(s.defined, d)
		}
		for _, d := range l.axioms {
			delete(s.axDone, d)
		}
		s.levels = s.levels[:len(s.levels)-1]
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
}

func (s *Solver) sync(pc *PC) {
	var chain []*PC
	for q := pc; q != nil; q = q.parent {
		chain = append(chain, q)
	}
	n := len(chain)
	k := 0 // matching levels
	for k < n && k+1 < len(s.levels) && s.levels[k+1].node == chain[n-1-k] {
		k++
	}
	s.popLevels(len(s.levels) - 1 - k)
	for i := k; i < n; i++ {
		p := chain[n-1-i]
		s.pushLevel(p)
		s.assertTerm(p.t)
	}
}

// Check decides pc and extra. A model is returned when want is true and the answer is sat.
func (s *Solver) Check(pc *PC, extra []*Term, timeoutMs int, want bool) (Res, Model) {
	for _, e := range extra {
		if e == tFalse {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	s.sync(pc)
	s.pushLevel(nil)
	for _, e := range extra {
		s.assertTerm(e)
	}
	if strings.Contains(s.bin[0], "cvc5") {
		// per-query limit is given on the command line
	} else {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs))
	}
	s.send("(check-sat)\n(echo \"<done>\")\n")
	s.in.Flush()
	s.Queries++
	res := Unknown
	gotErr := false
	killer := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond*2+10*time.Second, func() { s.cmd.Process.Kill() })
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			killer.Stop()
			s.cmd.Wait()
			s.start()
			s.NUnknown++
			s.Time += time.Since(t0)
			return Unknown, nil
		}
		line = strings.Trim(strings.TrimSpace(line), "\"")
		if s.log != nil {
			fmt.Fprintf(s.log, "; %s (%v)\n", line, time.Since(t0))
		}
		switch line {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		case "unknown", "timeout":
			res = Unknown
		}
		if strings.HasPrefix(line, "(error") {
			gotErr = true
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", line)
			}
		}
		if line == "<done>" {
			break
		}
	}
	killer.Stop()
	if gotErr {
		res = Unknown
	}
	var m Model
	if res == Sat && want {
		m = s.model(pc, extra)
		if m == nil {
			res = Unknown
		}
	}
	s.popLevels(1)
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	switch res {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnknown++
	}
	return res, m
}

func collectVars(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.id] || t.op == OConst {
		return
	}
	seen[t.id] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	for _, a := range t.args {
		collectVars(a, seen, out)
	}
}

func (s *Solver) model(pc *PC, extra []*Term) Model {
	var vars []*Term
	seen := map[int]bool{}
	for q := pc; q != nil; q = q.parent {
		collectVars(q.t, seen, &vars)
	}
	for _, e := range extra {
		collectVars(e, seen, &vars)
	}
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(symName(v.name))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n(echo \"<done>\")\n")
	s.send(sb.String())
	s.in.Flush()
	var all strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return nil
		}
		if strings.Trim(strings.TrimSpace(line), "\"") == "<done>" {
			break
		}
		all.WriteString(line)
	}
	txt := all.String()
	if strings.Contains(txt, "(error") {
		return nil
	}
	for _, v := range vars {
		k := symName(v.name)
		i := strings.Index(txt, k+" ")
		if i < 0 {
			i = strings.Index(txt, k+"\n")
		}
		if i < 0 {
			// z3 drops bars for simple names
			i = strings.Index(txt, "("+v.name+" ")
			if i < 0 {
				return nil
			}
			i += 1 + len(v.name)
		} else {
			i += len(k)
		}
		rest := strings.TrimLeft(txt[i:], " \n\t")
		j := strings.IndexAny(rest, ")")
		if j < 0 {
			return nil
		}
		c := parseConst(strings.TrimSpace(rest[:j]), v.w)
		if c == nil {
			return nil
		}
		m[v.name] = c
	}
	return m
}

func parseConst(x string, w int) *Term {
	switch {
	case x == "true":
		return tTrue
	case x == "false":
		return tFalse
	case strings.HasPrefix(x, "#x"):
		v, ok := new(big.Int).SetString(x[2:], 16)
		if !ok {
			return nil
		}
		return BVBig(w, v)
	case strings.HasPrefix(x, "#b"):
		v, ok := new(big.Int).SetString(x[2:], 2)
		if !ok {
			return nil
		}
		return BVBig(w, v)
	}
	return nil
}
