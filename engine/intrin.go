package main

// Intrinsic dispatch, builtins, append/copy semantics and small runtime models.

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const harnessPkg = "github.com/mearaj/bips/zzverif"

type intrinEnt struct {
	f    intrin
	name string
}

var intrinCache = map[*ssa.Function]*intrinEnt{}

func lookupIntrin(fn *ssa.Function) *intrinEnt {
	if e, ok := intrinCache[fn]; ok {
		return e
	}
	name := fn.String()
	var e *intrinEnt
	if f, ok := intrinsics[name]; ok {
		e = &intrinEnt{f, name}
	} else {
		for _, p := range intrinPrefixes {
			if strings.HasPrefix(name, p.prefix) {
				e = &intrinEnt{p.f, name}
				break
			}
		}
	}
	intrinCache[fn] = e
	return e
}

type intrinPrefix struct {
	prefix string
	f      intrin
}

var intrinPrefixes []intrinPrefix

func (in *Interp) intrinsic(st *State, fn *ssa.Function, args []Value) (outs []Outcome, ok bool) {
	e := lookupIntrin(fn)
	if e == nil {
		return nil, false
	}
	defer func() {
		if r := recover(); r != nil {
			if g, isG := r.(goPanic); isG {
				outs, ok = []Outcome{rtPanic(st, g.msg)}, true
				return
			}
			panic(r)
		}
	}()
	outs, ok = e.f(in, st, fn, args)
	if ok && !in.concrete {
		in.models[e.name]++
	}
	return outs, ok
}

func (in *Interp) nativeMethod(st *State, n *Native, name string, args []Value) []Outcome {
	unsup("method %s of native %s", name, n.kind)
	return nil
}

func nativeImplements(n *Native, it *types.Interface) bool { return false }

// ---- append ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(newLen, oldCap, elemSize int) int {
	nc := oldCap
	switch {
	case newLen > 2*oldCap:
		nc = newLen
	case oldCap < 256:
		nc = 2 * oldCap
	default:
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if elemSize <= 0 {
		return nc
	}
	return roundUpSize(nc*elemSize) / elemSize
}

var stdSizes = types.SizesFor("gc", "amd64")

func elemZero(t types.Type) (Value, int) {
	if t == nil {
		return BV(8, 0), 1
	}
	return zero(t), int(stdSizes.Sizeof(t))
}

func (in *Interp) appendVals(st *State, s SliceV, vs []Value, elemSize int) []Outcome {
	return in.appendT(st, s, vs, elemSize, BV(8, 0))
}

func (in *Interp) appendT(st *State, s SliceV, vs []Value, elemSize int, z Value) []Outcome {
	if s.rope != nil {
		bs := make([]*Term, len(vs))
		for i := range vs {
			bs[i] = vs[i].(*Term)
		}
		return ret(st, SliceV{rope: concatStr(s.rope, bytesStr(bs))})
	}
	if len(vs) == 0 {
		return ret(st, s)
	}
	if s.len+len(vs) <= s.cap {
		n := s
		n.len = s.len + len(vs)
		in.setElems(st, n, s.len, vs)
		return ret(st, n)
	}
	c := growCap(s.len+len(vs), s.cap, elemSize)
	a := &Agg{elems: make([]Value, c)}
	if s.len > 0 {
		copy(a.elems, in.sliceElems(st, s))
	}
	copy(a.elems[s.len:], vs)
	for i := s.len + len(vs); i < c; i++ {
		a.elems[i] = z
	}
	id := st.alloc(a)
	a.owner = st.top()
	return ret(st, SliceV{obj: id, len: s.len + len(vs), cap: c})
}

func (in *Interp) builtin(st *State, b *ssa.Builtin, a []Value, c *ssa.CallCommon) []Outcome {
	switch b.Name() {
	case "append":
		s := a[0].(SliceV)
		var et types.Type
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		if len(a) == 1 {
			return ret(st, s)
		}
		z, sz := elemZero(et)
		switch y := a[1].(type) {
		case *Str:
			if l, ok := y.concLen(); ok {
				if l == 0 {
					return ret(st, s)
				}
				bs := y.bytes()
				if bs != nil {
					return in.appendT(st, s, termVals(bs), sz, z)
				}
			}
			if s.rope == nil && s.cap > s.len {
				unsup("append of unbounded text into spare capacity")
			}
			return ret(st, SliceV{rope: concatStr(in.sliceStr(st, s), y)})
		case SliceV:
			if y.rope != nil {
				if s.rope == nil && s.cap > s.len {
					unsup("append of unbounded text into spare capacity")
				}
				return ret(st, SliceV{rope: concatStr(in.sliceStr(st, s), y.rope)})
			}
			return in.appendT(st, s, append([]Value{}, in.sliceElems(st, y)...), sz, z)
		}
		unsup("append %T", a[1])
	case "copy":
		d := a[0].(SliceV)
		var src []Value
		switch y := a[1].(type) {
		case *Str:
			bs := y.bytes()
			if bs == nil {
				unsup("copy from opaque text")
			}
			src = termVals(bs)
		case SliceV:
			src = append([]Value{}, in.sliceElems(st, y)...)
		default:
			unsup("copy %T", a[1])
		}
		if d.rope != nil {
			unsup("copy into rope")
		}
		n := min(d.len, len(src))
		in.setElems(st, d, 0, src[:n])
		return ret(st, BV(64, uint64(n)))
	case "len":
		switch x := a[0].(type) {
		case *Str:
			return ret(st, x.lenTerm())
		case SliceV:
			if x.rope != nil {
				return ret(st, x.rope.lenTerm())
			}
			return ret(st, BV(64, uint64(x.len)))
		case MapV:
			if x.obj == 0 {
				return ret(st, BV(64, 0))
			}
			return ret(st, BV(64, uint64(len(st.get(x.obj).(*MapObj).keys))))
		case *Agg:
			return ret(st, BV(64, uint64(len(x.elems))))
		case Ptr:
			return ret(st, BV(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		}
	case "cap":
		switch x := a[0].(type) {
		case SliceV:
			if x.rope != nil {
				return ret(st, x.rope.lenTerm())
			}
			return ret(st, BV(64, uint64(x.cap)))
		case *Agg:
			return ret(st, BV(64, uint64(len(x.elems))))
		case Ptr:
			return ret(st, BV(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		}
	case "print", "println":
		return ret(st, Tuple{})
	case "recover":
		// called by a deferred function: the innermost panic being handled
		n := len(st.panic)
		if n == 0 || st.panic[n-1].recovered {
			return ret(st, IfaceV{})
		}
		ns := st.fork()
		pv := *ns.panic[n-1]
		pv.recovered = true
		ns.panic[n-1] = &pv
		v := pv.val
		if v.typ == nil {
			v = IfaceV{canonType(types.Typ[types.String]), litStr("panic called with nil argument")}
		}
		return ret(ns, v)
	case "delete":
		m := a[0].(MapV)
		if m.obj == 0 {
			return ret(st, Tuple{})
		}
		o := st.get(m.obj).(*MapObj)
		ck, ok := ckey(a[1])
		if !ok || o.nsym > 0 {
			unsup("delete with a symbolic key")
		}
		i, ok := o.index[ck]
		if !ok {
			return ret(st, Tuple{})
		}
		n := &MapObj{index: map[string]int{}, owner: st.top()}
		for j := range o.keys {
			if j == i {
				continue
			}
			k, _ := ckey(o.keys[j])
			n.index[k] = len(n.keys)
			n.keys = append(n.keys, o.keys[j])
			n.vals = append(n.vals, o.vals[j])
		}
		st.put(m.obj, n)
		return ret(st, Tuple{})
	case "clear":
		switch x := a[0].(type) {
		case MapV:
			if x.obj != 0 {
				st.put(x.obj, &MapObj{index: map[string]int{}, owner: st.top()})
			}
		case SliceV:
			z, _ := elemZero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			vs := make([]Value, x.len)
			for i := range vs {
				vs[i] = z
			}
			in.setElems(st, x, 0, vs)
		}
		return ret(st, Tuple{})
	case "min", "max":
		r := a[0]
		for _, y := range a[1:] {
			rt, ok1 := r.(*Term)
			yt, ok2 := y.(*Term)
			if !ok1 || !ok2 {
				unsup("min/max of %T", y)
			}
			_, sg, _ := intWidth(c.Args[0].Type())
			lt := Ult(yt, rt)
			if sg {
				lt = Slt(yt, rt)
			}
			if b.Name() == "max" {
				lt = Ult(rt, yt)
				if sg {
					lt = Slt(rt, yt)
				}
			}
			r = Ite(lt, yt, rt)
		}
		return ret(st, r)
	case "ssa:wrapnilchk":
		if p, ok := a[0].(Ptr); ok && p.obj == 0 {
			return []Outcome{rtPanic(st, "value method called using nil pointer")}
		}
		return ret(st, a[0])
	case "String": // unsafe.String
		p := a[0].(Ptr)
		n, ok := tConstInt(a[1])
		if !ok || n < 0 {
			unsup("unsafe.String length")
		}
		if n == 0 {
			return ret(st, emptyStr)
		}
		obj, par, off := in.ptrElem(p)
		arr := in.arrayOf(st, SliceV{obj: obj, path: par})
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = arr.elems[off+i].(*Term)
		}
		return ret(st, bytesStr(bs))
	case "StringData":
		s := a[0].(*Str)
		bs := s.bytes()
		if bs == nil || len(bs) == 0 {
			unsup("unsafe.StringData")
		}
		sl := in.newBytes(st, bs)
		return ret(st, Ptr{sl.obj, sub(nil, 0)})
	case "SliceData":
		s := a[0].(SliceV)
		if s.rope != nil {
			unsup("unsafe.SliceData of rope")
		}
		if s.obj == 0 {
			return ret(st, Ptr{})
		}
		return ret(st, Ptr{s.obj, sub(s.path, s.off)})
	case "Slice":
		p := a[0].(Ptr)
		n, ok := tConstInt(a[1])
		if !ok || n < 0 {
			unsup("unsafe.Slice length")
		}
		if p.obj == 0 {
			return ret(st, SliceV{})
		}
		obj, par, off := in.ptrElem(p)
		return ret(st, SliceV{obj: obj, path: par, off: off, len: n, cap: n})
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (in *Interp) ptrElem(p Ptr) (int, *PNode, int) {
	if p.path == nil || p.path.sym != nil || p.path.isWin {
		unsup("unsafe pointer into object")
	}
	return p.obj, p.path.parent, p.path.idx
}

// ---- fresh values ----

var freshN int

func freshVar(kind string, w int) *Term {
	freshN++
	return Var(fmt.Sprintf("%s!%d", kind, freshN), w)
}

func freshOf(t types.Type, kind string) Value {
	if w, _, ok := intWidth(t); ok {
		return freshVar(kind, w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return freshVar(kind, 0)
		}
	case *types.Struct:
		a := zero(t).(*Agg)
		n := &Agg{elems: append([]Value{}, a.elems...)}
		for i := range n.elems {
			if _, _, ok := intWidth(u.Field(i).Type()); ok {
				n.elems[i] = freshOf(u.Field(i).Type(), kind)
			}
		}
		return n
	}
	unsup("fresh value of %s", t)
	return nil
}

func (in *Interp) fillFresh(st *State, s SliceV, kind string) {
	bs := bytesOf(freshVar(kind, 8*s.len))
	in.setElems(st, s, 0, termVals(bs))
}

func init() {
	nop := func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, zeroResults(fn)), true
	}
	for n, d := range map[string][2]int{"(*sync.Mutex).Lock": {1, 0}, "(*sync.Mutex).Unlock": {-1, 0}, "(*sync.RWMutex).Lock": {1, 0}, "(*sync.RWMutex).Unlock": {-1, 0}, "(*sync.RWMutex).RLock": {0, 1}, "(*sync.RWMutex).RUnlock": {0, -1}} {
		d := d
		def(n, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			st.wlocks += d[0]
			st.rlocks += d[1]
			return ret(st, zeroResults(fn)), true
		})
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable",
		"crypto/internal/boring.Unreachable", "internal/boring.Unreachable"} {
		def(n, nop)
	}
	def("(*sync.Mutex).TryLock", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		st.wlocks++
		return ret(st, tTrue), true
	})
	def("(*sync.Pool).Put", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		if iv, ok := a[1].(IfaceV); ok && iv.typ == nil {
			return ret(st, Tuple{}), true
		}
		id := in.poolID(a[0].(Ptr))
		return synced(in, st, func() ([]Outcome, bool) {
			st.put(id, &Agg{elems: append(append([]Value{}, st.get(id).(*Agg).elems...), a[1])})
			return ret(st, Tuple{}), true
		})
	})
	def("(*sync.Pool).Get", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		p := a[0].(Ptr)
		pool := st.load(p).(*Agg)
		// what was put last is what comes next
		id := in.poolID(p)
		st.wlocks++ // a pool is synchronised
		l := st.get(id).(*Agg).elems
		st.wlocks--
		if len(l) > 0 {
			v := l[len(l)-1]
			return synced(in, st, func() ([]Outcome, bool) {
				st.put(id, &Agg{elems: append([]Value{}, l[:len(l)-1]...)})
				return ret(st, v), true
			})
		}
		sT := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < sT.NumFields(); i++ {
			if sT.Field(i).Name() == "New" {
				c, _ := pool.elems[i].(*Closure)
				if c == nil {
					return ret(st, IfaceV{}), true
				}
				return in.callValue(st, c, nil, nil), true
			}
		}
		unsup("sync.Pool")
		return nil, true
	})
	{
		// atomics
		def := func(name string, f intrin) {
			def(name, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				return synced(in, st, func() ([]Outcome, bool) { return f(in, st, fn, a) })
			})
		}
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			P := "sync/atomic."
			def(P+"Load"+ty, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				return ret(st, st.load(a[0].(Ptr))), true
			})
			def(P+"Store"+ty, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				st.store(a[0].(Ptr), a[1])
				return ret(st, Tuple{}), true
			})
			def(P+"Swap"+ty, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				o := st.load(a[0].(Ptr))
				st.store(a[0].(Ptr), a[1])
				return ret(st, o), true
			})
			def(P+"Add"+ty, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				v := Add(st.load(a[0].(Ptr)).(*Term), a[1].(*Term))
				st.store(a[0].(Ptr), v)
				return ret(st, v), true
			})
			def(P+"CompareAndSwap"+ty, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
				e, ok := in.eqVal(st.load(a[0].(Ptr)), a[1])
				if !ok {
					unsup("compare and swap")
				}
				x, y := in.split(st, e)
				var os []Outcome
				if x != nil {
					x.store(a[0].(Ptr), a[2])
					os = append(os, Outcome{st: x, kind: oRet, val: tTrue})
				}
				if y != nil {
					os = append(os, Outcome{st: y, kind: oRet, val: tFalse})
				}
				return os, true
			})
		}
	}
	// byte search
	idx := func(bs []*Term, c *Term, last bool) *Term {
		r := BVBig(64, bigConst(-1).val())
		if last {
			for i := 0; i < len(bs); i++ {
				r = Ite(Eq(bs[i], c), BV(64, uint64(i)), r)
			}
			return r
		}
		for i := len(bs) - 1; i >= 0; i-- {
			r = Ite(Eq(bs[i], c), BV(64, uint64(i)), r)
		}
		return r
	}
	strBytes := func(v Value) []*Term {
		bs := v.(*Str).bytes()
		if bs == nil {
			if l, ok := v.(*Str).concLen(); ok && l == 0 {
				return nil
			}
			unsup("byte search in opaque text")
		}
		return bs
	}
	def("internal/bytealg.IndexByte", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, idx(in.sliceBytes(st, a[0].(SliceV)), a[1].(*Term), false)), true
	})
	def("internal/bytealg.IndexByteString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, idx(strBytes(a[0]), a[1].(*Term), false)), true
	})
	def("internal/bytealg.LastIndexByte", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, idx(in.sliceBytes(st, a[0].(SliceV)), a[1].(*Term), true)), true
	})
	def("internal/bytealg.LastIndexByteString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, idx(strBytes(a[0]), a[1].(*Term), true)), true
	})
	count := func(bs []*Term, c *Term) *Term {
		r := BV(64, 0)
		for _, b := range bs {
			r = Add(r, BoolToBV(Eq(b, c), 64))
		}
		return r
	}
	def("internal/bytealg.Count", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, count(in.sliceBytes(st, a[0].(SliceV)), a[1].(*Term))), true
	})
	def("internal/bytealg.CountString", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return ret(st, count(strBytes(a[0]), a[1].(*Term))), true
	})
	eqB := func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		e, ok := strEq(in.sliceStr(st, a[0].(SliceV)), in.sliceStr(st, a[1].(SliceV)))
		if !ok {
			unsup("bytes comparison")
		}
		return ret(st, e), true
	}
	def("internal/bytealg.Equal", eqB)
	def("bytes.Equal", eqB)
	def("crypto/subtle.ConstantTimeCompare", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		e, ok := strEq(in.sliceStr(st, a[0].(SliceV)), in.sliceStr(st, a[1].(SliceV)))
		if !ok {
			unsup("bytes comparison")
		}
		return ret(st, BoolToBV(e, 64)), true
	})
	cmpB := func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		x, y := in.sliceStr(st, a[0].(SliceV)), in.sliceStr(st, a[1].(SliceV))
		lt, ok1 := strLess(x, y)
		eq, ok2 := strEq(x, y)
		if !ok1 || !ok2 {
			unsup("bytes comparison")
		}
		return ret(st, Ite(lt, BVBig(64, bigConst(-1).val()), Ite(eq, BV(64, 0), BV(64, 1)))), true
	}
	def("internal/bytealg.Compare", cmpB)
	def("bytes.Compare", cmpB)
	def("internal/bytealg.MakeNoZero", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		n, ok := tConstInt(a[0])
		if !ok {
			unsup("MakeNoZero")
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = BV(8, 0)
		}
		return ret(st, in.newBytes(st, bs)), true
	})
	// sorting with a comparison closure: the library's own sort on a native swap
	sortBy := func(target string) intrin {
		return func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			iv := a[0].(IfaceV)
			s, ok := iv.val.(SliceV)
			if !ok || s.rope != nil {
				unsup("sort of %T", iv.val)
			}
			swap := &Closure{nat: &NativeFn{name: "swap", f: func(in *Interp, st *State, b []Value) []Outcome {
				i, ok1 := tConstInt(b[0])
				j, ok2 := tConstInt(b[1])
				if !ok1 || !ok2 {
					unsup("swap at symbolic index")
				}
				es := in.sliceElems(st, s)
				x, y := es[i], es[j]
				in.setElems(st, s, i, []Value{y})
				in.setElems(st, s, j, []Value{x})
				return ret(st, Tuple{})
			}}}
			lt := in.findFn("sort", target)
			ls := &Agg{elems: []Value{a[1], swap}}
			args := []Value{ls, BV(64, 0), BV(64, uint64(s.len))}
			if target == "pdqsort_func" {
				args = append(args, BV(64, uint64(bits.Len(uint(s.len)))))
			} else {
				args = []Value{ls, BV(64, uint64(s.len))}
			}
			return in.callFn(st, lt, args, nil), true
		}
	}
	def("sort.Slice", sortBy("pdqsort_func"))
	def("sort.SliceStable", sortBy("stable_func"))
	swapper := func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		s, ok := a[0].(IfaceV).val.(SliceV)
		if !ok {
			unsup("Swapper")
		}
		return ret(st, &Closure{nat: &NativeFn{name: "swap", f: func(in *Interp, st *State, b []Value) []Outcome {
			i, ok1 := tConstInt(b[0])
			j, ok2 := tConstInt(b[1])
			if !ok1 || !ok2 {
				unsup("swap at symbolic index")
			}
			es := in.sliceElems(st, s)
			x, y := es[i], es[j]
			in.setElems(st, s, i, []Value{y})
			in.setElems(st, s, j, []Value{x})
			return ret(st, Tuple{})
		}}}), true
	}
	def("internal/reflectlite.Swapper", swapper)
	def("reflect.Swapper", swapper)
	// errors.Is without reflection
	def("errors.Is", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		err, target := a[0].(IfaceV), a[1].(IfaceV)
		if err.typ == nil || target.typ == nil {
			return ret(st, Bool(err.typ == nil && target.typ == nil)), true
		}
		return in.errorsIs(st, err, target, 0), true
	})
	// process exit
	exit := func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return []Outcome{rtPanic(st, "process exit through "+fn.String())}, true
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit"} {
		def(n, exit)
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println"} {
		def(n, nop)
	}
	def("log.Panic", func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
		return []Outcome{rtPanic(st, "log.Panic")}, true
	})
	def("log.Panicf", intrinsics["log.Panic"])
	def("log.Panicln", intrinsics["log.Panic"])
	// non-cryptographic randomness and clocks: unconstrained values
	fresh := func(kind string) intrin {
		return func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			if in.concrete {
				unsup("nondeterminism during initialisation: %s", fn)
			}
			name := fn.Name()
			if name == "Read" {
				s := a[len(a)-1].(SliceV)
				in.fillFresh(st, s, kind)
				return ret(st, Tuple{BV(64, uint64(s.len)), IfaceV{}}), true
			}
			res := fn.Signature.Results()
			switch name {
			case "Seed", "Shuffle":
				return ret(st, zeroResults(fn)), true
			case "New", "NewSource", "NewZipf", "NewPCG", "NewChaCha8":
				if res.Len() == 1 {
					if p, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
						return ret(st, Ptr{obj: st.alloc(zero(p.Elem()))}), true
					}
					return ret(st, IfaceV{canonType(types.Typ[types.Int]), BV(64, 0)}), true
				}
			case "Intn", "Int63n", "Int31n", "IntN", "Int64N", "Int32N", "Uint32N", "Uint64N", "UintN":
				n := a[len(a)-1].(*Term)
				v := freshVar(kind, n.w)
				ns := st.fork()
				ns.pc = ns.pc.push(Ult(v, n))
				return ret(ns, v), true
			case "Int63", "Int", "Int64":
				v := freshVar(kind, 63)
				return ret(st, Zext(v, 64)), true
			case "Int31", "Int32":
				v := freshVar(kind, 31)
				return ret(st, Zext(v, 32)), true
			}
			if res.Len() == 1 {
				return ret(st, freshOf(res.At(0).Type(), kind)), true
			}
			unsup("%s", fn)
			return nil, true
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand).", "(math/rand.Source)."} {
		intrinPrefixes = append(intrinPrefixes, intrinPrefix{p, func(in *Interp, st *State, fn *ssa.Function, a []Value) ([]Outcome, bool) {
			if fn.Name() == "init" {
				return ret(st, Tuple{}), true
			}
			return fresh("rand")(in, st, fn, a)
		}})
	}
	for _, n := range []string{"time.Now", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).UnixMilli", "(time.Time).UnixMicro", "(time.Time).Nanosecond", "os.Getpid", "time.Since", "runtime.NumGoroutine", "runtime.NumCPU"} {
		def(n, fresh("clock"))
	}
}

func (in *Interp) errorsIs(st *State, err, target IfaceV, depth int) []Outcome {
	if depth > 8 {
		unsup("error chain")
	}
	if err.typ == target.typ {
		e, ok := in.eqVal(err.val, target.val)
		if !ok {
			unsup("error comparison")
		}
		if e == tTrue {
			return ret(st, tTrue)
		}
		if e != tFalse {
			unsup("symbolic error comparison")
		}
	}
	ms := in.prog.MethodSets.MethodSet(err.typ)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		switch s.Obj().Name() {
		case "Is":
			unsup("error with an Is method")
		case "Unwrap":
			var os []Outcome
			for _, o := range in.callFn(st, in.prog.MethodValue(s), []Value{err.val}, nil) {
				if o.kind != oRet {
					os = append(os, o)
					continue
				}
				switch w := o.val.(type) {
				case IfaceV:
					if w.typ == nil {
						os = append(os, Outcome{st: o.st, kind: oRet, val: tFalse})
					} else {
						os = append(os, in.errorsIs(o.st, w, target, depth+1)...)
					}
				default:
					unsup("multi-error unwrap")
				}
			}
			return os
		}
	}
	return ret(st, tFalse)
}

var poolIDs = map[string]int{}

// poolID names the object that holds what was put into a pool.
func (in *Interp) poolID(p Ptr) int {
	k := fmt.Sprint(p)
	id, ok := poolIDs[k]
	if !ok {
		id = nextObj
		nextObj++
		poolIDs[k] = id
		baseLayer.m[id] = &Agg{}
	}
	return id
}
