package main

// Abstract interpreter over the IR.  Every branch that the abstract state
// does not decide is analysed on both sides up to its immediate
// post-dominator, where the two abstract states are joined.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"time"
)

type Event struct {
	kind  string
	msg   string
	file  string
	line  int
	fn    string
	stack string
}

type Hook func(x *X, st *State, args []Val, in *Instr) []*State

type X struct {
	m        *Module
	steps    int64
	ticks    int64
	budget   int64
	soft     time.Time
	counting bool // hash computations are counted
	splits   int64
	calls    int64
	branches int64
	accesses int64
	events   []Event
	evSeen   map[string]bool
	hooks    map[string]Hook
	native   bool // analyse the hash primitives natively
	cur      *Instr
	depth    int
	curStop  int
	globals  *State
	onStore  func(st *State, r *Region, off V, n int64, in *Instr)
	onLoad   func(st *State, r *Region, off V, n int64, in *Instr)
	noMerge  bool
	retHook  func(st *State) // consumes the states at the return of the entry function
	maxDepth int
	hashes   int64
	fnSeen   map[string]bool
	brSeen   map[*Instr]bool
}

func newX(m *Module) *X {
	x := &X{m: m, budget: 1e12, maxDepth: 3000, evSeen: map[string]bool{}, hooks: map[string]Hook{}, fnSeen: map[string]bool{}, brSeen: map[*Instr]bool{}}
	return x
}

func (x *X) where() string {
	if x.cur == nil {
		return "?"
	}
	return fmt.Sprintf("%s:%d (%s)", x.cur.fn.file, x.cur.line, strings.TrimPrefix(x.cur.fn.name, "@"))
}

func (x *X) event(st *State, kind, f string, a ...interface{}) {
	e := Event{kind: kind, msg: fmt.Sprintf(f, a...)}
	if x.cur != nil {
		e.file, e.line, e.fn = x.cur.fn.file, x.cur.line, strings.TrimPrefix(x.cur.fn.name, "@")
	}
	key := fmt.Sprintf("%s|%s|%d", e.kind, e.file, e.line)
	if x.evSeen[key] {
		return
	}
	x.evSeen[key] = true
	if st != nil {
		var s []string
		for _, f := range st.frames {
			s = append(s, strings.TrimPrefix(f.fn.name, "@"))
		}
		e.stack = strings.Join(s, ">")
	}
	x.events = append(x.events, e)
}

// ---------- linking

func (m *Module) link() {
	for _, n := range m.gorder {
		g := m.globals[n]
		g.region = newRegion(strings.TrimPrefix(n, "@"), C(uint64(g.ty.size)))
		g.region.algn = 0
		g.region.kind = "global"
		if g.isConst {
			g.region.ro = true
			g.region.why = "constant data"
		}
	}
	res := func(o *Operand) {
		switch o.k {
		case OConst:
			w := int32(64)
			if o.ty != nil && o.ty.k == TInt {
				w = int32(o.ty.bits)
			}
			o.v = cV(o.c & mask(w))
		case OUndef:
			w := int32(64)
			if o.ty != nil && o.ty.k == TInt {
				w = int32(o.ty.bits)
			}
			o.v = Val{v: T(cons(&Term{op: OpJunk, s: "undef", w: w, fl: FJunk}))}
		case OGlobal:
			if g, ok := m.globals[o.g]; ok {
				o.v = Val{v: C(o.c), r: g.region}
			} else {
				o.v = Val{v: fnTerm(o.g)}
			}
		}
	}
	for _, n := range m.forder {
		f := m.funcs[n]
		f.regW = make([]int32, f.nregs)
		for i := range f.regW {
			f.regW[i] = 64
		}
		for i, p := range f.params {
			f.regW[p] = tyW(f.ptypes[i])
		}
		for _, b := range f.blocks {
			for _, in := range b.ins {
				res(&in.a)
				res(&in.b)
				res(&in.c)
				for i := range in.args {
					res(&in.args[i])
				}
				if in.dst >= 0 {
					switch in.op {
					case IIcmp:
						f.regW[in.dst] = 1
					case IGep, IAlloca:
						f.regW[in.dst] = 64
					default:
						f.regW[in.dst] = tyW(in.ty)
					}
				}
			}
		}
		f.computeLive()
	}
}

func fnTerm(n string) V { return T(cons(&Term{op: OpFn, s: n, w: 64})) }

func tyW(t *Type) int32 {
	if t == nil {
		return 64
	}
	if t.k == TInt {
		return int32(t.bits)
	}
	return 64
}

func opRegs(in *Instr, f func(int)) {
	if in.op != IPhi {
		if in.a.k == OReg {
			f(in.a.reg)
		}
		if in.b.k == OReg {
			f(in.b.reg)
		}
		if in.c.k == OReg {
			f(in.c.reg)
		}
		for i := range in.args {
			if in.args[i].k == OReg {
				f(in.args[i].reg)
			}
		}
	}
}

func (f *Func) computeLive() {
	w := (f.nregs + 63) / 64
	n := len(f.blocks)
	in := make([][]uint64, n) // live after the phis
	for i := range in {
		in[i] = make([]uint64, w)
	}
	for ch := true; ch; {
		ch = false
		for bi := n - 1; bi >= 0; bi-- {
			b := f.blocks[bi]
			live := make([]uint64, w)
			for _, s := range b.succ {
				sb := f.blocks[s]
				tmp := append([]uint64{}, in[s]...)
				for _, ph := range sb.ins[:sb.nphi] {
					tmp[ph.dst/64] &^= 1 << uint(ph.dst%64)
				}
				for _, ph := range sb.ins[:sb.nphi] {
					for i, pb := range ph.phiBlk {
						if pb == bi && ph.args[i].k == OReg {
							r := ph.args[i].reg
							tmp[r/64] |= 1 << uint(r%64)
						}
					}
				}
				for i := range live {
					live[i] |= tmp[i]
				}
			}
			for i := len(b.ins) - 1; i >= b.nphi; i-- {
				x := b.ins[i]
				if x.dst >= 0 {
					live[x.dst/64] &^= 1 << uint(x.dst%64)
				}
				opRegs(x, func(r int) { live[r/64] |= 1 << uint(r%64) })
			}
			for i := range live {
				if live[i] != in[bi][i] {
					ch = true
				}
			}
			in[bi] = live
		}
	}
	f.live = in
}

// initial state with the module's globals
func (x *X) freshState() *State {
	st := newState()
	for _, n := range x.m.gorder {
		g := x.m.globals[n]
		st.addRegion(g.region, cons(&Term{op: OpJunk, s: "extern " + n, w: int32(8 * g.ty.size), fl: FJunk}))
		if g.init != nil {
			writeInit(st, g.region, 0, g.init, x.m)
		}
	}
	return st
}

func writeInit(st *State, r *Region, off int64, ci *ConstInit, m *Module) {
	ty := ci.ty.layout()
	switch {
	case ci.undef:
		return
	case ci.zero:
		for i := 0; i < ty.size; i++ {
			st.poke(r, off+int64(i), Cell{})
		}
	case ci.str != nil:
		for i, b := range ci.str {
			st.poke(r, off+int64(i), Cell{c: b})
		}
	case ci.gref != "":
		var v V
		if g, ok := m.globals[ci.gref]; ok {
			v = valTerm(Val{v: C(uint64(ci.goff)), r: g.region})
		} else {
			v = fnTerm(ci.gref)
		}
		for i, c := range vCells(v, 64, nil) {
			st.poke(r, off+int64(i), c)
		}
	case ci.elems != nil:
		for i, e := range ci.elems {
			if ty.k == TArr {
				writeInit(st, r, off+int64(i*ty.elem.layout().size), e, m)
			} else {
				writeInit(st, r, off+int64(ty.offs[i]), e, m)
			}
		}
		if ty.k == TStruct { // padding stays indeterminate: treat as zero
		}
	default:
		for i := 0; i < ty.size; i++ {
			st.poke(r, off+int64(i), Cell{c: uint8(ci.ival >> uint(8*i))})
		}
	}
}

func (s *State) poke(r *Region, off int64, c Cell) {
	rm := s.wmem(r)
	p := s.wpage(rm, off)
	p.cells[off%pageSz] = c
}

func (s *State) peek(r *Region, off int64) Cell { return s.cell(s.mem[r], off) }

// ---------- calls and blocks

func (x *X) callFn(st *State, f *Func, args []Val, in *Instr) []*State {
	x.calls++
	x.fnSeen[f.name] = true
	if len(st.frames) > 40 {
		unknown("call depth exceeded in %s", f.name)
	}
	for _, fr := range st.frames {
		if fr.fn == f && len(st.frames) > 30 {
			x.event(st, "recursion", "recursive call of %s", f.name)
			unknown("recursion")
		}
	}
	fr := &Frame{fn: f, owner: st.id, regs: make([]Val, f.nregs), site: in}
	for i, p := range f.params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	outs := x.run(st, 0, f.blocks[0].nphi, -1)
	for _, o := range outs {
		t := o.frames[len(o.frames)-1]
		for _, l := range t.locals {
			o.delRegion(l)
		}
		o.frames = o.frames[: len(o.frames)-1 : len(o.frames)-1]
	}
	return outs
}

func (x *X) jump(st *State, from, to int) {
	fr := st.top()
	b := fr.fn.blocks[to]
	if b.nphi == 0 {
		return
	}
	var tmp [16]Val
	vs := tmp[:0]
	for _, ph := range b.ins[:b.nphi] {
		ok := false
		for i, pb := range ph.phiBlk {
			if pb == from {
				vs = append(vs, x.val(fr, &ph.args[i]))
				ok = true
				break
			}
		}
		if !ok {
			unknown("phi without predecessor")
		}
	}
	for i, ph := range b.ins[:b.nphi] {
		fr.regs[ph.dst] = vs[i]
	}
}

func (x *X) val(fr *Frame, o *Operand) Val {
	if o.k == OReg {
		return fr.regs[o.reg]
	}
	return o.v
}

// part is one side of a split
type part struct {
	ivs []IV
}

// splitRun analyses each part of a partition of d's values from (bi, idx) (or
// from the successor block chosen by target) to the post-dominator of block bi
// and joins the results.
func (x *X) splitRun(st *State, d *Term, parts [][]IV, bi int, stop int, go1 func(s *State, i int) []*State, J int) []*State {
	x.splits++
	fn := st.frames[len(st.frames)-1].fn
	if x.splits > 40e6 {
		unknown("too many splits")
	}
	x.depth++
	if x.depth > x.maxDepth {
		unknown("split nesting")
	}
	defer func() { x.depth-- }()
	var sides []side
	var multi []*State
	single := true
	var sts []*State
	for i := 0; i < len(parts); i++ {
		if i == len(parts)-1 {
			sts = append(sts, st)
		} else {
			sts = append(sts, st.fork())
		}
	}
	for i := range parts {
		s := sts[i]
		if !s.addFact(d, parts[i]) {
			continue
		}
		outs := go1(s, i)
		if len(outs) == 0 {
			continue
		}
		if len(outs) > 1 {
			single = false
		}
		multi = append(multi, outs...)
		sides = append(sides, side{parts[i], outs[0]})
	}
	if len(sides) == 0 {
		return nil
	}
	var res []*State
	if single && len(sides) == 1 {
		res = []*State{sides[0].st}
	} else if single && d.fl&FSplit == 0 && !x.noMerge {
		var live []uint64
		if J >= 0 {
			live = fn.live[J]
		} else {
			live = make([]uint64, (fn.nregs+63)/64)
		}
		retWidth = tyW(fn.ret)
		res = []*State{mergeStates(d, sides, live, fn.regW)}
	} else {
		res = multi
	}
	if J == stop {
		return res
	}
	var out []*State
	for _, s := range res {
		out = append(out, x.run(s, J, fn.blocks[J].nphi, stop)...)
	}
	return out
}

// discOf normalises a symbolic 1-bit condition to "d in ivs".
func discOf(c V) (*Term, []IV) {
	t := c.t
	switch t.op {
	case OpIn:
		return t.args[0], t.ivs
	case OpCat:
		if len(t.segs) == 1 {
			s := t.segs[0]
			if s.c == 1 {
				y := fromSeg1(Seg{n: 1, p: s.p})
				d, ivs := discOf(y)
				if d.op == OpLin || d.w != 1 {
					return d, subIVs(baseIVs(d), ivs)
				}
				return d, []IV{{0, 0}}
			}
			if s.p.one && s.p.mons[0][0].t.op == OpIn {
				return discOf(T(s.p.mons[0][0].t))
			}
		}
	}
	return t, []IV{{1, 1}}
}

func (x *X) checkFlags(st *State, v V, what string) {
	if v.t == nil {
		return
	}
	if v.t.fl&(FSecret|FPrf|FKeyPrf|FOpt|FData) != 0 {
		x.event(st, "taint", "%s depends on secret data", what)
	}
	if v.t.fl&FJunk != 0 {
		x.event(st, "uninit", "%s depends on uninitialised memory %s", what, junkName(v.t, 0))
	}
}

func junkName(t *Term, d int) string {
	if t == nil || d > 8 || t.fl&FJunk == 0 {
		return ""
	}
	if t.op == OpJunk {
		return t.s
	}
	for _, a := range t.args {
		if a != nil && a.fl&FJunk != 0 {
			return junkName(a, d+1)
		}
	}
	for _, s := range t.segs {
		if s.p != nil {
			for _, m := range s.p.mons {
				for _, y := range m {
					if y.t.fl&FJunk != 0 {
						return junkName(y.t, d+1)
					}
				}
			}
		}
	}
	for _, l := range t.lin {
		if l.t.fl&FJunk != 0 {
			return junkName(l.t, d+1)
		}
	}
	for _, e := range t.ents {
		if e.v.t != nil && e.v.t.fl&FJunk != 0 {
			return junkName(e.v.t, d+1)
		}
	}
	return "?"
}

// partition of a term's current values into singletons
func (x *X) singles(st *State, t *Term, max int) ([][]IV, bool) {
	var out [][]IV
	for _, iv := range st.ivsOf(t) {
		if iv.hi-iv.lo >= int64(max) {
			return nil, false
		}
		for v := iv.lo; v <= iv.hi; v++ {
			out = append(out, []IV{{v, v}})
			if len(out) > max {
				return nil, false
			}
		}
	}
	return out, true
}

// concretise asks for a mid-block split so that v becomes constant.
type needSplit struct {
	d     *Term
	parts [][]IV
}

func (x *X) need(st *State, v V, w int32, max int) *needSplit {
	// a Case: split on its discriminator
	t := v.t
	if t.op == OpCase {
		return x.caseSplit(st, t)
	}
	_, ls, ok := st.linOf(v, w)
	if !ok {
		if v.t.op == OpSum {
			for _, l := range v.t.lin {
				ls = append(ls, l)
			}
		} else {
			return nil
		}
	}
	for _, l := range ls {
		if l.t.op == OpCase {
			return x.caseSplit(st, l.t)
		}
	}
	// smallest range first
	sort.SliceStable(ls, func(i, j int) bool {
		a, b := termRange(ls[i].t, st)
		c, d := termRange(ls[j].t, st)
		return b-a < d-c
	})
	for _, l := range ls {
		if ps, ok := x.singles(st, l.t, max); ok && len(ps) > 1 {
			return &needSplit{l.t, ps}
		}
	}
	return nil
}

func (x *X) caseSplit(st *State, t *Term) *needSplit {
	cur := st.ivsOf(t.args[0])
	var parts [][]IV
	for i, e := range t.ents {
		// group equal values
		dup := false
		for j := 0; j < i; j++ {
			if t.ents[j].v == e.v {
				dup = true
			}
		}
		if dup {
			continue
		}
		var ivs []IV
		for j := i; j < len(t.ents); j++ {
			if t.ents[j].v == e.v {
				ivs = append(ivs, IV{t.ents[j].lo, t.ents[j].hi})
			}
		}
		ivs = isectIVs(cur, normIVs(ivs))
		if len(ivs) > 0 {
			parts = append(parts, ivs)
		}
	}
	if len(parts) < 2 {
		return nil
	}
	return &needSplit{t.args[0], parts}
}

func (x *X) midSplit(st *State, ns *needSplit, bi, idx, stop int) []*State {
	fn := st.frames[len(st.frames)-1].fn
	J := fn.blocks[bi].ipdom
	if J >= 0 {
		return x.splitRun(st, ns.d, ns.parts, bi, stop, func(s *State, i int) []*State {
			return x.run(s, bi, idx, J)
		}, J)
	}
	return x.splitRun(st, ns.d, ns.parts, bi, stop, func(s *State, i int) []*State {
		return x.run(s, bi, idx, -1)
	}, -1)
}

func (x *X) run(st *State, bi, idx, stop int) []*State {
	fr := st.top()
	fn := fr.fn
	for {
		b := fn.blocks[bi]
		next := -1
	body:
		for ; idx < len(b.ins); idx++ {
			in := b.ins[idx]
			x.steps++
			x.cur = in
			switch in.op {
			case IAdd, ISub, IMul, IUDiv, ISDiv, IURem, ISRem, IShl, ILShr, IAShr, IAnd, IOr, IXor:
				a, c := x.val(fr, &in.a), x.val(fr, &in.b)
				if a.v.t == nil && c.v.t == nil && a.r == nil && c.r == nil {
					fr.regs[in.dst] = Val{v: C(x.binC(st, in, a.v.c, c.v.c))}
				} else {
					r, ns := x.bin(st, in, a, c)
					if ns != nil {
						return x.midSplit(st, ns, bi, idx, stop)
					}
					fr.regs[in.dst] = r
				}
			case IZext:
				a := x.val(fr, &in.a)
				if a.v.t == nil || a.r != nil {
					fr.regs[in.dst] = a
				} else {
					fr.regs[in.dst] = Val{v: fold(zextPlain(a.v, tyW(in.a.ty), int32(in.ty.bits)))}
				}
			case ISext:
				a := x.val(fr, &in.a)
				fr.regs[in.dst] = Val{v: st.sext(a.v, tyW(in.a.ty), int32(in.ty.bits)), r: a.r}
			case ITrunc:
				a := x.val(fr, &in.a)
				if a.r != nil {
					if in.ty.bits == 64 {
						fr.regs[in.dst] = a
					} else {
						fr.regs[in.dst] = Val{v: slice(valTerm(a), 64, 0, int32(in.ty.bits))}
					}
				} else if a.v.t == nil {
					fr.regs[in.dst] = cV(a.v.c & mask(int32(in.ty.bits)))
				} else {
					fr.regs[in.dst] = Val{v: fold(slice(a.v, tyW(in.a.ty), 0, int32(in.ty.bits)))}
				}
			case IPtrToInt, IIntToPtr, IBitcast, IFreeze:
				fr.regs[in.dst] = x.val(fr, &in.a)
			case IGep:
				base := x.val(fr, &in.a)
				if base.r == nil && base.v.t != nil {
					if base.v.t.op == OpPtr {
						base = termVal(base.v)
					} else if y := st.simp(base.v); y.t != nil && y.t.op == OpCase {
						if ns := x.caseSplit(st, y.t); ns != nil {
							return x.midSplit(st, ns, bi, idx, stop)
						}
					} else {
						base = termVal(y)
					}
				}
				if in.gconst {
					if base.v.t == nil {
						fr.regs[in.dst] = Val{v: C(base.v.c + uint64(in.goff)), r: base.r}
					} else {
						fr.regs[in.dst] = Val{v: vAdd(base.v, C(uint64(in.goff)), 64), r: base.r}
					}
				} else {
					off := base.v
					acc := uint64(in.goff)
					for i := range in.args {
						v := x.val(fr, &in.args[i])
						w := tyW(in.args[i].ty)
						if v.r != nil {
							unknown("pointer used as index")
						}
						if v.v.t == nil {
							if b := in.gbound[i]; b >= 0 {
								if k := signed(v.v.c&mask(w), w); k < 0 || k > b {
									x.event(st, "oob", "index %d into an array of %d elements", k, b)
								}
							}
							acc += uint64(signed(v.v.c&mask(w), w)) * uint64(in.gsc[i])
						} else {
							iv := v.v
							if w < 64 {
								iv = st.sext(iv, w, 64)
							}
							off = vAdd(off, vMul(iv, C(uint64(in.gsc[i])), 64), 64)
						}
					}
					if off.t == nil {
						fr.regs[in.dst] = Val{v: C(off.c + acc), r: base.r}
					} else {
						fr.regs[in.dst] = Val{v: vAdd(off, C(acc), 64), r: base.r}
					}
				}
			case IIcmp:
				a, c := x.val(fr, &in.a), x.val(fr, &in.b)
				if a.r == nil && c.r == nil && a.v.t == nil && c.v.t == nil {
					fr.regs[in.dst] = Val{v: C(icmpC(in.pred, a.v.c, c.v.c, tyW(in.ty)))}
				} else {
					fr.regs[in.dst] = Val{v: x.icmp(st, in.pred, a, c, tyW(in.ty))}
				}
			case ISelect:
				cnd := st.simp(x.val(fr, &in.a).v)
				tv, fv := x.val(fr, &in.b), x.val(fr, &in.c)
				if cnd.t == nil {
					if cnd.c&1 == 1 {
						fr.regs[in.dst] = tv
					} else {
						fr.regs[in.dst] = fv
					}
				} else if tv == fv {
					fr.regs[in.dst] = tv
				} else {
					d, ivs := discOf(cnd)
					if d.fl&FSplit != 0 {
						cur := st.ivsOf(d)
						return x.midSplit(st, &needSplit{d, [][]IV{isectIVs(cur, ivs), subIVs(cur, ivs)}}, bi, idx, stop)
					}
					cur := st.ivsOf(d)
					A, B := isectIVs(cur, ivs), subIVs(cur, ivs)
					x.checkFlags(st, cnd, "select condition")
					fr.regs[in.dst] = mergeVals(d, []side{{ivs: A}, {ivs: B}}, []Val{tv, fv}, tyW(in.ty), nil)
				}
			case IAlloca:
				n := x.val(fr, &in.a)
				if n.v.t != nil {
					x.event(st, "vla", "stack allocation of non-constant size")
					unknown("variable length allocation")
				}
				r := newRegion(fn.name[1:]+":"+fn.regNames[in.dst], C(uint64(in.ty.size)*n.v.c))
				r.kind, r.algn = "local", int64(in.algn)
				if in.junk == nil {
					in.junk = cons(&Term{op: OpJunk, s: "local " + r.name, w: int32(8 * uint64(in.ty.size) * n.v.c), fl: FJunk})
				}
				st.addRegion(r, in.junk)
				fr.locals = append(fr.locals[:len(fr.locals):len(fr.locals)], r)
				fr.regs[in.dst] = Val{r: r}
			case ILoad:
				p := x.val(fr, &in.a)
				x.aligned(st, p, in)
				if p.r != nil && p.v.t == nil {
					fr.regs[in.dst] = x.loadC(st, p.r, int64(p.v.c), in.ty)
				} else {
					v, ns := x.load(st, p, in.ty)
					if ns != nil {
						return x.midSplit(st, ns, bi, idx, stop)
					}
					fr.regs[in.dst] = v
				}
			case IStore:
				v, p := x.val(fr, &in.a), x.val(fr, &in.b)
				x.aligned(st, p, in)
				if p.r != nil && p.v.t == nil {
					x.storeC(st, p.r, int64(p.v.c), v, in.ty)
				} else if ns := x.store(st, p, v, in.ty); ns != nil {
					return x.midSplit(st, ns, bi, idx, stop)
				}
			case ICall:
				x.tick()
				if x.steps > x.budget {
					unknown("analysis budget exhausted")
				}
				args := make([]Val, len(in.args))
				for i := range in.args {
					args[i] = x.val(fr, &in.args[i])
				}
				callee := in.callee
				if callee == "" {
					t := x.val(fr, &in.a)
					tv := st.simp(t.v)
					if t.r != nil || tv.t == nil {
						x.event(st, "oob", "indirect call through an invalid pointer %s", valTerm(t))
						unknown("invalid indirect call")
					}
					if tv.t.op == OpCase {
						if ns := x.caseSplit(st, tv.t); ns != nil {
							return x.midSplit(st, ns, bi, idx, stop)
						}
					}
					if tv.t.op != OpFn {
						x.checkFlags(st, tv, "call target")
						unknown("indirect call target %s at %s", tv, x.where())
					}
					callee = tv.t.s
				}
				outs, ns := x.doCall(st, callee, args, in)
				if ns != nil {
					return x.midSplit(st, ns, bi, idx, stop)
				}
				if len(outs) == 0 {
					return nil
				}
				if len(outs) == 1 {
					st = outs[0]
					fr = st.top()
					if in.dst >= 0 {
						fr.regs[in.dst] = st.ret
					}
					continue body
				}
				var res []*State
				for _, o := range outs {
					if in.dst >= 0 {
						o.top().regs[in.dst] = o.ret
					}
					res = append(res, x.run(o, bi, idx+1, stop)...)
				}
				return res
			case IBr:
				next = in.blk[0]
			case ICondBr:
				cnd := x.val(fr, &in.a).v
				x.branches++
				if cnd.t != nil {
					cnd = st.simp(cnd)
				}
				if cnd.t == nil {
					if cnd.c&1 == 1 {
						next = in.blk[0]
					} else {
						next = in.blk[1]
					}
					break
				}
				x.brSeen[in] = true
				x.checkFlags(st, cnd, "branch condition")
				x.tick()
				if x.steps > x.budget {
					unknown("analysis budget exhausted")
				}
				d, ivs := discOf(cnd)
				if d.op == OpCase && d.w == 1 {
					if ns := x.caseSplit(st, d); ns != nil {
						return x.midSplit(st, ns, bi, idx, stop)
					}
				}
				cur := st.ivsOf(d)
				A := isectIVs(cur, ivs)
				B := subIVs(cur, A)
				J := b.ipdom
				tg := in.blk
				cbi := bi
				return x.splitRun(st, d, [][]IV{A, B}, bi, stop, func(s *State, i int) []*State {
					x.jump(s, cbi, tg[i])
					if tg[i] == J {
						return []*State{s}
					}
					return x.run(s, tg[i], fn.blocks[tg[i]].nphi, J)
				}, J)
			case ISwitch:
				v := st.simp(x.val(fr, &in.a).v)
				if v.t == nil {
					next = in.blk[0]
					for i, c := range in.cases {
						if c&mask(tyW(in.a.ty)) == v.c {
							next = in.blk[i+1]
							break
						}
					}
					break
				}
				x.brSeen[in] = true
				x.checkFlags(st, v, "switch value")
				ns := x.need(st, v, tyW(in.a.ty), 300)
				if ns == nil {
					// split on the first undecided case value
					e := C(0)
					for _, c := range in.cases {
						e = st.eqV(v, C(c), tyW(in.a.ty))
						if e.t != nil {
							d, ivs := discOf(e)
							cur := st.ivsOf(d)
							A := isectIVs(cur, ivs)
							ns = &needSplit{d, [][]IV{A, subIVs(cur, A)}}
							break
						}
						if e.c == 1 {
							break
						}
					}
					if ns == nil {
						if e.c == 1 {
							for i, c := range in.cases {
								if r := st.eqV(v, C(c), tyW(in.a.ty)); r.t == nil && r.c == 1 {
									next = in.blk[i+1]
								}
							}
						} else {
							next = in.blk[0]
						}
						break
					}
				}
				return x.midSplit(st, ns, bi, idx, stop)
			case IRet:
				if in.ty.k != TVoid {
					st.ret = x.val(fr, &in.a)
				} else {
					st.ret = Val{}
				}
				if x.retHook != nil && len(st.frames) == 1 {
					x.retHook(st)
					return nil
				}
				return []*State{st}
			case IUnreachable:
				return nil
			default:
				unknown("instruction at %s", x.where())
			}
			if next >= 0 {
				break
			}
		}
		if next < 0 {
			unknown("fell off block")
		}
		if fn.blocks[next].nphi > 0 {
			x.jump(st, bi, next)
		}
		if next == stop {
			return []*State{st}
		}
		bi = next
		idx = fn.blocks[bi].nphi
	}
}

// ---------- scalar operations

func (x *X) binC(st *State, in *Instr, a, c uint64) uint64 {
	w := int32(in.ty.bits)
	m := mask(w)
	switch in.op {
	case IAdd:
		if in.nsw {
			r := signed(a, w) + signed(c, w)
			if w < 64 && r != signed((a+c)&m, w) {
				x.event(st, "ub", "signed overflow in addition (%d + %d)", signed(a, w), signed(c, w))
			}
		}
		return (a + c) & m
	case ISub:
		if in.nsw {
			r := signed(a, w) - signed(c, w)
			if w < 64 && r != signed((a-c)&m, w) {
				x.event(st, "ub", "signed overflow in subtraction (%d - %d)", signed(a, w), signed(c, w))
			}
		}
		return (a - c) & m
	case IMul:
		if in.nsw && w <= 32 {
			r := signed(a, w) * signed(c, w)
			if r != signed((a*c)&m, w) {
				x.event(st, "ub", "signed overflow in multiplication (%d * %d)", signed(a, w), signed(c, w))
			}
		}
		return (a * c) & m
	case IUDiv, IURem, ISDiv, ISRem:
		if c == 0 {
			x.event(st, "ub", "division by zero")
			unknown("division by zero")
		}
		switch in.op {
		case IUDiv:
			return a / c
		case IURem:
			return a % c
		case ISDiv:
			return uint64(signed(a, w)/signed(c, w)) & m
		default:
			return uint64(signed(a, w)%signed(c, w)) & m
		}
	case IShl, ILShr, IAShr:
		if c >= uint64(w) {
			x.event(st, "ub", "shift by %d of a %d-bit value", c, w)
			return 0
		}
		switch in.op {
		case IShl:
			return (a << c) & m
		case ILShr:
			return a >> c
		default:
			return uint64(signed(a, w)>>c) & m
		}
	case IAnd:
		return a & c
	case IOr:
		return a | c
	case IXor:
		return a ^ c
	}
	panic("binC")
}

func (x *X) bin(st *State, in *Instr, a, c Val) (Val, *needSplit) {
	w := int32(in.ty.bits)
	if a.r != nil || c.r != nil {
		switch {
		case in.op == IAdd && a.r != nil && c.r == nil:
			return Val{v: vAdd(a.v, c.v, 64), r: a.r}, nil
		case in.op == IAdd && c.r != nil && a.r == nil:
			return Val{v: vAdd(a.v, c.v, 64), r: c.r}, nil
		case in.op == ISub && a.r != nil && c.r == nil:
			return Val{v: vSub(a.v, c.v, 64), r: a.r}, nil
		case in.op == ISub && a.r == c.r:
			return Val{v: vSub(a.v, c.v, 64)}, nil
		}
		a.v, c.v = valTerm(a), valTerm(c)
		return Val{v: mkOp(OpXorN, w, a.v, c.v)}, nil
	}
	av, cv := a.v, c.v
	if len(st.facts) > 0 {
		if av.t != nil {
			av = st.simp(av)
		}
		if cv.t != nil {
			cv = st.simp(cv)
		}
		if av.t == nil && cv.t == nil {
			return Val{v: C(x.binC(st, in, av.c, cv.c))}, nil
		}
	}
	// small constant Cases: compute per entry
	if av.t != nil && av.t.op == OpCase && cv.t == nil && caseConst(av.t) && w <= 64 {
		return Val{v: st.caseMap(av.t, w, func(e V) V { r, _ := x.bin(st, in, Val{v: e}, Val{v: cv}); return r.v })}, nil
	}
	if cv.t != nil && cv.t.op == OpCase && av.t == nil && caseConst(cv.t) && w <= 64 {
		return Val{v: st.caseMap(cv.t, w, func(e V) V { r, _ := x.bin(st, in, Val{v: av}, Val{v: e}); return r.v })}, nil
	}
	if av.t == nil && cv.t == nil {
		return Val{v: C(x.binC(st, in, av.c, cv.c))}, nil
	}
	switch in.op {
	case IAdd:
		if in.nsw {
			x.nswCheck(st, av, cv, w, 1)
		}
		return Val{v: fold(vAdd(av, cv, w))}, nil
	case ISub:
		if in.nsw {
			x.nswCheck(st, av, cv, w, -1)
		}
		return Val{v: fold(vSub(av, cv, w))}, nil
	case IMul:
		return Val{v: fold(vMul(av, cv, w))}, nil
	case IAnd:
		return Val{v: fold(vAnd(av, cv, w))}, nil
	case IOr:
		return Val{v: fold(vOr(av, cv, w))}, nil
	case IXor:
		return Val{v: vXor(av, cv, w)}, nil
	case IShl, ILShr, IAShr:
		if cv.t != nil {
			x.checkFlags(st, cv, "shift amount")
			_, hi := vRange(cv, w, st)
			if hi >= int64(w) {
				if ns := x.need(st, cv, w, 64); ns != nil {
					return Val{}, ns
				}
				op := OpShl
				if in.op != IShl {
					op = OpLShr
				}
				return Val{v: mkOp(op, w, widthV(av, w), widthV(cv, w))}, nil
			}
			if ns := x.need(st, cv, w, 64); ns != nil {
				return Val{}, ns
			}
			unknown("shift by symbolic amount at %s", x.where())
		}
		if cv.c >= uint64(w) {
			x.event(st, "ub", "shift by %d of a %d-bit value", cv.c, w)
			return cV(0), nil
		}
		s := int32(cv.c)
		switch in.op {
		case IShl:
			return Val{v: fold(vShlC(av, s, w))}, nil
		case ILShr:
			return Val{v: fold(vLshrC(av, s, w))}, nil
		default:
			if _, hi := vRange(av, w, st); hi < int64(1)<<uint(min32(w-1, 61)) {
				return Val{v: vLshrC(av, s, w)}, nil
			}
			y := slice(av, w, s, w-s)
			return Val{v: st.sext(y, w-s, w)}, nil
		}
	case IUDiv, IURem:
		if cv.t == nil {
			if cv.c == 0 {
				x.event(st, "ub", "division by zero")
				unknown("division by zero")
			}
			if cv.c&(cv.c-1) == 0 {
				s := int32(bits.TrailingZeros64(cv.c))
				if in.op == IUDiv {
					return Val{v: vLshrC(av, s, w)}, nil
				}
				return Val{v: vAnd(av, C(cv.c-1), w)}, nil
			}
			if k, ls, ok := st.linOf(av, w); ok {
				// all coefficients divisible
				d := int64(cv.c)
				all := true
				for _, l := range ls {
					if int64(l.c)%d != 0 {
						all = false
					}
				}
				if all {
					r := ((k % d) + d) % d
					if in.op == IURem {
						return cV(uint64(r)), nil
					}
					acc := &linAcc{w: w, k: uint64((k - r) / d)}
					for _, l := range ls {
						acc.add(T(l.t), l.t.w, uint64(int64(l.c)/d))
					}
					return Val{v: mkSum(acc.k, acc.ls, w)}, nil
				}
			}
			if ps := x.need(st, av, w, 64); ps != nil {
				return Val{}, ps
			}
		}
		op := OpUDiv
		if in.op == IURem {
			op = OpURem
		}
		return Val{v: mkOp(op, w, widthV(av, w), widthV(cv, w))}, nil
	case ISDiv, ISRem:
		_, h1 := vRange(av, w, st)
		_, h2 := vRange(cv, w, st)
		half := int64(1) << uint(min32(w-1, 61))
		if h1 < half && h2 < half {
			in2 := *in
			if in.op == ISDiv {
				in2.op = IUDiv
			} else {
				in2.op = IURem
			}
			return x.bin(st, &in2, Val{v: av}, Val{v: cv})
		}
		op := OpSDiv
		if in.op == ISRem {
			op = OpSRem
		}
		return Val{v: mkOp(op, w, widthV(av, w), widthV(cv, w))}, nil
	}
	panic("bin")
}

// nswCheck reports a signed addition that overflows for every value.
func (x *X) nswCheck(st *State, a, b V, w int32, sgn int64) {
	ka, la, ok := st.slinOf(a, w)
	if !ok {
		return
	}
	kb, lb, ok := st.slinOf(b, w)
	if !ok {
		return
	}
	if sgn < 0 {
		kb = -kb
		lb = negLin(lb)
	}
	k, ls, _ := combineLin(ka+kb, append(append([]Lin{}, la...), lb...))
	lo, hi := exactRange(k, ls, 64, st)
	if !lo.IsInt64() || !hi.IsInt64() || w > 62 {
		return
	}
	half := int64(1) << uint(w-1)
	if lo.Int64() >= half || hi.Int64() < -half {
		x.event(st, "ub", "signed overflow")
	}
}

func min32(a, b int32) int32 {
	if a < b {
		return a
	}
	return b
}

func (st *State) sext(v V, w, W int32) V {
	if v.t == nil {
		return C(uint64(signed(v.c&mask(w), w)) & mask(W))
	}
	if w == W {
		return v
	}
	if w <= 62 {
		if _, hi := vRange(v, w, st); hi < int64(1)<<uint(w-1) {
			return zextPlain(v, w, W)
		}
	}
	if k, ls, ok := st.slinOf(v, w); ok {
		acc := &linAcc{w: W, k: uint64(k)}
		for _, l := range ls {
			acc.add(T(l.t), l.t.w, l.c)
		}
		return mkSum(acc.k, acc.ls, W)
	}
	if v.t.op == OpCase {
		return st.caseMap(v.t, W, func(e V) V { return st.sext(e, w, W) })
	}
	s := T(cons(&Term{op: OpSext, w: W, args: []*Term{v.t}}))
	segs := append([]Seg{}, segsOf(v, w)...)
	segs = append(segs, segsRange(segsOf(s, W), w, W-w)...)
	return fromSegs(segs)
}

func icmpC(pred string, a, b uint64, w int32) uint64 {
	a &= mask(w)
	b &= mask(w)
	r := false
	switch pred {
	case "eq":
		r = a == b
	case "ne":
		r = a != b
	case "ult":
		r = a < b
	case "ule":
		r = a <= b
	case "ugt":
		r = a > b
	case "uge":
		r = a >= b
	case "slt":
		r = signed(a, w) < signed(b, w)
	case "sle":
		r = signed(a, w) <= signed(b, w)
	case "sgt":
		r = signed(a, w) > signed(b, w)
	case "sge":
		r = signed(a, w) >= signed(b, w)
	}
	if r {
		return 1
	}
	return 0
}

func (x *X) icmp(st *State, pred string, a, b Val, w int32) V {
	if a.r != nil || b.r != nil || isPtrTerm(a.v) || isPtrTerm(b.v) {
		if a.r == nil {
			a = termVal(a.v)
		}
		if b.r == nil {
			b = termVal(b.v)
		}
		if a.r != b.r {
			switch pred {
			case "eq":
				return C(0)
			case "ne":
				return C(1)
			}
			// null is below every object
			if a.r == nil && a.v.t == nil && a.v.c == 0 || b.r == nil && b.v.t == nil && b.v.c == 0 {
				return C(icmpC(pred, b2u(a.r != nil), b2u(b.r != nil), 64))
			}
			unknown("ordering of unrelated pointers at %s", x.where())
		}
		return x.icmp(st, pred, Val{v: a.v}, Val{v: b.v}, 64)
	}
	if a.v.t != nil && a.v.t.op == OpFn || b.v.t != nil && b.v.t.op == OpFn {
		if a.v == b.v {
			return C(icmpC(pred, 0, 0, 64))
		}
		if pred == "eq" {
			return C(0)
		}
		return C(1)
	}
	switch pred {
	case "eq":
		return st.eqV(a.v, b.v, w)
	case "ne":
		return vXor(st.eqV(a.v, b.v, w), C(1), 1)
	case "ult":
		return st.ultV(a.v, b.v, w)
	case "ugt":
		return st.ultV(b.v, a.v, w)
	case "uge":
		return vXor(st.ultV(a.v, b.v, w), C(1), 1)
	case "ule":
		return vXor(st.ultV(b.v, a.v, w), C(1), 1)
	case "slt":
		return st.sltV(a.v, b.v, w)
	case "sgt":
		return st.sltV(b.v, a.v, w)
	case "sge":
		return vXor(st.sltV(a.v, b.v, w), C(1), 1)
	case "sle":
		return vXor(st.sltV(b.v, a.v, w), C(1), 1)
	}
	panic("icmp")
}

func isPtrTerm(v V) bool { return v.t != nil && v.t.op == OpPtr }
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---------- memory

// chk verifies an access of n bytes at constant offset.
func (x *X) chk(st *State, r *Region, off int64, n int64, write bool) *RegMem {
	x.accesses++
	rm := st.mem[r]
	if rm == nil {
		x.event(st, "oob", "access to dead object %s", r.name)
		unknown("dead object")
	}
	if r.noacc && n > 0 {
		x.event(st, "noacc", "%s of %s: %s", rw(write), r.name, r.why)
	}
	if write && r.ro && n > 0 {
		x.event(st, "rowrite", "write to %s: %s", r.name, r.why)
	}
	if r.size.t == nil {
		if off < 0 || off+n > int64(r.size.c) {
			x.event(st, "oob", "%s of %d byte(s) at offset %d of %s, which has %d bytes", rw(write), n, off, r.name, r.size.c)
			unknown("out of bounds access")
		}
	}
	return rm
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func (x *X) badPtr(st *State, p Val, write bool) {
	v := st.simp(p.v)
	if v.t == nil {
		x.event(st, "oob", "%s through an invalid pointer (%#x)", rw(write), v.c)
	} else if v.t.fl&FJunk != 0 {
		x.event(st, "uninit", "%s through an uninitialised pointer %s", rw(write), junkName(v.t, 0))
	} else {
		x.event(st, "badptr", "%s through an unresolved pointer %s", rw(write), v)
	}
	unknown("unresolved pointer %s at %s", v, x.where())
}

func (x *X) loadC(st *State, r *Region, off int64, ty *Type) Val {
	n := int64(ty.size)
	if r.size.t != nil {
		return x.loadSym(st, r, C(uint64(off)), ty)
	}
	rm := x.chk(st, r, off, n, false)
	if x.onLoad != nil {
		x.onLoad(st, r, C(uint64(off)), n, x.cur)
	}
	po := off % pageSz
	p := rm.pages[off/pageSz]
	var buf [8]Cell
	var cs []Cell
	if p != nil && po+n <= pageSz {
		cs = p.cells[po : po+n]
	} else if n <= 8 {
		for i := int64(0); i < n; i++ {
			buf[i] = st.cell(rm, off+i)
		}
		cs = buf[:n]
	} else {
		unknown("wide load")
	}
	if cs[0].t == nil {
		c := uint64(0)
		i := 0
		for ; i < len(cs); i++ {
			if cs[i].t != nil {
				break
			}
			c |= uint64(cs[i].c) << uint(8*i)
		}
		if i == len(cs) {
			if ty.k == TInt && ty.bits < 8*ty.size {
				c &= mask(int32(ty.bits))
			}
			return cV(c)
		}
	}
	v := cellsV(cs)
	if ty.k == TInt && ty.bits < 8*ty.size {
		v = slice(v, int32(8*ty.size), 0, int32(ty.bits))
	}
	if v.t != nil {
		v = fold(v)
		if len(st.facts) > 0 {
			v = st.simp(v)
		}
	}
	if ty.k == TPtr || n == 8 {
		return termVal(v)
	}
	return Val{v: v}
}

func (x *X) storeC(st *State, r *Region, off int64, v Val, ty *Type) {
	n := int64(ty.size)
	if r.size.t != nil {
		x.event(st, "rowrite", "write to %s: %s", r.name, r.why)
		unknown("write to symbolic-size region")
	}
	x.chk(st, r, off, n, true)
	if x.onStore != nil {
		x.onStore(st, r, C(uint64(off)), n, x.cur)
	}
	rm := st.wmem(r)
	if v.r == nil && v.v.t == nil {
		c := v.v.c
		for i := int64(0); i < n; i++ {
			p := st.wpage(rm, off+i)
			p.cells[(off+i)%pageSz] = Cell{c: uint8(c >> uint(8*i))}
		}
		return
	}
	var buf [8]Cell
	vt := valTerm(v)
	w := int32(8 * n)
	if ty.k == TInt && ty.bits < ty.size*8 {
		vt = zextPlain(vt, int32(ty.bits), w)
	}
	for i, c := range vCells(vt, w, buf[:0]) {
		p := st.wpage(rm, off+int64(i))
		p.cells[(off+int64(i))%pageSz] = c
	}
}

func (x *X) resolve(st *State, p Val, write bool) (Val, *needSplit) {
	if p.r == nil {
		v := st.simp(p.v)
		if v.t != nil && v.t.op == OpCase {
			if ns := x.caseSplit(st, v.t); ns != nil {
				return p, ns
			}
		}
		q := termVal(v)
		if q.r == nil {
			x.badPtr(st, p, write)
		}
		p = q
	}
	if p.v.t != nil {
		p.v = st.simp(p.v)
		if p.v.t != nil {
			x.checkFlags(st, p.v, "memory address")
		}
	}
	return p, nil
}

func (x *X) load(st *State, p Val, ty *Type) (Val, *needSplit) {
	p, ns := x.resolve(st, p, false)
	if ns != nil {
		return p, ns
	}
	if p.v.t == nil {
		return x.loadC(st, p.r, int64(p.v.c), ty), nil
	}
	if p.r.size.t != nil {
		return x.loadSym(st, p.r, p.v, ty), nil
	}
	if ns := x.need(st, p.v, 64, 600); ns != nil {
		return p, ns
	}
	unknown("load at symbolic offset %s of %s at %s", p.v, p.r.name, x.where())
	return p, nil
}

func (x *X) store(st *State, p, v Val, ty *Type) *needSplit {
	p, ns := x.resolve(st, p, true)
	if ns != nil {
		return ns
	}
	if p.v.t == nil {
		x.storeC(st, p.r, int64(p.v.c), v, ty)
		return nil
	}
	if ns := x.need(st, p.v, 64, 600); ns != nil {
		return ns
	}
	unknown("store at symbolic offset %s of %s at %s", p.v, p.r.name, x.where())
	return nil
}

// loadSym reads from a region of symbolic size (a message).
func (x *X) loadSym(st *State, r *Region, off V, ty *Type) Val {
	if r.noacc {
		x.event(st, "noacc", "read of %s: %s", r.name, r.why)
	}
	if x.onLoad != nil {
		x.onLoad(st, r, off, int64(ty.size), x.cur)
	}
	x.symBounds(st, r, off, C(uint64(ty.size)))
	var cs []Cell
	for i := 0; i < ty.size; i++ {
		o := vAdd(off, C(uint64(i)), 64)
		t := &Term{op: OpByteAt, w: 8, reg: r, fl: FMsg}
		if x.native {
			t.fl = FData
		}
		if o.t == nil {
			t.k = int64(o.c)
		} else {
			t.args = []*Term{o.t}
		}
		cs = append(cs, Cell{t: cons(t)})
	}
	v := cellsV(cs)
	return Val{v: v}
}

// symBounds checks off+n <= size for a symbolic-size region.
func (x *X) symBounds(st *State, r *Region, off, n V) {
	x.accesses++
	end := vAdd(off, n, 64)
	ok := vXor(st.ultV(r.size, end, 64), C(1), 1)
	ok = st.simp(ok)
	if ok.t == nil && ok.c == 1 {
		return
	}
	if ok.t == nil {
		x.event(st, "oob", "read of %s beyond its %s bytes (end %s)", r.name, r.size, end)
		return
	}
	// the size is an input ranging freely within the facts: a value breaking
	// the bound exists whenever the condition is not implied
	if r.size.t.op == OpVar && (end.t == nil || end.t.op == OpVar || end.t.op == OpSum) {
		x.event(st, "oob?", "read of %s up to %s not implied by its length %s", r.name, end, r.size)
	}
}

// tick enforces the time and memory budget of the analysis process.
func (x *X) tick() {
	x.ticks++
	if x.ticks&0xff != 0 && (x.soft.IsZero() || x.ticks&3 != 0) {
		return
	}
	if !jobDeadline.IsZero() && time.Now().After(jobDeadline) {
		unknown("time budget of the analysis exhausted")
	}
	if !x.soft.IsZero() && time.Now().After(x.soft) {
		unknown("time budget of this attempt exhausted")
	}
	if termLimit > 0 && liveTerms+newTerms > int(termLimit) {
		unknown("memory budget of the analysis exhausted (%d terms)", liveTerms+newTerms)
	}
}

// aligned checks an access against the alignment its object is known to have.
func (x *X) aligned(st *State, p Val, in *Instr) {
	if p.r == nil || p.r.algn == 0 || in.algn <= 1 {
		return
	}
	a := int64(in.algn)
	if p.r.algn%a != 0 {
		x.event(st, "misaligned", "access to %s, which has no particular alignment, assumes a multiple of %d", p.r.name, a)
	} else if p.v.t == nil && int64(p.v.c)%a != 0 {
		x.event(st, "misaligned", "access at offset %d of %s assumes a multiple of %d", int64(p.v.c), p.r.name, a)
	}
}
