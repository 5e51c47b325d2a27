package main

// Abstract state: byte-granular memory with copy-on-write pages, interval
// facts about terms, call frames.

import (
	"fmt"
	"math/bits"
	"sort"
)

type unkErr string

func unknown(f string, a ...interface{}) { panic(unkErr(fmt.Sprintf(f, a...))) }

// Val is a register value: a bit vector, or (r != nil) a pointer into a
// region with byte offset v.
type Val struct {
	v V
	r *Region
}

func cV(c uint64) Val             { return Val{v: V{c: c}} }
func ptrV(r *Region, o int64) Val { return Val{v: V{c: uint64(o)}, r: r} }

type Config struct {
	name                                string
	L5, L3, SHAKE, SHA2, S, sha2o, shko int
}

type Cell struct {
	t  *Term
	lo int32
	c  uint8
}

const pageSz = 64

type Page struct {
	owner uint32
	cells [pageSz]Cell
}

type Region struct {
	name  string
	id    int
	size  V    // bytes
	ro    bool // writing is a violation
	code  bool
	noacc bool   // any access is a violation (dangling or forbidden)
	why   string // reason for ro / noacc
	lazy  *Term  // initial content when pages are missing (wide atom), nil: symbolic by OpByteAt
	kind  string
	algn  int64 // alignment the object is known to have, 0: not considered
}

type RegMem struct {
	owner uint32
	pages []*Page
	def   *Term // atom whose slice at 8*off is the default content
}

type Fact struct {
	t   *Term
	ivs []IV
}

type Frame struct {
	fn     *Func
	regs   []Val
	owner  uint32
	locals []*Region
	site   *Instr
}

type State struct {
	id     uint32
	mem    map[*Region]*RegMem
	memOwn bool
	facts  []Fact
	frames []*Frame
	ret    Val
	cnt    V // hash computations so far (where counted)
	// access log used by the buffer contracts: highest/lowest offsets
	// written and read per region of interest
	tag string
}

var stateCount uint32
var regionCount int

func newRegion(name string, size V) *Region {
	regionCount++
	return &Region{name: name, id: regionCount, size: size, algn: 1}
}

func newState() *State {
	stateCount++
	return &State{id: stateCount, mem: map[*Region]*RegMem{}, memOwn: true}
}

func (s *State) fork() *State {
	stateCount++
	n := &State{id: stateCount, mem: s.mem, facts: s.facts, ret: s.ret, cnt: s.cnt, tag: s.tag}
	stateCount++
	s.id = stateCount
	s.memOwn = false
	n.memOwn = false
	n.frames = append([]*Frame{}, s.frames...)
	s.facts = s.facts[:len(s.facts):len(s.facts)]
	n.facts = s.facts
	return n
}

func (s *State) top() *Frame {
	f := s.frames[len(s.frames)-1]
	if f.owner != s.id {
		nf := &Frame{fn: f.fn, owner: s.id, locals: f.locals[:len(f.locals):len(f.locals)], site: f.site}
		nf.regs = append([]Val{}, f.regs...)
		s.frames[len(s.frames)-1] = nf
		f = nf
	}
	return f
}

func (s *State) ownMap() {
	if !s.memOwn {
		m := make(map[*Region]*RegMem, len(s.mem)+8)
		for k, v := range s.mem {
			m[k] = v
		}
		s.mem = m
		s.memOwn = true
	}
}

func (s *State) addRegion(r *Region, def *Term) {
	s.ownMap()
	n := int64(0)
	if r.size.t == nil {
		n = int64(r.size.c)
	}
	s.mem[r] = &RegMem{owner: s.id, pages: make([]*Page, (n+pageSz-1)/pageSz), def: def}
}

func (s *State) delRegion(r *Region) {
	s.ownMap()
	delete(s.mem, r)
}

func (s *State) cell(rm *RegMem, off int64) Cell {
	p := rm.pages[off/pageSz]
	if p == nil {
		return Cell{t: rm.def, lo: int32(8 * off)}
	}
	return p.cells[off%pageSz]
}

func (s *State) wmem(r *Region) *RegMem {
	rm := s.mem[r]
	if rm == nil {
		return nil
	}
	if rm.owner != s.id {
		s.ownMap()
		nr := &RegMem{owner: s.id, pages: append([]*Page{}, rm.pages...), def: rm.def}
		s.mem[r] = nr
		rm = nr
	}
	return rm
}

func (s *State) wpage(rm *RegMem, off int64) *Page {
	i := off / pageSz
	p := rm.pages[i]
	if p == nil {
		p = &Page{owner: s.id}
		for j := range p.cells {
			p.cells[j] = Cell{t: rm.def, lo: int32(8 * (i*pageSz + int64(j)))}
		}
		rm.pages[i] = p
	} else if p.owner != s.id {
		np := &Page{owner: s.id, cells: p.cells}
		p = np
		rm.pages[i] = p
	}
	return p
}

func cellV(c Cell) V {
	if c.t == nil {
		return C(uint64(c.c))
	}
	return slice(T(c.t), c.t.w, c.lo, 8)
}

func vCells(v V, w int32, out []Cell) []Cell {
	n := w / 8
	if v.t == nil {
		for i := int32(0); i < n; i++ {
			if i >= 8 {
				out = append(out, Cell{})
			} else {
				out = append(out, Cell{c: uint8(v.c >> uint(8*i))})
			}
		}
		return out
	}
	if v.t.op == OpCat {
		// resolve byte-aligned segments directly, so that copied bytes keep
		// naming the atom they come from
		pos := int32(0)
		i := int32(0)
		for _, s := range v.t.segs {
			for i < n && 8*i >= pos && 8*i+8 <= pos+s.n {
				o := 8*i - pos
				if s.p == nil {
					out = append(out, Cell{c: uint8(s.c >> uint(o))})
				} else if s.p.one && s.c == 0 && s.p.mons[0][0].t.op != OpSum {
					sl := s.p.mons[0][0]
					out = append(out, Cell{t: sl.t, lo: sl.lo + o})
				} else {
					b := fromSegs(segsRange(v.t.segs, 8*i, 8))
					if b.t == nil {
						out = append(out, Cell{c: uint8(b.c)})
					} else {
						out = append(out, Cell{t: b.t})
					}
				}
				i++
			}
			if i < n && 8*i < pos+s.n { // straddles
				b := fromSegs(segsRange(v.t.segs, 8*i, 8))
				if b.t == nil {
					out = append(out, Cell{c: uint8(b.c)})
				} else {
					out = append(out, Cell{t: b.t})
				}
				i++
				for i < n && false {
				}
			}
			pos += s.n
		}
		return out
	}
	for i := int32(0); i < n; i++ {
		out = append(out, Cell{t: v.t, lo: 8 * i})
	}
	return out
}

// cellsV assembles bytes (first = least significant) into a value.
func cellsV(cs []Cell) V {
	w := int32(8 * len(cs))
	if len(cs) <= 8 {
		allc := true
		c := uint64(0)
		for i, x := range cs {
			if x.t != nil {
				allc = false
				break
			}
			c |= uint64(x.c) << uint(8*i)
		}
		if allc {
			return C(c)
		}
	}
	var segs []Seg
	for i := 0; i < len(cs); {
		x := cs[i]
		j := i + 1
		if x.t == nil {
			c := uint64(x.c)
			for j < len(cs) && j-i < 8 && cs[j].t == nil {
				c |= uint64(cs[j].c) << uint(8*(j-i))
				j++
			}
			segs = append(segs, Seg{n: int32(8 * (j - i)), c: c})
			i = j
			continue
		}
		for j < len(cs) && cs[j].t == x.t && cs[j].lo == x.lo+int32(8*(j-i)) {
			j++
		}
		n := int32(8 * (j - i))
		if x.lo == 0 && n == x.t.w {
			if n == w {
				return T(x.t)
			}
			segs = append(segs, segsOf(T(x.t), n)...)
		} else {
			segs = append(segs, segsOf(slice(T(x.t), x.t.w, x.lo, n), n)...)
		}
		i = j
	}
	return fromSegs(segs)
}

// ---------- facts

func (s *State) factOf(t *Term) []IV {
	for i := range s.facts {
		if s.facts[i].t == t {
			return s.facts[i].ivs
		}
	}
	return nil
}

func (s *State) factRange(t *Term) (int64, int64, bool) {
	f := s.factOf(t)
	if len(f) == 0 {
		return 0, 0, false
	}
	return f[0].lo, f[len(f)-1].hi, true
}

func (s *State) ivsOf(t *Term) []IV {
	b := []IV{{}}
	b[0].lo, b[0].hi = baseRangeSt(t, s)
	if f := s.factOf(t); f != nil {
		return isectIVs(b, f)
	}
	return b
}

// addFact restricts a term; false if the state becomes infeasible.
func (s *State) addFact(t *Term, ivs []IV) bool {
	cur := s.ivsOf(t)
	n := isectIVs(cur, ivs)
	if len(n) == 0 {
		return false
	}
	nf := make([]Fact, 0, len(s.facts)+1)
	for _, f := range s.facts {
		if f.t != t {
			nf = append(nf, f)
		}
	}
	s.facts = append(nf, Fact{t, n})
	if t.w == 1 && len(n) == 1 && n[0].lo == 1 && n[0].hi == 1 {
		switch t.op {
		case OpIn:
			return s.addFact(t.args[0], t.ivs)
		case OpCat:
			if len(t.segs) == 1 && t.segs[0].c == 0 && t.segs[0].p != nil && len(t.segs[0].p.mons) == 1 {
				for _, x := range t.segs[0].p.mons[0] {
					xt := slice(T(x.t), x.t.w, x.lo, 1)
					if xt.t != nil && xt.t != t {
						if !s.addFact(xt.t, []IV{{1, 1}}) {
							return false
						}
					}
				}
			}
		}
	}
	if t.w == 1 && t.op == OpIn && len(n) == 1 && n[0].lo == 0 && n[0].hi == 0 {
		return s.addFact(t.args[0], subIVs(baseIVs(t.args[0]), t.ivs))
	}
	return true
}

// linear facts are stored under OpLin terms with signed 64-bit coefficients,
// first coefficient positive.
func normLin(ls []Lin) (*Term, bool) {
	neg := int64(ls[0].c) < 0
	out := make([]Lin, len(ls))
	for i, l := range ls {
		c := l.c
		if neg {
			c = -c
		}
		out[i] = Lin{c, l.t}
	}
	return cons(&Term{op: OpLin, w: 64, lin: out}), neg
}

func (s *State) linFact(ls []Lin, w int32) (int64, int64, bool) {
	if len(ls) < 2 || len(ls) > 6 || len(s.facts) == 0 {
		return 0, 0, false
	}
	any := false
	for i := range s.facts {
		if s.facts[i].t.op == OpLin {
			any = true
		}
	}
	if !any {
		return 0, 0, false
	}
	o := make([]Lin, len(ls))
	for i, l := range ls {
		o[i] = Lin{uint64(signed(l.c, w)), l.t}
	}
	t, neg := normLin(o)
	lo, hi, ok := s.factRange(t)
	if !ok {
		return 0, 0, false
	}
	if neg {
		return -hi, -lo, true
	}
	return lo, hi, true
}

// linOf expresses v exactly (no wrap-around) as k + sum c*t.
func (s *State) linOf(v V, w int32) (int64, []Lin, bool) {
	if v.t == nil {
		c := v.c & mask(w)
		if c >= uint64(maxI) {
			return 0, nil, false
		}
		return int64(c), nil, true
	}
	t := v.t
	switch t.op {
	case OpSum:
		if len(t.lin) > 16 {
			break
		}
		lo, hi, ok := sumRange(t, s)
		if !ok {
			break
		}
		k := signed(uint64(t.k), w)
		ls := make([]Lin, len(t.lin))
		for i, l := range t.lin {
			ls[i] = Lin{uint64(signed(l.c, w)), l.t}
		}
		// sumRange accepted either the signed or the unsigned reading of k
		a, b := exactRange(k, ls, 64, s)
		_ = lo
		_ = hi
		if a.Sign() < 0 || b.Cmp(bigMax) > 0 {
			// facts may have made it non-negative, or k is unsigned
			if k < 0 && w < 62 && b.Sign() < 0 {
				k += int64(1) << uint(w)
			}
		}
		return k, ls, true
	case OpCat:
		k := int64(0)
		var ls []Lin
		pos := int32(0)
		for _, sg := range t.segs {
			if sg.p == nil {
				if sg.c != 0 {
					if pos+int32(bits.Len64(sg.c)) > 61 {
						return 0, nil, false
					}
					k += int64(sg.c) << uint(pos)
				}
				pos += sg.n
				continue
			}
			if pos+sg.n > 62 {
				return 0, nil, false
			}
			c := int64(1) << uint(pos)
			x := sg
			if sg.c == mask(sg.n) && sg.n < 62 {
				k += c * int64(mask(sg.n))
				c = -c
				x = Seg{n: sg.n, p: sg.p}
			}
			if len(t.segs) == 1 && x == sg {
				ls = append(ls, Lin{uint64(c), t})
			} else {
				sv := fromSeg1(x)
				if sv.t == nil {
					k += c * int64(sv.c)
				} else {
					k2, l2, ok := s.linOf(sv, x.n)
					if !ok {
						return 0, nil, false
					}
					k += c * k2
					for _, l := range l2 {
						ls = append(ls, Lin{uint64(c * int64(l.c)), l.t})
					}
				}
			}
			pos += sg.n
		}
		return combineLin(k, ls)
	case OpPtr, OpFn:
		return 0, nil, false
	}
	if _, hi := termRange(t, s); hi >= maxI {
		return 0, nil, false
	}
	return 0, []Lin{{1, t}}, true
}

func combineLin(k int64, ls []Lin) (int64, []Lin, bool) {
	if len(ls) > 1 {
		sort.Slice(ls, func(i, j int) bool { return ls[i].t.id < ls[j].t.id })
	}
	var out []Lin
	for i := 0; i < len(ls); {
		c := uint64(0)
		j := i
		for j < len(ls) && ls[j].t == ls[i].t {
			c += ls[j].c
			j++
		}
		if c != 0 {
			out = append(out, Lin{c, ls[i].t})
		}
		i = j
	}
	return k, out, true
}

// linSet: the condition lo <= k + sum(ls) <= hi as a 1-bit value.
func (s *State) linSet(k int64, ls []Lin, lo, hi int64) V {
	if lo > -maxI {
		lo -= k
	}
	if hi < maxI {
		hi -= k
	}
	if len(ls) == 0 {
		if lo <= 0 && 0 <= hi {
			return C(1)
		}
		return C(0)
	}
	var t *Term
	c := int64(1)
	if len(ls) == 1 {
		t = ls[0].t
		c = int64(ls[0].c)
	} else {
		// divide by the gcd of the coefficients
		nt, neg := normLin(ls)
		t = nt
		if neg {
			c = -1
		}
	}
	if c < 0 {
		c = -c
		lo, hi = -hi, -lo
	}
	if lo > -maxI {
		lo = ceilDiv(lo, c)
	}
	if hi < maxI {
		hi = floorDiv(hi, c)
	}
	if lo > hi {
		return C(0)
	}
	return s.inSet(t, []IV{{lo, hi}})
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func (s *State) inSet(t *Term, ivs []IV) V {
	cur := s.ivsOf(t)
	in := isectIVs(cur, ivs)
	if len(in) == 0 {
		return C(0)
	}
	if len(subIVs(cur, in)) == 0 {
		return C(1)
	}
	return mkIn(t, ivs)
}

// ---------- comparisons

func (s *State) eqV(a, b V, w int32) V {
	a, b = s.simp(a), s.simp(b)
	if a.t == nil && b.t == nil {
		if (a.c^b.c)&mask(w) == 0 {
			return C(1)
		}
		return C(0)
	}
	if a == b {
		return C(1)
	}
	if a.t == nil {
		a, b = b, a
	}
	if b.t == nil {
		if a.t.op == OpCase {
			return s.caseMap(a.t, 1, func(x V) V { return s.eqV(x, b, w) })
		}
		if a.t.op == OpOrN && b.c == 0 {
			r := C(1)
			for _, x := range a.t.args {
				r = vAnd(r, s.eqV(termV(x), C(0), w), 1)
			}
			return r
		}
	} else if a.t.op == OpCase && a.t.args[0].w < 62 && len(a.t.ents) <= 64 && caseConst(a.t) {
		return s.caseMap(a.t, 1, func(x V) V { return s.eqV(b, x, w) })
	} else if b.t.op == OpCase && caseConst(b.t) {
		return s.caseMap(b.t, 1, func(x V) V { return s.eqV(a, x, w) })
	}
	hasSum := a.t.op == OpSum || b.t != nil && b.t.op == OpSum
	if !hasSum && (b.t == nil || true) {
		hasSum = catHasSum(a) || catHasSum(b)
	}
	ka, la, ok1 := s.linOf(a, w)
	kb, lb, ok2 := s.linOf(b, w)
	if ok1 && ok2 {
		k, ls, _ := combineLin(ka-kb, append(append([]Lin{}, la...), negLin(lb)...))
		if len(ls) <= 1 || hasSum {
			return s.linSet(k, ls, 0, 0)
		}
		if len(ls) == 2 {
			if r := s.linSet(k, ls, 0, 0); r.t == nil {
				return r
			}
		}
	} else if hasSum {
		d := vSub(a, b, w)
		if d.t == nil {
			if d.c&mask(w) == 0 {
				return C(1)
			}
			return C(0)
		}
		return T(cons(&Term{op: OpIn, w: 1, args: []*Term{d.t}, ivs: []IV{{0, 0}}}))
	}
	segs := bitop(segsOf(a, w), segsOf(b, w), '^')
	r := C(1)
	for _, x := range segs {
		if x.p == nil {
			if x.c != 0 {
				return C(0)
			}
			continue
		}
		ys := []Seg{x}
		if x.n > 8 && x.n%8 == 0 && wideXor(x.p) {
			// equality of byte strings: byte by byte
			ys = nil
			for o := int32(0); o < x.n; o += 8 {
				ys = append(ys, segSub(x, o, 8)...)
			}
		}
		for _, y := range ys {
			r = vAnd(r, s.segIs(y), 1)
		}
		if r.t == nil && r.c == 0 {
			return r
		}
	}
	return r
}

func wideXor(p *Poly) bool {
	if len(p.mons) < 2 {
		return false
	}
	for _, m := range p.mons {
		if len(m) != 1 || m[0].t.w <= 64 {
			return false
		}
	}
	return true
}

func catHasSum(a V) bool {
	if a.t == nil {
		return false
	}
	if a.t.op == OpSum {
		return true
	}
	if a.t.op == OpCat {
		for _, x := range a.t.segs {
			if x.p != nil && x.p.one && x.p.mons[0][0].t.op == OpSum {
				return true
			}
		}
	}
	return false
}

// segIs: the condition that a segment is zero.
func (s *State) segIs(x Seg) V {
	if x.n > 60 {
		y := fromSegs([]Seg{x})
		if y.t == nil {
			if y.c == 0 {
				return C(1)
			}
			return C(0)
		}
		return T(cons(&Term{op: OpIn, w: 1, args: []*Term{y.t}, ivs: []IV{{0, 0}}}))
	}
	y := fromSeg1(Seg{n: x.n, p: x.p})
	if y.t == nil {
		if y.c == x.c {
			return C(1)
		}
		return C(0)
	}
	return s.inSet(y.t, []IV{{int64(x.c), int64(x.c)}})
}

func negLin(l []Lin) []Lin {
	o := make([]Lin, len(l))
	for i := range l {
		o[i] = Lin{-l[i].c, l[i].t}
	}
	return o
}

func caseConst(t *Term) bool {
	for _, e := range t.ents {
		if e.v.t != nil {
			if e.v.t.op == OpCase && caseConst(e.v.t) {
				continue
			}
			return false
		}
	}
	return true
}

func (s *State) caseMap(t *Term, w int32, f func(V) V) V {
	ents := make([]CaseEnt, 0, len(t.ents))
	ivs := s.ivsOf(t.args[0])
	for _, e := range t.ents {
		if len(isectIVs(ivs, []IV{{e.lo, e.hi}})) == 0 {
			continue
		}
		ents = append(ents, CaseEnt{e.lo, e.hi, f(e.v)})
	}
	if len(ents) == 0 {
		return C(0)
	}
	return mkCase(t.args[0], ents, w)
}

func (s *State) ultV(a, b V, w int32) V {
	a, b = s.simp(a), s.simp(b)
	if a.t == nil && b.t == nil {
		if a.c&mask(w) < b.c&mask(w) {
			return C(1)
		}
		return C(0)
	}
	if a == b {
		return C(0)
	}
	if a.t != nil && a.t.op == OpCase && (b.t == nil || caseConst(a.t)) {
		return s.caseMap(a.t, 1, func(x V) V { return s.ultV(x, b, w) })
	}
	if b.t != nil && b.t.op == OpCase && (a.t == nil || caseConst(b.t)) {
		return s.caseMap(b.t, 1, func(x V) V { return s.ultV(a, x, w) })
	}
	// quick range decision
	al, ah := vRange(a, w, s)
	bl, bh := vRange(b, w, s)
	if ah < bl && ah < maxI {
		return C(1)
	}
	if al >= bh && bh < maxI {
		return C(0)
	}
	ka, la, ok1 := s.linOf(a, w)
	kb, lb, ok2 := s.linOf(b, w)
	if ok1 && ok2 {
		k, ls, _ := combineLin(ka-kb, append(append([]Lin{}, la...), negLin(lb)...))
		return s.linSet(k, ls, -maxI, -1)
	}
	// a sum c + x that may wrap, compared with a constant, x ranged
	if r, ok := s.wrapCmp(a, b, w); ok {
		return r
	}
	return mkOp(OpCmp, 1, widthV(a, w), widthV(b, w))
}

// wrapCmp decides a single-variable sum (k + c*t mod 2^w, |c| = 1) against a
// constant by splitting the variable's range at the wrap-around point.
func (s *State) wrapCmp(a, b V, w int32) (V, bool) {
	if w > 64 {
		return V{}, false
	}
	flip := false
	if a.t == nil {
		a, b = b, a
		flip = true
	}
	if b.t != nil || a.t.op != OpSum || len(a.t.lin) != 1 {
		return V{}, false
	}
	l := a.t.lin[0]
	c := signed(l.c, w)
	if c != 1 && c != -1 {
		return V{}, false
	}
	ivs := s.ivsOf(l.t)
	k := uint64(a.t.k) & mask(w)
	cb := b.c & mask(w)
	// the set of x (mod 2^w) with a < cb : [0, cb-1]; with a > cb: [cb+1, max]
	var lo, hi uint64
	if !flip {
		if cb == 0 {
			return C(0), true
		}
		lo, hi = 0, cb-1
	} else {
		if cb == mask(w) {
			return C(0), true
		}
		lo, hi = cb+1, mask(w)
	}
	var tlo, thi uint64
	if c == 1 { // t = x - k
		tlo, thi = (lo-k)&mask(w), (hi-k)&mask(w)
	} else { // t = k - x
		tlo, thi = (k-hi)&mask(w), (k-lo)&mask(w)
	}
	if len(ivs) == 0 || ivs[len(ivs)-1].hi >= maxI && w >= 62 {
		// representable part only
	}
	cl := func(x uint64) int64 {
		if x > uint64(maxI) {
			return maxI
		}
		return int64(x)
	}
	var set []IV
	if tlo <= thi {
		set = []IV{{cl(tlo), cl(thi)}}
	} else {
		set = []IV{{0, cl(thi)}, {cl(tlo), cl(mask(w))}}
	}
	return s.inSet(l.t, normIVs(set)), true
}

func widthV(v V, w int32) V {
	if v.t == nil {
		return T(constTerm(v.c, w))
	}
	return v
}

// signed comparison
func (s *State) sltV(a, b V, w int32) V {
	a, b = s.simp(a), s.simp(b)
	if a.t == nil && b.t == nil {
		if signed(a.c&mask(w), w) < signed(b.c&mask(w), w) {
			return C(1)
		}
		return C(0)
	}
	if a == b {
		return C(0)
	}
	if a.t != nil && a.t.op == OpCase && (b.t == nil || caseConst(a.t)) {
		return s.caseMap(a.t, 1, func(x V) V { return s.sltV(x, b, w) })
	}
	if b.t != nil && b.t.op == OpCase && (a.t == nil || caseConst(b.t)) {
		return s.caseMap(b.t, 1, func(x V) V { return s.sltV(a, x, w) })
	}
	ka, la, ok1 := s.slinOf(a, w)
	kb, lb, ok2 := s.slinOf(b, w)
	if ok1 && ok2 {
		k, ls, _ := combineLin(ka-kb, append(append([]Lin{}, la...), negLin(lb)...))
		return s.linSet(k, ls, -maxI, -1)
	}
	// flip the sign bits and compare unsigned
	sb := uint64(1) << uint(w-1)
	return s.ultV(vAdd(a, C(sb), w), vAdd(b, C(sb), w), w)
}

// slinOf: exact linear form of the signed reading.
func (s *State) slinOf(v V, w int32) (int64, []Lin, bool) {
	if v.t == nil {
		return signed(v.c&mask(w), w), nil, true
	}
	half := int64(1) << 61
	if w < 62 {
		half = int64(1) << uint(w-1)
	}
	if k, ls, ok := s.linOf(v, w); ok {
		if _, hi := vRange(v, w, s); hi < half {
			return k, ls, true
		}
	}
	if v.t.op == OpSum && len(v.t.lin) <= 16 {
		k := signed(uint64(v.t.k), w)
		lo, hi := exactRange(k, v.t.lin, w, s)
		if lo.IsInt64() && hi.IsInt64() && lo.Int64() >= -half && hi.Int64() < half {
			ls := make([]Lin, len(v.t.lin))
			for i, l := range v.t.lin {
				ls[i] = Lin{uint64(signed(l.c, w)), l.t}
			}
			return k, ls, true
		}
	}
	return 0, nil, false
}

// ---------- simplification under facts

func (s *State) simp(v V) V {
	if v.t == nil || len(s.facts) == 0 {
		return v
	}
	return s.simpT(v.t, 0)
}

func (s *State) single(t *Term) (V, bool) {
	f := s.factOf(t)
	if len(f) == 1 && f[0].lo == f[0].hi && t.op != OpLin {
		return C(uint64(f[0].lo)), true
	}
	return V{}, false
}

func (s *State) simpT(t *Term, d int) V {
	if r, ok := s.single(t); ok {
		return r
	}
	switch t.op {
	case OpCase:
		ivs := s.ivsOf(t.args[0])
		var ents []CaseEnt
		ch := false
		for _, e := range t.ents {
			if len(isectIVs(ivs, []IV{{e.lo, e.hi}})) == 0 {
				ch = true
				continue
			}
			nv := e.v
			if nv.t != nil && d < 6 && nv.t.fl&FCase != 0 && nv.t.op != OpHash {
				nv = s.simpT(nv.t, d+1)
				if nv != e.v {
					ch = true
				}
			}
			ents = append(ents, CaseEnt{e.lo, e.hi, nv})
		}
		if !ch || len(ents) == 0 {
			return T(t)
		}
		return mkCase(t.args[0], ents, t.w)
	case OpIn:
		a := t.args[0]
		if a.op != OpLin && a.fl&FCase != 0 {
			na := s.simpT(a, d+1)
			if na.t == nil {
				for _, iv := range t.ivs {
					if int64(na.c) >= iv.lo && int64(na.c) <= iv.hi {
						return C(1)
					}
				}
				return C(0)
			}
			if na.t != a {
				return mkIn(na.t, t.ivs)
			}
		}
		if len(s.facts) > 0 {
			cur := s.ivsOf(a)
			in := isectIVs(cur, t.ivs)
			if len(in) == 0 {
				return C(0)
			}
			if len(subIVs(cur, in)) == 0 {
				return C(1)
			}
		}
		return T(t)
	case OpCat:
		if d > 8 {
			return T(t)
		}
		ch := false
		var out []Seg
		for _, sg := range t.segs {
			if sg.p == nil {
				out = append(out, sg)
				continue
			}
			n := s.simpSeg(sg, t, d)
			if len(n) != 1 || n[0] != sg {
				ch = true
			}
			out = append(out, n...)
		}
		if !ch {
			return T(t)
		}
		return fromSegs(out)
	case OpSum:
		if d > 8 || len(t.lin) > 40 {
			return T(t)
		}
		ch := false
		acc := &linAcc{w: t.w, k: uint64(t.k)}
		for _, l := range t.lin {
			nv := s.simpT(l.t, d+1)
			if nv.t != l.t {
				ch = true
				acc.add(nv, l.t.w, l.c)
			} else {
				acc.ls = append(acc.ls, l)
			}
		}
		if !ch {
			return T(t)
		}
		return mkSum(acc.k, acc.ls, t.w)
	}
	return T(t)
}

func (s *State) simpSeg(sg Seg, whole *Term, d int) []Seg {
	ch := false
	var mons [][]V
	for _, m := range sg.p.mons {
		var vs []V
		for _, x := range m {
			xv := fromSegs(atomSlice(x.t, x.lo, sg.n))
			nv := xv
			if xv.t != nil {
				if xv.t != whole {
					if r, ok := s.single(xv.t); ok {
						nv = r
					}
				}
				if nv == xv && (x.t.op == OpIn || x.t.fl&FCase != 0 && (x.t.op == OpCase || x.t.op == OpSum) || x.t.op == OpSum && x.t.fl&FSplit != 0) {
					y := s.simpT(x.t, d+1)
					if y.t != x.t {
						nv = slice(y, x.t.w, x.lo, sg.n)
					}
				} else if nv == xv {
					if r, ok := s.single(x.t); ok {
						nv = slice(r, x.t.w, x.lo, sg.n)
					}
				}
			}
			if nv != xv {
				ch = true
			}
			vs = append(vs, nv)
		}
		mons = append(mons, vs)
	}
	if !ch {
		return []Seg{sg}
	}
	acc := []Seg{{n: sg.n, c: sg.c}}
	for _, vs := range mons {
		pr := []Seg{{n: sg.n, c: mask(sg.n)}}
		if len(vs) == 1 {
			pr = segsOf(vs[0], sg.n)
		} else {
			for _, v := range vs {
				pr = bitop(pr, segsOf(v, sg.n), '&')
			}
		}
		if len(mons) == 1 && sg.c == 0 {
			return pr
		}
		acc = bitop(acc, pr, '^')
	}
	return acc
}

// ---------- substitution of a discriminator by a value

type substMemo map[*Term]V

// substDisc: substitution also decides discriminators and set membership.
var substDisc bool

func inIVs(ivs []IV, c uint64) V {
	for _, iv := range ivs {
		if int64(c) >= iv.lo && int64(c) <= iv.hi {
			return C(1)
		}
	}
	return C(0)
}

func subst(v V, d *Term, c uint64, memo substMemo) V {
	if v.t == nil {
		return v
	}
	return substT(v.t, d, c, memo)
}

func substT(t *Term, d *Term, c uint64, memo substMemo) V {
	if t == d {
		return C(c)
	}
	// terms are built bottom-up: one older than the substituted atom cannot
	// contain it
	min := d.id
	if d.op == OpCat && len(d.segs) == 1 && d.segs[0].p != nil && d.segs[0].p.one {
		min = d.segs[0].p.mons[0][0].t.id
	}
	if t.id < min {
		return T(t)
	}
	switch t.op {
	case OpVar, OpJunk, OpUnk, OpFn:
		return T(t)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := substT1(t, d, c, memo)
	memo[t] = r
	return r
}

func substT1(t *Term, d *Term, c uint64, memo substMemo) V {
	switch t.op {
	case OpCat:
		ch := false
		var out []Seg
		for _, sg := range t.segs {
			if sg.p == nil {
				out = append(out, sg)
				continue
			}
			n := substSeg(sg, d, c, memo)
			if len(n) != 1 || n[0] != sg {
				ch = true
			}
			out = append(out, n...)
		}
		if !ch {
			return T(t)
		}
		return fromSegs(out)
	case OpSum:
		acc := &linAcc{w: t.w, k: uint64(t.k)}
		ch := false
		for _, l := range t.lin {
			nv := substT(l.t, d, c, memo)
			if nv.t == l.t {
				acc.ls = append(acc.ls, l)
			} else {
				ch = true
				acc.add(nv, l.t.w, l.c)
			}
		}
		if !ch {
			return T(t)
		}
		return mkSum(acc.k, acc.ls, t.w)
	case OpCase:
		if t.args[0] == d {
			for _, e := range t.ents {
				if e.lo <= int64(c) && int64(c) <= e.hi {
					return subst(e.v, d, c, memo)
				}
			}
			return T(t)
		}
		if substDisc {
			if k := substT(t.args[0], d, c, memo); k.t == nil {
				for _, e := range t.ents {
					if e.lo <= int64(k.c) && int64(k.c) <= e.hi {
						return subst(e.v, d, c, memo)
					}
				}
				return T(t)
			}
		}
		ch := false
		ents := make([]CaseEnt, len(t.ents))
		for i, e := range t.ents {
			nv := subst(e.v, d, c, memo)
			if nv != e.v {
				ch = true
			}
			ents[i] = CaseEnt{e.lo, e.hi, nv}
		}
		if !ch {
			return T(t)
		}
		return mkCase(t.args[0], ents, t.w)
	case OpIn:
		if substDisc {
			if k := substT(t.args[0], d, c, memo); k.t == nil {
				return inIVs(t.ivs, k.c)
			} else if k.t != t.args[0] {
				return mkIn(k.t, t.ivs)
			}
		}
	case OpHash, OpSeq, OpHst:
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			if a == nil {
				continue
			}
			nv := substT(a, d, c, memo)
			if nv.t != a {
				ch = true
				args[i] = seqArg(nv, a.w)
			} else {
				args[i] = a
			}
		}
		if !ch {
			return T(t)
		}
		return consHash(t.op, t.s, t.k, t.w, t.reg, args)
	}
	return T(t)
}

func substSeg(sg Seg, d *Term, c uint64, memo substMemo) []Seg {
	// does the segment contain a slice that overlaps the discriminator?
	var dt *Term
	var dlo, dn int32
	if d.op == OpCat && len(d.segs) == 1 && d.segs[0].p != nil && d.segs[0].p.one && d.segs[0].c == 0 {
		dt, dlo, dn = d.segs[0].p.mons[0][0].t, d.segs[0].p.mons[0][0].lo, d.segs[0].n
	} else {
		dt, dlo, dn = d, 0, d.w
	}
	ch := false
	acc := []Seg{{n: sg.n, c: sg.c}}
	for _, m := range sg.p.mons {
		pr := []Seg{{n: sg.n, c: mask(sg.n)}}
		for _, x := range m {
			var xs []Seg
			if x.t == dt && x.lo < dlo+dn && dlo < x.lo+sg.n {
				ch = true
				a, b := x.lo, x.lo+sg.n
				if a < dlo {
					xs = append(xs, atomSlice(dt, a, dlo-a)...)
					a = dlo
				}
				e := b
				if e > dlo+dn {
					e = dlo + dn
				}
				xs = append(xs, Seg{n: e - a, c: (c >> uint(a-dlo)) & mask(e-a)})
				if b > e {
					xs = append(xs, atomSlice(dt, e, b-e)...)
				}
			} else {
				nv := V{t: x.t}
				if x.t != dt {
					nv = substT(x.t, d, c, memo)
				}
				if nv.t != x.t {
					ch = true
					xs = segsOf(slice(nv, x.t.w, x.lo, sg.n), sg.n)
				} else {
					xs = []Seg{{n: sg.n, p: polySlice1(x.t, x.lo)}}
				}
			}
			if len(m) == 1 {
				pr = xs
			} else {
				pr = bitop(pr, xs, '&')
			}
		}
		if len(sg.p.mons) == 1 && sg.c == 0 {
			acc = pr
		} else {
			acc = bitop(acc, pr, '^')
		}
	}
	if !ch {
		return []Seg{sg}
	}
	return acc
}

// ---------- merging

type side struct {
	ivs []IV
	st  *State
}

// mergeCells combines the cell values of several sides.
func mergeCells(d *Term, sides []side, cells []Cell, memos []substMemo) Cell {
	// atoms at the same position become a slice of one wide Case
	same := true
	lo := cells[0].lo
	var minw int32 = 1 << 30
	for i, c := range cells {
		if c.t == nil || c.t.op == OpCat || c.t.op == OpSum || c.lo != lo {
			same = false
			break
		}
		if memos != nil && memos[i] != nil {
			nv := subst(T(c.t), d, uint64(sides[i].ivs[0].lo), memos[i])
			if nv.t == nil || nv.t.op == OpCat || nv.t.op == OpSum {
				same = false
				break
			}
			cells[i].t = nv.t
			c = cells[i]
		}
		if c.t.w < minw {
			minw = c.t.w
		}
	}
	if same {
		eq := true
		for _, c := range cells {
			if c.t != cells[0].t {
				eq = false
			}
		}
		if eq {
			return cells[0]
		}
		var ents []CaseEnt
		for i, c := range cells {
			v := atomLow(c.t, minw)
			for _, iv := range sides[i].ivs {
				ents = append(ents, CaseEnt{iv.lo, iv.hi, v})
			}
		}
		r := mkCase(d, ents, minw)
		if r.t != nil {
			return Cell{t: r.t, lo: lo}
		}
		return Cell{c: uint8(r.c >> uint(lo))}
	}
	var ents []CaseEnt
	for i, c := range cells {
		v := cellV(c)
		if memos != nil && memos[i] != nil {
			v = subst(v, d, uint64(sides[i].ivs[0].lo), memos[i])
		}
		for _, iv := range sides[i].ivs {
			ents = append(ents, CaseEnt{iv.lo, iv.hi, v})
		}
	}
	return vCell(mkCase(d, ents, 8))
}

// atomLow narrows an atom to its low w bits (pushing into Cases).
func atomLow(t *Term, w int32) V {
	if t.w == w {
		return T(t)
	}
	if t.op == OpCase {
		ents := make([]CaseEnt, len(t.ents))
		for i, e := range t.ents {
			if e.v.t == nil {
				ents[i] = e
			} else {
				ents[i] = CaseEnt{e.lo, e.hi, atomLow(e.v.t, w)}
			}
		}
		return mkCase(t.args[0], ents, w)
	}
	return slice(T(t), t.w, 0, w)
}

func vCell(v V) Cell {
	if v.t == nil {
		return Cell{c: uint8(v.c)}
	}
	if v.t.op == OpCat && len(v.t.segs) == 1 {
		s := v.t.segs[0]
		if s.p != nil && s.p.one && s.c == 0 && s.p.mons[0][0].t.op != OpSum {
			return Cell{t: s.p.mons[0][0].t, lo: s.p.mons[0][0].lo}
		}
	}
	return Cell{t: v.t}
}

func mergeVals(d *Term, sides []side, vs []Val, w int32, memos []substMemo) Val {
	eq := true
	for _, v := range vs {
		if v != vs[0] {
			eq = false
			break
		}
	}
	if eq {
		return vs[0]
	}
	reg := vs[0].r
	for _, v := range vs {
		if v.r != reg {
			reg = nil
			// different regions: a Case over pointer terms
			var ents []CaseEnt
			for i, v := range vs {
				for _, iv := range sides[i].ivs {
					ents = append(ents, CaseEnt{iv.lo, iv.hi, valTerm(v)})
				}
			}
			return Val{v: mkCase(d, ents, w)}
		}
	}
	var ents []CaseEnt
	for i, v := range vs {
		x := v.v
		if memos != nil && memos[i] != nil {
			x = subst(x, d, uint64(sides[i].ivs[0].lo), memos[i])
		}
		for _, iv := range sides[i].ivs {
			ents = append(ents, CaseEnt{iv.lo, iv.hi, x})
		}
	}
	return Val{v: mkCase(d, ents, w), r: reg}
}

// valTerm turns a value into a storable bit vector.
func valTerm(v Val) V {
	if v.r == nil {
		return v.v
	}
	if v.v.t == nil {
		return T(cons(&Term{op: OpPtr, w: 64, reg: v.r, k: int64(v.v.c)}))
	}
	return T(cons(&Term{op: OpPtr, w: 64, reg: v.r, args: []*Term{v.v.t}, fl: v.v.t.fl}))
}

func termVal(v V) Val {
	if v.t != nil && v.t.op == OpPtr {
		if len(v.t.args) == 0 {
			return Val{v: C(uint64(v.t.k)), r: v.t.reg}
		}
		return Val{v: T(v.t.args[0]), r: v.t.reg}
	}
	return Val{v: v}
}

// mergeStates joins the sides of a split on d.
func mergeStates(d *Term, sides []side, live []uint64, widths []int32) *State {
	base := sides[0].st
	out := base
	var memos []substMemo
	if d.w > 1 && d.op != OpLin {
		memos = make([]substMemo, len(sides))
		any := false
		for i, s := range sides {
			if len(s.ivs) == 1 && s.ivs[0].lo == s.ivs[0].hi {
				memos[i] = substMemo{}
				any = true
			}
		}
		if !any {
			memos = nil
		}
	}
	// registers of the top frame
	if len(base.frames) > 0 {
		fr := out.top()
		n := len(fr.regs)
		frs := make([]*Frame, len(sides))
		for i, s := range sides {
			frs[i] = s.st.frames[len(s.st.frames)-1]
		}
		vs := make([]Val, len(sides))
		for r := 0; r < n; r++ {
			if live != nil && live[r/64]>>uint(r%64)&1 == 0 {
				continue
			}
			diff := false
			for i := range sides {
				vs[i] = frs[i].regs[r]
				if vs[i] != vs[0] {
					diff = true
				}
			}
			if diff {
				fr.regs[r] = mergeVals(d, sides, vs, widths[r], memos)
			}
		}
	}
	{
		vs := make([]Val, len(sides))
		diff := false
		for i := range sides {
			vs[i] = sides[i].st.ret
			if vs[i] != vs[0] {
				diff = true
			}
		}
		if diff {
			out.ret = mergeVals(d, sides, vs, retWidth, memos)
		}
		diff = false
		for i := range sides {
			vs[i] = Val{v: sides[i].st.cnt}
			if vs[i] != vs[0] {
				diff = true
			}
		}
		if diff {
			out.cnt = mergeVals(d, sides, vs, 32, memos).v
		}
	}
	// memory
	var regs []*Region
	for r := range base.mem {
		regs = append(regs, r)
	}
	sort.Slice(regs, func(i, j int) bool { return regs[i].id < regs[j].id })
	cells := make([]Cell, len(sides))
	prevT := make([]*Term, len(sides))
	var prevLo int32
	var prevRes Cell
	for _, r := range regs {
		prevRes = Cell{}
		m0 := base.mem[r]
		diff := false
		ok := true
		for _, s := range sides[1:] {
			m := s.st.mem[r]
			if m == nil {
				ok = false
				break
			}
			if m != m0 {
				diff = true
			}
		}
		if !ok {
			out.delRegion(r)
			continue
		}
		if !diff {
			continue
		}
		var wm *RegMem
		for p := range m0.pages {
			pd := false
			for _, s := range sides[1:] {
				if s.st.mem[r].pages[p] != m0.pages[p] {
					pd = true
				}
			}
			if !pd {
				continue
			}
			var wp *Page
			for j := 0; j < pageSz; j++ {
				cd := false
				off := int64(p*pageSz + j)
				for i, s := range sides {
					cells[i] = s.st.cell(s.st.mem[r], off)
					if cells[i] != cells[0] {
						cd = true
					}
				}
				if !cd {
					continue
				}
				// next byte of the same atoms as the byte before
				reuse := prevRes.t != nil && cells[0].lo == prevLo+8 && prevRes.t.w >= cells[0].lo+8
				for i := range cells {
					if !reuse {
						break
					}
					if cells[i].t != prevT[i] || cells[i].lo != cells[0].lo {
						reuse = false
					}
				}
				lo0 := cells[0].lo
				for i := range cells {
					prevT[i] = cells[i].t
				}
				prevLo = lo0
				var c Cell
				if reuse {
					c = Cell{t: prevRes.t, lo: prevRes.lo + 8}
				} else {
					c = mergeCells(d, sides, cells, memos)
				}
				prevRes = c
				if c.t != nil && (c.t.op == OpCat || c.t.op == OpSum || c.lo != lo0) || prevT[0] == nil {
					prevRes = Cell{}
				}
				if wm == nil {
					wm = out.wmem(r)
				}
				if wp == nil {
					wp = out.wpage(wm, off)
				}
				wp.cells[j] = c
			}
		}
	}
	// facts: keep what holds on every side
	var facts []Fact
	for _, f := range base.facts {
		ivs := f.ivs
		ok := true
		for _, s := range sides[1:] {
			g := s.st.factOf(f.t)
			if g == nil {
				ok = false
				break
			}
			ivs = normIVs(append(append([]IV{}, ivs...), g...))
		}
		if ok && len(subIVs(baseIVs(f.t), ivs)) > 0 {
			facts = append(facts, Fact{f.t, ivs})
		}
	}
	out.facts = facts
	return out
}

var retWidth int32 = 64
