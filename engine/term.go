package main

// Value domain of the abstract interpreter: hash-consed bit-vector terms in a
// normal form (concatenations of XOR-polynomials over slices of atoms, and
// linear sums), so that equal computations get equal terms.

import (
	"cmp"
	"fmt"
	"math/big"
	"math/bits"
	"runtime"
	"slices"
	"sort"
	"strings"
	"unsafe"
	"weak"
)

type Op uint8

const (
	OpVar Op = iota
	OpJunk
	OpCat
	OpSum
	OpPtr
	OpFn
	OpCase
	OpIn
	OpCmp
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpSext
	OpAndN
	OpOrN
	OpXorN
	OpHash
	OpSeq
	OpByteAt
	OpLin
	OpUnk
	OpHst
)

var opNames = []string{"var", "junk", "cat", "sum", "ptr", "fn", "case", "in", "cmp", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "sext", "and", "or", "xor", "hash", "seq", "byteat", "lin", "unk", "hst"}

// flags (provenance), propagated bottom-up
const (
	FJunk   = 1 << iota // depends on uninitialised memory
	FSecret             // secret seed bytes, not hashed
	FPrf                // output of a hash over secret seed bytes, or chain value over it
	FCase               // contains a Case
	FMsg                // message bytes
	FData               // data being hashed (primitive checks)
	FSplit              // variable whose case splits are never merged
	FUnk                // unknown value
	FKey                // public key bytes
	FOpt                // opt_rand bytes
	FKeyPrf             // sk.prf bytes
)

type IV struct{ lo, hi int64 }

type V struct {
	c uint64
	t *Term
}

type CaseEnt struct {
	lo, hi int64
	v      V
}

type Lin struct {
	c uint64
	t *Term
}

type SL struct {
	t  *Term
	lo int32
}

type Mono []SL

type Poly struct {
	id   uint32
	mons []Mono
	one  bool // single slice
	next *Poly
	h    uint64
	fl   uint32
	deg  int
}

type Seg struct {
	n int32
	c uint64
	p *Poly
}

type Term struct {
	id   uint32
	op   Op
	w    int32
	fl   uint32
	k    int64
	h    uint64
	next *Term
	s    string
	args []*Term
	segs []Seg
	lin  []Lin
	ivs  []IV
	ents []CaseEnt
	reg  *Region
	aux  interface{}
}

var termTab = map[uint64]*Term{}
var termCount uint32
var polyTab = map[uint64]*Poly{}
var polyCount uint32
var polyOne = map[uint64]*Poly{}
var polyFold = map[string]V{}

func mask(n int32) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func hmix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func tid(t *Term) uint64 {
	if t == nil {
		return 0
	}
	return uint64(t.id)
}

func cons(n *Term) *Term {
	if newTerms >= sweepAt {
		sweepTerms()
	}
	h := uint64(n.op)*31 + uint64(n.w)
	h = hmix(h, uint64(n.k))
	if n.s != "" {
		h = hmix(h, hashStr(n.s))
	}
	for _, a := range n.args {
		h = hmix(h, tid(a))
	}
	for i := range n.segs {
		h = hmix(h, uint64(n.segs[i].n))
		h = hmix(h, n.segs[i].c)
		if n.segs[i].p != nil {
			h = hmix(h, uint64(n.segs[i].p.id))
		}
	}
	for i := range n.lin {
		h = hmix(h, n.lin[i].c)
		h = hmix(h, tid(n.lin[i].t))
	}
	for i := range n.ivs {
		h = hmix(h, uint64(n.ivs[i].lo))
		h = hmix(h, uint64(n.ivs[i].hi))
	}
	for i := range n.ents {
		h = hmix(h, uint64(n.ents[i].lo))
		h = hmix(h, uint64(n.ents[i].hi))
		h = hmix(h, n.ents[i].v.c)
		h = hmix(h, tid(n.ents[i].v.t))
	}
	if n.reg != nil {
		h = hmix(h, uint64(n.reg.id)+77)
	}
	n.h = h
	first := termTab[h]
	for o := first; o != nil; o = o.next {
		if sameTerm(o, n) {
			return o
		}
	}
	termCount++
	n.id = termCount
	fl := n.fl
	if n.op != OpHash && n.op != OpSeq && n.op != OpHst {
		for _, a := range n.args {
			if a != nil {
				fl |= a.fl
			}
		}
		for i := range n.segs {
			if n.segs[i].p != nil {
				fl |= n.segs[i].p.fl
			}
		}
		for i := range n.lin {
			fl |= n.lin[i].t.fl
		}
		for i := range n.ents {
			if n.ents[i].v.t != nil {
				fl |= n.ents[i].v.t.fl
			}
		}
	}
	if n.op == OpCase {
		fl |= FCase
	}
	n.fl = fl
	n.next = first
	if len(n.segs) < cap(n.segs) {
		n.segs = append(make([]Seg, 0, len(n.segs)), n.segs...)
	}
	termTab[h] = n
	newTerms++
	return n
}

var segBuf []Seg

// consCat is cons for a concatenation; segs may be a scratch slice.
func consCat(w int32, segs []Seg) *Term {
	h := uint64(OpCat)*31 + uint64(w)
	h = hmix(h, 0)
	for i := range segs {
		h = hmix(h, uint64(segs[i].n))
		h = hmix(h, segs[i].c)
		if segs[i].p != nil {
			h = hmix(h, uint64(segs[i].p.id))
		}
	}
	for o := termTab[h]; o != nil; o = o.next {
		if o.op == OpCat && o.w == w && segsEqual(o.segs, segs) {
			return o
		}
	}
	return cons(&Term{op: OpCat, w: w, segs: append(make([]Seg, 0, len(segs)), segs...)})
}

// The value-numbering tables own nothing: when they have grown, every term
// that nothing else refers to is dropped from them.  Two live equal terms are
// still the same object, since a live term is never dropped.
var sweepOn bool
var newTerms, liveTerms, sweepAt = 0, 0, 1 << 62

func sweepTerms() {
	if !sweepOn {
		return
	}
	// (weak pointers are made in descending address order: the runtime keeps
	// them in a sorted list per span)
	tl := make([]*Term, 0, liveTerms+newTerms)
	for _, t := range termTab {
		for t != nil {
			tl = append(tl, t)
			t, t.next = t.next, nil
		}
	}
	slices.SortFunc(tl, func(a, b *Term) int { return cmp.Compare(uintptr(unsafe.Pointer(b)), uintptr(unsafe.Pointer(a))) })
	ts := make([]weak.Pointer[Term], len(tl))
	for i, t := range tl {
		ts[i] = weak.Make(t)
	}
	tl = nil
	pl := make([]*Poly, 0, len(polyTab)+len(polyOne))
	for _, t := range polyTab {
		for t != nil {
			pl = append(pl, t)
			t, t.next = t.next, nil
		}
	}
	for _, t := range polyOne {
		pl = append(pl, t)
	}
	slices.SortFunc(pl, func(a, b *Poly) int { return cmp.Compare(uintptr(unsafe.Pointer(b)), uintptr(unsafe.Pointer(a))) })
	ps := make([]weak.Pointer[Poly], len(pl))
	for i, t := range pl {
		ps[i] = weak.Make(t)
	}
	pl = nil
	termTab, polyTab, polyOne = nil, nil, nil
	runtime.GC()
	termTab, polyTab, polyOne = map[uint64]*Term{}, map[uint64]*Poly{}, map[uint64]*Poly{}
	newTerms, liveTerms = 0, 0
	for _, x := range ts {
		if t := x.Value(); t != nil {
			t.next = termTab[t.h]
			termTab[t.h] = t
			liveTerms++
		}
	}
	for _, x := range ps {
		if t := x.Value(); t != nil {
			if t.one {
				sl := t.mons[0][0]
				polyOne[uint64(sl.t.id)<<20|uint64(sl.lo)] = t
			} else {
				t.next = polyTab[t.h]
				polyTab[t.h] = t
			}
		}
	}
	sweepAt = liveTerms
	if sweepAt < 1000000 {
		sweepAt = 1000000
	}
}

func sameTerm(a, b *Term) bool {
	if a.op != b.op || a.w != b.w || a.k != b.k || a.s != b.s || a.reg != b.reg || len(a.args) != len(b.args) || len(a.segs) != len(b.segs) || len(a.lin) != len(b.lin) || len(a.ivs) != len(b.ivs) || len(a.ents) != len(b.ents) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	for i := range a.segs {
		if a.segs[i] != b.segs[i] {
			return false
		}
	}
	for i := range a.lin {
		if a.lin[i] != b.lin[i] {
			return false
		}
	}
	for i := range a.ivs {
		if a.ivs[i] != b.ivs[i] {
			return false
		}
	}
	for i := range a.ents {
		if a.ents[i] != b.ents[i] {
			return false
		}
	}
	return true
}

func mkVar(name string, k int64, w int32, fl uint32) *Term {
	return cons(&Term{op: OpVar, s: name, k: k, w: w, fl: fl})
}

var freshN int64

func mkUnk(why string, w int32, fl uint32) *Term {
	freshN++
	return cons(&Term{op: OpUnk, s: why, k: freshN, w: w, fl: fl | FUnk})
}

func C(c uint64) V    { return V{c: c} }
func T(t *Term) V     { return V{t: t} }
func (v V) isC() bool { return v.t == nil }

// ---------- polynomials

func polySlice1(t *Term, lo int32) *Poly {
	key := uint64(t.id)<<20 | uint64(lo)
	if p, ok := polyOne[key]; ok {
		return p
	}
	polyCount++
	p := &Poly{id: polyCount, mons: []Mono{{SL{t, lo}}}, one: true, fl: t.fl, deg: 1}
	polyOne[key] = p
	return p
}

func slLess(a, b SL) bool {
	if a.t.id != b.t.id {
		return a.t.id < b.t.id
	}
	return a.lo < b.lo
}

func monoCmp(a, b Mono) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	for i := range a {
		if a[i] != b[i] {
			if slLess(a[i], b[i]) {
				return -1
			}
			return 1
		}
	}
	return 0
}

// mkPoly takes monomials (any order, duplicates cancel) and returns the
// canonical polynomial, or nil when everything cancels.
func mkPoly(ms []Mono) *Poly {
	if len(ms) == 0 {
		return nil
	}
	if len(ms) > 1 {
		sort.Slice(ms, func(i, j int) bool { return monoCmp(ms[i], ms[j]) < 0 })
		out := ms[:0]
		for i := 0; i < len(ms); {
			j := i
			for j < len(ms) && monoCmp(ms[i], ms[j]) == 0 {
				j++
			}
			if (j-i)%2 == 1 {
				out = append(out, ms[i])
			}
			i = j
		}
		ms = out
	}
	if len(ms) == 0 {
		return nil
	}
	if len(ms) == 1 && len(ms[0]) == 1 {
		return polySlice1(ms[0][0].t, ms[0][0].lo)
	}
	h := uint64(len(ms))
	deg := 0
	for _, m := range ms {
		h = hmix(h, uint64(len(m)))
		if len(m) > deg {
			deg = len(m)
		}
		for _, s := range m {
			h = hmix(h, uint64(s.t.id)<<20|uint64(s.lo))
		}
	}
	first := polyTab[h]
outer:
	for o := first; o != nil; o = o.next {
		if len(o.mons) != len(ms) {
			continue
		}
		for i := range ms {
			if monoCmp(o.mons[i], ms[i]) != 0 {
				continue outer
			}
		}
		return o
	}
	polyCount++
	p := &Poly{id: polyCount, mons: append([]Mono{}, ms...), next: first, h: h, deg: deg}
	for _, m := range ms {
		for _, s := range m {
			p.fl |= s.t.fl
		}
	}
	polyTab[h] = p
	return p
}

func monoMul(a, b Mono) Mono {
	out := make(Mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			out = append(out, b[j])
			j++
		case j == len(b):
			out = append(out, a[i])
			i++
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case slLess(a[i], b[j]):
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	return out
}

const polyProdCap = 200
const polySumCap = 1500

// ---------- segments

// shiftPoly returns the polynomial of the bits [off, off+n) of a segment.
// Slices of Sum atoms are renormalised, which can turn them into something
// that is not a single slice; then the result is returned as segments.
func segSub(s Seg, off, n int32) []Seg {
	if s.p == nil {
		return []Seg{{n: n, c: (s.c >> uint(off)) & mask(n)}}
	}
	c := (s.c >> uint(off)) & mask(n)
	if off == 0 && n == s.n {
		return []Seg{s}
	}
	if s.p.one {
		sl := s.p.mons[0][0]
		r := atomSlice(sl.t, sl.lo+off, n)
		if c != 0 {
			r = xorConstSegs(r, c)
		}
		return r
	}
	needNorm := false
	for _, m := range s.p.mons {
		for _, x := range m {
			if x.t.op == OpSum {
				needNorm = true
			}
		}
	}
	if !needNorm {
		ms := make([]Mono, len(s.p.mons))
		for i, m := range s.p.mons {
			mm := make(Mono, len(m))
			for j, x := range m {
				mm[j] = SL{x.t, x.lo + off}
			}
			ms[i] = mm
		}
		return []Seg{{n: n, c: c, p: mkPoly(ms)}}
	}
	acc := []Seg{{n: n, c: c}}
	for _, m := range s.p.mons {
		pr := []Seg{{n: n, c: mask(n)}}
		for _, x := range m {
			pr = bitop(pr, atomSlice(x.t, x.lo+off, n), '&')
		}
		acc = bitop(acc, pr, '^')
	}
	return acc
}

func xorConstSegs(s []Seg, c uint64) []Seg {
	out := make([]Seg, len(s))
	pos := int32(0)
	for i, x := range s {
		x.c ^= (c >> uint(pos)) & mask(x.n)
		out[i] = x
		pos += x.n
	}
	return out
}

const sumNormCap = 100

// atomSlice returns the normalised segments of bits [lo,lo+n) of an atom.
func atomSlice(t *Term, lo, n int32) []Seg {
	if t.op == OpCat {
		return segsRange(t.segs, lo, n)
	}
	if lo+n > t.w {
		panic(fmt.Sprintf("slice out of range %d+%d of %d (%s)", lo, n, t.w, t))
	}
	if t.op == OpSum && lo+n < t.w && (len(t.lin) <= sumNormCap || (lo == 0 && (n == 8 || n == 16 || n == 32))) {
		v := sumTrunc(t, lo+n)
		if v.t == nil || v.t.op != OpSum {
			return segsRange(segsOf(v, lo+n), lo, n)
		}
		t = v.t
	}
	if t.op == OpSum && lo > 0 && len(t.lin) <= sumNormCap {
		// low bits untouched by variables can be stripped
		tz := int32(64)
		for _, l := range t.lin {
			if z := int32(bits.TrailingZeros64(l.c)); z < tz {
				tz = z
			}
		}
		if tz > 0 {
			if tz > lo {
				tz = lo
			}
			v := sumShiftDown(t, tz)
			if v.t == nil || v.t.op != OpSum {
				return segsRange(segsOf(v, t.w-tz), lo-tz, n)
			}
			t = v.t
			lo -= tz
		}
	}
	return []Seg{{n: n, p: polySlice1(t, lo)}}
}

func sumTrunc(t *Term, n int32) V {
	ls := make([]Lin, len(t.lin))
	copy(ls, t.lin)
	return mkSum(uint64(t.k), ls, n)
}

func sumShiftDown(t *Term, z int32) V {
	ls := make([]Lin, len(t.lin))
	for i, l := range t.lin {
		ls[i] = Lin{l.c >> uint(z), l.t}
	}
	return mkSum((uint64(t.k)&mask(t.w))>>uint(z), ls, t.w-z)
}

func segsOf(v V, w int32) []Seg {
	if v.t == nil {
		return []Seg{{n: w, c: v.c & mask(w)}}
	}
	if v.t.op == OpCat {
		return v.t.segs
	}
	return []Seg{{n: w, p: polySlice1(v.t, 0)}}
}

func segsRange(s []Seg, lo, n int32) []Seg {
	var out []Seg
	pos := int32(0)
	for _, x := range s {
		a, b := lo-pos, lo+n-pos
		if a < 0 {
			a = 0
		}
		if b > x.n {
			b = x.n
		}
		if a < b {
			out = append(out, segSub(x, a, b-a)...)
		}
		pos += x.n
		if pos >= lo+n {
			break
		}
	}
	return out
}

func segsEqual(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// tryMerge merges two adjacent segments (a below b).
func tryMerge(a, b Seg) (Seg, bool) {
	if a.p == nil && b.p == nil {
		if a.n+b.n <= 64 {
			return Seg{n: a.n + b.n, c: a.c | b.c<<uint(a.n)}, true
		}
		return a, false
	}
	if a.p == nil || b.p == nil || a.n+b.n > 4096 {
		return a, false
	}
	wideOK := a.n+b.n <= 64 || (a.c == 0 && b.c == 0)
	if !wideOK {
		return a, false
	}
	nc := a.c
	if b.c != 0 {
		nc |= b.c << uint(a.n)
	}
	if a.p.one && b.p.one {
		x, y := a.p.mons[0][0], b.p.mons[0][0]
		if x.t == y.t && x.lo+a.n == y.lo {
			// renormalise if the merge completes a slice of a Sum
			return Seg{n: a.n + b.n, c: nc, p: a.p}, true
		}
		if y.t.op == OpSum && y.lo >= a.n {
			r := atomSlice(y.t, y.lo-a.n, a.n)
			if len(r) == 1 && r[0].p == a.p && r[0].c == 0 {
				return Seg{n: a.n + b.n, c: nc, p: polySlice1(y.t, y.lo-a.n)}, true
			}
		}
		return a, false
	}
	if len(a.p.mons) != len(b.p.mons) || a.p.deg != b.p.deg {
		return a, false
	}
	for i := range a.p.mons {
		ma, mb := a.p.mons[i], b.p.mons[i]
		if len(ma) != len(mb) {
			return a, false
		}
		for j := range ma {
			if ma[j].t != mb[j].t || ma[j].lo+a.n != mb[j].lo {
				return a, false
			}
		}
	}
	return Seg{n: a.n + b.n, c: nc, p: a.p}, true
}

// fromSegs builds the canonical value of a list of segments (LSB first).
func fromSegs(s []Seg) V {
	if len(s) == 1 {
		return fromSeg1(s[0])
	}
	out := segBuf[:0]
	segBuf = nil // (s may not be the scratch slice of an outer call)
	w := int32(0)
	for _, x := range s {
		w += x.n
		if len(out) > 0 {
			l := &out[len(out)-1]
			if l.p == nil && x.p == nil {
				// constant runs are cut into 64-bit pieces from their start
				if f := 64 - l.n; f > 0 {
					if f > x.n {
						f = x.n
					}
					l.c |= (x.c & mask(f)) << uint(l.n)
					l.n += f
					if x.n -= f; x.n == 0 {
						continue
					}
					x.c >>= uint(f)
				}
			} else if m, ok := tryMerge(*l, x); ok {
				*l = m
				continue
			}
		}
		out = append(out, x)
	}
	segBuf = out
	if len(out) == 1 {
		return fromSeg1(out[0])
	}
	return T(consCat(w, out))
}

func fromSeg1(s Seg) V {
	if s.p == nil {
		return C(s.c & mask(s.n))
	}
	if s.p.one && s.c == 0 {
		sl := s.p.mons[0][0]
		if sl.lo == 0 && sl.t.w == s.n {
			return T(sl.t)
		}
		if sl.t.op == OpSum && sl.lo+s.n < sl.t.w {
			r := atomSlice(sl.t, sl.lo, s.n)
			if len(r) == 1 && r[0] == s {
			} else {
				return fromSegs(r)
			}
		}
	}
	if foldOn && !s.p.one {
		if v, ok := foldTab[foldKey{s.n, s.c, s.p.id}]; ok {
			return v
		}
	}
	return T(consCat(s.n, []Seg{s}))
}

type foldKey struct {
	n int32
	c uint64
	p uint32
}

var foldOn bool
var foldTab = map[foldKey]V{}

// whole-word folds: canonical Cat term -> replacement
var foldTerm = map[*Term]V{}

func fold(v V) V {
	if v.t != nil && len(foldTerm) > 0 {
		if r, ok := foldTerm[v.t]; ok {
			return r
		}
	}
	return v
}

func slice(v V, w, lo, n int32) V {
	if v.t == nil {
		if lo >= 64 {
			return C(0)
		}
		return C((v.c >> uint(lo)) & mask(n))
	}
	if lo == 0 && n == w {
		return v
	}
	if v.t.op == OpCat {
		return fromSegs(segsRange(v.t.segs, lo, n))
	}
	return fromSegs(atomSlice(v.t, lo, n))
}

func cat(parts []V, ws []int32) V {
	var s []Seg
	for i, p := range parts {
		s = append(s, segsOf(p, ws[i])...)
	}
	return fromSegs(s)
}

// alignSegs splits two segment lists of equal width at common boundaries.
// Splitting a slice of a Sum can renormalise it into several segments, hence
// the iteration.
func alignSegs(a, b []Seg) ([]Seg, []Seg) {
	for iter := 0; iter < 40; iter++ {
		same := len(a) == len(b)
		if same {
			for i := range a {
				if a[i].n != b[i].n {
					same = false
					break
				}
			}
		}
		if same {
			return a, b
		}
		cuts := unionCuts(a, b)
		a, b = resplit(a, cuts), resplit(b, cuts)
	}
	panic(unkErr("segment alignment"))
}

func unionCuts(a, b []Seg) []int32 {
	var out []int32
	i, j := 0, 0
	pa, pb := int32(0), int32(0)
	for i < len(a) || j < len(b) {
		na, nb := int32(1<<30), int32(1<<30)
		if i < len(a) {
			na = pa + a[i].n
		}
		if j < len(b) {
			nb = pb + b[j].n
		}
		if na <= nb {
			pa = na
			i++
			if na == nb {
				pb = nb
				j++
			}
			out = append(out, na)
		} else {
			pb = nb
			j++
			out = append(out, nb)
		}
	}
	return out
}

func resplit(a []Seg, cuts []int32) []Seg {
	out := make([]Seg, 0, len(cuts))
	pos := int32(0)
	ci := 0
	for _, s := range a {
		st := pos
		end := pos + s.n
		for ci < len(cuts) && cuts[ci] < end {
			out = append(out, segSub(s, pos-st, cuts[ci]-pos)...)
			pos = cuts[ci]
			ci++
		}
		out = append(out, segSub(s, pos-st, end-pos)...)
		pos = end
		if ci < len(cuts) && cuts[ci] == end {
			ci++
		}
	}
	return out
}

func bitop(a, b []Seg, op byte) []Seg {
	if len(a) == 1 && len(b) == 1 && a[0].n == b[0].n {
		return bitop1(a[0], b[0], op)
	}
	ra, rb := alignSegs(a, b)
	var out []Seg
	for i := range ra {
		out = append(out, bitop1(ra[i], rb[i], op)...)
	}
	return out
}

func pureXorSum(p *Poly) bool { return p.deg == 1 && len(p.mons) > 1 }

func bitop1(x, y Seg, op byte) []Seg {
	n := x.n
	m := mask(n)
	switch op {
	case '^':
		if x.p == nil && y.p == nil {
			return []Seg{{n: n, c: (x.c ^ y.c) & m}}
		}
		c := (x.c ^ y.c) & m
		if x.p == nil {
			return []Seg{{n: n, c: c, p: y.p}}
		}
		if y.p == nil {
			return []Seg{{n: n, c: c, p: x.p}}
		}
		if x.p == y.p {
			return []Seg{{n: n, c: c}}
		}
		if len(x.p.mons)+len(y.p.mons) > polySumCap {
			t := cons(&Term{op: OpXorN, w: n, args: sortTerms(segTerm(Seg{n, 0, x.p}), segTerm(Seg{n, 0, y.p}))})
			return []Seg{{n: n, c: c, p: polySlice1(t, 0)}}
		}
		ms := make([]Mono, 0, len(x.p.mons)+len(y.p.mons))
		ms = append(ms, x.p.mons...)
		ms = append(ms, y.p.mons...)
		return []Seg{{n: n, c: c, p: mkPoly(ms)}}
	case '&':
		if x.p == nil {
			x, y = y, x
		}
		if y.p == nil {
			if x.p == nil {
				return []Seg{{n: n, c: x.c & y.c}}
			}
			return andMask(x, y.c)
		}
		if x == y {
			return []Seg{x}
		}
		if x.p == y.p && x.c^y.c == m {
			return []Seg{{n: n}}
		}
		nx, ny := len(x.p.mons), len(y.p.mons)
		// constants must be uniform to distribute
		ux, okx := uniform(x.c, n)
		uy, oky := uniform(y.c, n)
		if !okx || !oky {
			// split at runs of the xor masks
			runs := maskRuns(x.c, y.c, n)
			if len(runs) <= 8 {
				var out []Seg
				pos := int32(0)
				for _, r := range runs {
					xs, ys := segSub(x, pos, r), segSub(y, pos, r)
					out = append(out, bitop(xs, ys, '&')...)
					pos += r
				}
				return out
			}
		}
		if okx && oky && (nx+1)*(ny+1) <= polyProdCap {
			var ms []Mono
			for _, a := range x.p.mons {
				for _, b := range y.p.mons {
					ms = append(ms, monoMul(a, b))
				}
			}
			if ux {
				ms = append(ms, y.p.mons...)
			}
			if uy {
				ms = append(ms, x.p.mons...)
			}
			c := uint64(0)
			if ux && uy {
				c = m
			}
			return []Seg{{n: n, c: c, p: mkPoly(ms)}}
		}
		t := cons(&Term{op: OpAndN, w: n, args: sortTerms(segTerm(x), segTerm(y))})
		return []Seg{{n: n, p: polySlice1(t, 0)}}
	case '|':
		if x.p == nil {
			x, y = y, x
		}
		if y.p == nil {
			if x.p == nil {
				return []Seg{{n: n, c: x.c | y.c}}
			}
			if y.c == 0 {
				return []Seg{x}
			}
			// (x & ~c) ^ c
			s := andMask(x, ^y.c&m)
			return bitop(s, []Seg{{n: n, c: y.c}}, '^')
		}
		if x == y {
			return []Seg{x}
		}
		if orAtom(x) || orAtom(y) {
			return []Seg{{n: n, p: polySlice1(mkOrN(n, segTerm(x), segTerm(y)), 0)}}
		}
		pr := bitop1(x, y, '&')
		return bitop(bitop1(x, y, '^'), pr, '^')
	}
	panic("bitop")
}

func orAtom(x Seg) bool {
	if len(x.p.mons) > 3 || pureXorSum(x.p) {
		return true
	}
	return x.p.one && x.p.mons[0][0].t.op == OpOrN
}

func mkOrN(w int32, ts ...*Term) *Term {
	set := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OpOrN {
			for _, a := range t.args {
				set[a] = true
			}
			return
		}
		set[t] = true
	}
	for _, t := range ts {
		add(t)
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	if len(l) == 1 {
		return l[0]
	}
	return cons(&Term{op: OpOrN, w: w, args: l})
}

func sortTerms(ts ...*Term) []*Term {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func uniform(c uint64, n int32) (bool, bool) {
	if c == 0 {
		return false, true
	}
	if c == mask(n) {
		return true, true
	}
	return false, false
}

func maskRuns(a, b uint64, n int32) []int32 {
	var out []int32
	i := int32(0)
	for i < n {
		j := i
		for j < n && (a>>uint(j))&1 == (a>>uint(i))&1 && (b>>uint(j))&1 == (b>>uint(i))&1 {
			j++
		}
		out = append(out, j-i)
		i = j
	}
	return out
}

func andMask(x Seg, c uint64) []Seg {
	m := mask(x.n)
	c &= m
	if c == m {
		return []Seg{x}
	}
	if c == 0 {
		return []Seg{{n: x.n}}
	}
	var out []Seg
	pos := int32(0)
	for _, r := range maskRuns(c, 0, x.n) {
		if (c>>uint(pos))&1 == 1 {
			out = append(out, segSub(x, pos, r)...)
		} else {
			out = append(out, Seg{n: r})
		}
		pos += r
	}
	return out
}

func segTerm(s Seg) *Term {
	v := fromSeg1(s)
	if v.t == nil {
		panic("segTerm of constant")
	}
	return v.t
}

func vXor(a, b V, w int32) V {
	if a.t == nil && b.t == nil {
		return C((a.c ^ b.c) & mask(w))
	}
	if a.t == nil && a.c == 0 {
		return b
	}
	if b.t == nil && b.c == 0 {
		return a
	}
	return fold(fromSegs(bitop(segsOf(a, w), segsOf(b, w), '^')))
}
func vAnd(a, b V, w int32) V {
	if a.t == nil && b.t == nil {
		return C(a.c & b.c & mask(w))
	}
	if a.t == nil && a.c == 0 || b.t == nil && b.c == 0 {
		return C(0)
	}
	if a.t == nil && a.c&mask(w) == mask(w) {
		return b
	}
	if b.t == nil && b.c&mask(w) == mask(w) {
		return a
	}
	return fromSegs(bitop(segsOf(a, w), segsOf(b, w), '&'))
}
func vOr(a, b V, w int32) V {
	if a.t == nil && b.t == nil {
		return C((a.c | b.c) & mask(w))
	}
	if a.t == nil && a.c == 0 {
		return b
	}
	if b.t == nil && b.c == 0 {
		return a
	}
	return fromSegs(bitop(segsOf(a, w), segsOf(b, w), '|'))
}
func vNot(a V, w int32) V { return vXor(a, C(mask(w)), w) }

// ---------- sums

type linAcc struct {
	k  uint64
	ls []Lin
	w  int32
}

func (acc *linAcc) add(v V, w int32, coef uint64) {
	// adds coef * zext(v) where v has width w
	if v.t == nil {
		acc.k += coef * (v.c & mask(w))
		return
	}
	t := v.t
	if t.op == OpSum {
		// valid modulo 2^w only: exact if coef*2^w == 0 mod 2^acc.w
		if int32(bits.TrailingZeros64(coef))+w >= acc.w {
			acc.k += coef * uint64(t.k)
			for _, l := range t.lin {
				acc.ls = append(acc.ls, Lin{l.c * coef, l.t})
			}
			return
		}
		acc.ls = append(acc.ls, Lin{coef, t})
		return
	}
	if t.op == OpCat {
		pos := int32(0)
		for _, s := range t.segs {
			cf := coef << uint(pos)
			if pos >= 64 || cf == 0 {
				break
			}
			if s.p == nil {
				acc.k += cf * s.c
			} else if s.c == mask(s.n) {
				// complement: 2^n-1 - x
				acc.k += cf * mask(s.n)
				acc.addSeg(Seg{n: s.n, p: s.p}, -cf)
			} else {
				acc.addSeg(s, cf)
			}
			pos += s.n
		}
		return
	}
	acc.ls = append(acc.ls, Lin{coef, t})
}

func (acc *linAcc) addSeg(s Seg, cf uint64) {
	v := fromSeg1(s)
	if v.t == nil {
		acc.k += cf * v.c
		return
	}
	if v.t.op == OpSum {
		acc.add(v, s.n, cf)
		return
	}
	acc.ls = append(acc.ls, Lin{cf, v.t})
}

func mkSum(k uint64, ls []Lin, w int32) V {
	m := mask(w)
	k &= m
	if len(ls) > 1 {
		sort.Slice(ls, func(i, j int) bool { return ls[i].t.id < ls[j].t.id })
	}
	out := make([]Lin, 0, len(ls))
	again := false
	for i := 0; i < len(ls); {
		c := uint64(0)
		j := i
		for j < len(ls) && ls[j].t == ls[i].t {
			c += ls[j].c
			j++
		}
		c &= m
		if c != 0 {
			t := ls[i].t
			z := int32(bits.TrailingZeros64(c))
			if z+t.w > w {
				// only the low w-z bits matter
				v := slice(T(t), t.w, 0, w-z)
				if v.t == nil {
					k = (k + c*v.c) & m
				} else if v.t == t {
					out = append(out, Lin{c, t})
				} else {
					acc := &linAcc{w: w}
					acc.add(v, w-z, c)
					k = (k + acc.k) & m
					out = append(out, acc.ls...)
					again = true
				}
			} else {
				out = append(out, Lin{c, t})
			}
		}
		i = j
	}
	if again {
		return mkSum(k, out, w)
	}
	// c*t - c*2^j*(t >> j) = c*(t mod 2^j)
	if len(out) > 1 && len(out) <= 12 {
		for i := range out {
			for j := range out {
				a, b := out[i], out[j]
				d := a.t.w - b.t.w
				if i == j || d <= 0 || (a.c<<uint(d)+b.c)&m != 0 || slice(T(a.t), a.t.w, d, b.t.w) != T(b.t) {
					continue
				}
				acc := &linAcc{w: w}
				acc.add(slice(T(a.t), a.t.w, 0, d), d, a.c)
				k = (k + acc.k) & m
				for n, l := range out {
					if n != i && n != j {
						acc.ls = append(acc.ls, l)
					}
				}
				return mkSum(k, acc.ls, w)
			}
		}
	}
	if len(out) == 0 {
		return C(k)
	}
	if len(out) == 1 && out[0].c == 1 && k == 0 && out[0].t.w == w {
		return T(out[0].t)
	}
	// concatenation?  Coefficients 2^p place a term, -2^p its complement.
	if len(out) <= 16 {
		type pl struct {
			pos int32
			t   *Term
			inv bool
		}
		ps := make([]pl, 0, len(out))
		kk := k
		ok := true
		for _, l := range out {
			c := l.c
			inv := false
			if c&(c-1) != 0 {
				c = -c & m
				inv = true
				if c&(c-1) != 0 {
					ok = false
					break
				}
				kk -= c * mask(l.t.w)
			}
			z := int32(bits.TrailingZeros64(c))
			if z+l.t.w > w {
				ok = false
				break
			}
			ps = append(ps, pl{z, l.t, inv})
		}
		kk &= m
		if ok {
			occ := kk
			for _, p := range ps {
				f := mask(p.t.w) << uint(p.pos)
				if occ&f != 0 {
					ok = false
					break
				}
				occ |= f
			}
		}
		if ok {
			sort.Slice(ps, func(i, j int) bool { return ps[i].pos < ps[j].pos })
			var segs []Seg
			pos := int32(0)
			for _, p := range ps {
				if p.pos > pos {
					segs = append(segs, Seg{n: p.pos - pos, c: (kk >> uint(pos)) & mask(p.pos-pos)})
				}
				v := T(p.t)
				if p.inv {
					v = fromSegs(bitop(segsOf(v, p.t.w), []Seg{{n: p.t.w, c: mask(p.t.w)}}, '^'))
				}
				segs = append(segs, segsOf(v, p.t.w)...)
				pos = p.pos + p.t.w
			}
			if pos < w {
				segs = append(segs, Seg{n: w - pos, c: (kk >> uint(pos)) & mask(w-pos)})
			}
			return fromSegs(segs)
		}
	}
	return T(cons(&Term{op: OpSum, w: w, k: int64(k), lin: out}))
}

func vAddScaled(a V, ca uint64, b V, cb uint64, w int32) V {
	if a.t == nil && b.t == nil {
		return C((a.c*ca + b.c*cb) & mask(w))
	}
	acc := &linAcc{w: w}
	acc.add(a, w, ca)
	acc.add(b, w, cb)
	return mkSum(acc.k, acc.ls, w)
}

func vAdd(a, b V, w int32) V {
	if b.t == nil && b.c&mask(w) == 0 {
		return a
	}
	if a.t == nil && a.c&mask(w) == 0 {
		return b
	}
	return vAddScaled(a, 1, b, 1, w)
}
func vSub(a, b V, w int32) V {
	if b.t == nil && b.c&mask(w) == 0 {
		return a
	}
	return vAddScaled(a, 1, b, ^uint64(0), w)
}
func vMul(a, b V, w int32) V {
	if a.t == nil && b.t == nil {
		return C((a.c * b.c) & mask(w))
	}
	if a.t == nil {
		a, b = b, a
	}
	if b.t == nil {
		if b.c&mask(w) == 1 {
			return a
		}
		acc := &linAcc{w: w}
		acc.add(a, w, b.c)
		return mkSum(acc.k, acc.ls, w)
	}
	return T(cons(&Term{op: OpMul, w: w, args: sortTerms(a.t, b.t)}))
}

func vShlC(a V, s int32, w int32) V {
	if a.t == nil {
		return C((a.c << uint(s)) & mask(w))
	}
	if s == 0 {
		return a
	}
	if a.t.op == OpSum {
		return vMul(a, C(1<<uint(s)), w)
	}
	segs := []Seg{{n: s}}
	segs = append(segs, segsRange(segsOf(a, w), 0, w-s)...)
	return fromSegs(segs)
}

func vLshrC(a V, s int32, w int32) V {
	if a.t == nil {
		return C((a.c & mask(w)) >> uint(s))
	}
	if s == 0 {
		return a
	}
	return zextPlain(slice(a, w, s, w-s), w-s, w)
}

func zextPlain(a V, w, W int32) V {
	if a.t == nil {
		return C(a.c & mask(w))
	}
	if w == W {
		return a
	}
	segs := append([]Seg{}, segsOf(a, w)...)
	segs = append(segs, Seg{n: W - w})
	return fromSegs(segs)
}

func mkOp(op Op, w int32, args ...V) V {
	ts := make([]*Term, len(args))
	k := int64(0)
	for i, a := range args {
		if a.t == nil {
			ts[i] = constTerm(a.c, w)
		} else {
			ts[i] = a.t
		}
	}
	return T(cons(&Term{op: op, w: w, k: k, args: ts}))
}

// constTerm wraps a constant as a term (only used inside operator arguments).
func constTerm(c uint64, w int32) *Term {
	return cons(&Term{op: OpCat, w: w, segs: []Seg{{n: w, c: c & mask(w)}}})
}

func termV(t *Term) V {
	if t.op == OpCat && len(t.segs) == 1 && t.segs[0].p == nil {
		return C(t.segs[0].c)
	}
	return T(t)
}

// ---------- Case and In

func normIVs(ivs []IV) []IV {
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].lo < ivs[j].lo })
	var out []IV
	for _, v := range ivs {
		if v.lo > v.hi {
			continue
		}
		if len(out) > 0 && v.lo <= out[len(out)-1].hi+1 {
			if v.hi > out[len(out)-1].hi {
				out[len(out)-1].hi = v.hi
			}
			continue
		}
		out = append(out, v)
	}
	return out
}

func isectIVs(a, b []IV) []IV {
	var out []IV
	for _, x := range a {
		for _, y := range b {
			lo, hi := x.lo, x.hi
			if y.lo > lo {
				lo = y.lo
			}
			if y.hi < hi {
				hi = y.hi
			}
			if lo <= hi {
				out = append(out, IV{lo, hi})
			}
		}
	}
	return normIVs(out)
}

func subIVs(a, b []IV) []IV {
	cur := a
	for _, y := range b {
		var nx []IV
		for _, x := range cur {
			if y.hi < x.lo || y.lo > x.hi {
				nx = append(nx, x)
				continue
			}
			if y.lo > x.lo {
				nx = append(nx, IV{x.lo, y.lo - 1})
			}
			if y.hi < x.hi {
				nx = append(nx, IV{y.hi + 1, x.hi})
			}
		}
		cur = nx
	}
	return normIVs(append([]IV{}, cur...))
}

// mkIn0: x == 0
func mkIn0(x *Term) V {
	v := termV(x)
	if v.t == nil {
		if v.c&mask(x.w) == 0 {
			return C(1)
		}
		return C(0)
	}
	return mkIn(v.t, []IV{{0, 0}})
}

func mkIn(t *Term, ivs []IV) V {
	full := baseIVs(t)
	ivs = isectIVs(ivs, full)
	if len(ivs) == 0 {
		return C(0)
	}
	if len(subIVs(full, ivs)) == 0 {
		return C(1)
	}
	if t.op == OpCase && caseConst(t) {
		ents := make([]CaseEnt, len(t.ents))
		for i, e := range t.ents {
			v := C(0)
			if e.v.t != nil {
				v = mkIn(e.v.t, ivs)
			} else if len(isectIVs(ivs, []IV{{int64(e.v.c), int64(e.v.c)}})) > 0 {
				v = C(1)
			}
			ents[i] = CaseEnt{e.lo, e.hi, v}
		}
		return mkCase(t.args[0], ents, 1)
	}
	if t.w == 1 && t.op != OpLin {
		if ivs[0].lo == 1 {
			return T(t)
		}
		return vXor(T(t), C(1), 1)
	}
	comp := subIVs(full, ivs)
	if t.op == OpOrN { // zero exactly if every part is
		neg := len(comp) == 1 && comp[0] == IV{0, 0}
		if neg || len(ivs) == 1 && ivs[0] == (IV{0, 0}) {
			r := C(1)
			for _, x := range t.args {
				r = vAnd(r, mkIn0(x), 1)
			}
			if neg {
				return vXor(r, C(1), 1)
			}
			return r
		}
	}
	// canonical polarity: keep the set whose first interval does not start
	// at the minimum, unless single value
	if ivs[0].lo == full[0].lo && !(len(ivs) == 1 && ivs[0].lo == ivs[0].hi) || len(comp) == 1 && comp[0].lo == comp[0].hi {
		r := T(cons(&Term{op: OpIn, w: 1, args: []*Term{t}, ivs: comp}))
		return vXor(r, C(1), 1)
	}
	return T(cons(&Term{op: OpIn, w: 1, args: []*Term{t}, ivs: ivs}))
}

func mkCase(d *Term, ents []CaseEnt, w int32) V {
	// flatten nested cases on the same discriminator
	var flat []CaseEnt
	for _, e := range ents {
		if a, alo := sliceOf(e.v); a != nil && a.op == OpCase && a.args[0] == d && a.w > w {
			for _, f := range a.ents {
				lo, hi := e.lo, e.hi
				if f.lo > lo {
					lo = f.lo
				}
				if f.hi < hi {
					hi = f.hi
				}
				if lo <= hi {
					flat = append(flat, CaseEnt{lo, hi, slice(f.v, a.w, alo, w)})
				}
			}
			continue
		}
		if e.v.t != nil && e.v.t.op == OpCase && e.v.t.args[0] == d {
			for _, f := range e.v.t.ents {
				lo, hi := e.lo, e.hi
				if f.lo > lo {
					lo = f.lo
				}
				if f.hi < hi {
					hi = f.hi
				}
				if lo <= hi {
					flat = append(flat, CaseEnt{lo, hi, f.v})
				}
			}
			continue
		}
		flat = append(flat, e)
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].lo < flat[j].lo })
	out := flat[:0:0]
	for _, e := range flat {
		if n := len(out); n > 0 && out[n-1].v == e.v && out[n-1].hi+1 == e.lo {
			out[n-1].hi = e.hi
			continue
		}
		out = append(out, e)
	}
	if len(out) == 1 {
		return out[0].v
	}
	same := true
	for _, e := range out {
		if e.v != out[0].v {
			same = false
		}
	}
	if same {
		return out[0].v
	}
	if w == 1 {
		if d.w == 1 && d.op != OpLin && len(out) == 2 {
			// d ? v1 : v0
			dv := T(d)
			return vXor(vAnd(dv, out[1].v, 1), vAnd(vXor(dv, C(1), 1), out[0].v, 1), 1)
		}
		// algebraic normal form: XOR over the distinct values of In(d) & value
		r := C(0)
		done := make([]bool, len(out))
		for i := range out {
			if done[i] {
				continue
			}
			var ivs []IV
			for j := i; j < len(out); j++ {
				if out[j].v == out[i].v {
					done[j] = true
					ivs = append(ivs, IV{out[j].lo, out[j].hi})
				}
			}
			r = vXor(r, vAnd(mkIn(d, normIVs(ivs)), out[i].v, 1), 1)
		}
		return r
	}
	// slices at one position of wider atoms: a slice of the wide Case
	if a0, lo0 := sliceOf(out[0].v); a0 != nil {
		minw := int32(1 << 30)
		ok := true
		for _, e := range out {
			a, lo := sliceOf(e.v)
			if a == nil || lo != lo0 {
				ok = false
				break
			}
			if a.w < minw {
				minw = a.w
			}
		}
		if ok && minw > w && lo0+w <= minw {
			wide := make([]CaseEnt, len(out))
			for i, e := range out {
				a, _ := sliceOf(e.v)
				wide[i] = CaseEnt{e.lo, e.hi, slice(T(a), a.w, 0, minw)}
			}
			return slice(mkCase(d, wide, minw), minw, lo0, w)
		}
	}
	return T(cons(&Term{op: OpCase, w: w, args: []*Term{d}, ents: out}))
}

// sliceOf: v as a proper slice of one atom (no atoms of sums).
func sliceOf(v V) (*Term, int32) {
	if v.t == nil || v.t.op != OpCat || len(v.t.segs) != 1 {
		return nil, 0
	}
	s := v.t.segs[0]
	if s.p == nil || !s.p.one || s.c != 0 {
		return nil, 0
	}
	x := s.p.mons[0][0]
	if x.t.op == OpSum || x.t.op == OpCat {
		return nil, 0
	}
	return x.t, x.lo
}

// baseIVs: the range of a term with no facts.
func baseIVs(t *Term) []IV {
	lo, hi := baseRange(t)
	return []IV{{lo, hi}}
}

var varRange = map[*Term]IV{} // declared ranges of input variables

const maxI = int64(1) << 62

func baseRange(t *Term) (int64, int64) {
	if r, ok := varRange[t]; ok {
		return r.lo, r.hi
	}
	if plainDepth == 0 {
		plainFuel = 2000
	}
	if plainFuel--; plainFuel < 0 {
		if t.op == OpLin {
			return -maxI, maxI
		}
		if t.w >= 62 {
			return 0, maxI
		}
		return 0, int64(mask(t.w))
	}
	plainDepth++
	lo, hi := plainRange(t)
	plainDepth--
	return lo, hi
}

var plainDepth, plainFuel int

func plainRange(t *Term) (int64, int64) {
	switch t.op {
	case OpLin:
		return linRange(t, nil)
	case OpSum:
		if lo, hi, ok := sumRange(t, nil); ok {
			return lo, hi
		}
	case OpCase:
		lo, hi := int64(maxI), -int64(maxI)
		for _, e := range t.ents {
			a, b := vRange(e.v, t.w, nil)
			if a < lo {
				lo = a
			}
			if b > hi {
				hi = b
			}
		}
		return lo, hi
	case OpCat:
		return catRange(t, nil)
	case OpURem:
		if d := termV(t.args[1]); d.t == nil && d.c > 0 {
			return 0, int64(d.c - 1)
		}
	case OpUDiv:
		if d := termV(t.args[1]); d.t == nil && d.c > 0 {
			_, hi := vRange(termV(t.args[0]), t.w, nil)
			return 0, hi / int64(d.c)
		}
	}
	if t.w >= 62 {
		return 0, maxI
	}
	return 0, int64(mask(t.w))
}

func catRange(t *Term, st *State) (int64, int64) {
	var lo, hi int64
	pos := int32(0)
	for _, s := range t.segs {
		if pos >= 62 {
			if s.p != nil || s.c != 0 {
				return 0, maxI
			}
			pos += s.n
			continue
		}
		if s.p == nil {
			if pos+s.n > 62 && s.c>>uint(62-pos) != 0 {
				return 0, maxI
			}
			lo += int64(s.c) << uint(pos)
			hi += int64(s.c) << uint(pos)
		} else {
			if pos+s.n > 62 {
				return 0, maxI
			}
			a, b := int64(0), int64(mask(s.n))
			if s.p.one && s.c == 0 {
				sl := s.p.mons[0][0]
				if sl.lo == 0 && s.n == sl.t.w {
					a, b = termRange(sl.t, st)
				} else {
					if sl.t.op == OpSum || sl.lo == 0 {
						x, y := termRange(sl.t, st)
						if sl.t.w < 62 || y < maxI {
							x >>= uint(sl.lo)
							y >>= uint(sl.lo)
							if y <= int64(mask(s.n)) {
								a, b = x, y
							}
						}
					}
					if st != nil && len(st.facts) > 0 && len(t.segs) > 1 {
						st1 := fromSeg1(s)
						if st1.t != nil {
							if x, y, ok := st.factRange(st1.t); ok {
								if x > a {
									a = x
								}
								if y < b {
									b = y
								}
							}
						}
					}
				}
			}
			lo += a << uint(pos)
			hi += b << uint(pos)
		}
		pos += s.n
	}
	return lo, hi
}

func vRange(v V, w int32, st *State) (int64, int64) {
	if v.t == nil {
		if v.c > uint64(maxI) {
			return 0, maxI
		}
		return int64(v.c), int64(v.c)
	}
	return termRange(v.t, st)
}

func termRange(t *Term, st *State) (int64, int64) {
	lo, hi := baseRangeSt(t, st)
	if st != nil {
		if a, b, ok := st.factRange(t); ok {
			if a > lo {
				lo = a
			}
			if b < hi {
				hi = b
			}
		}
	}
	return lo, hi
}

func baseRangeSt(t *Term, st *State) (int64, int64) {
	if st == nil || len(st.facts) == 0 {
		return baseRange(t)
	}
	if r, ok := varRange[t]; ok {
		return r.lo, r.hi
	}
	switch t.op {
	case OpLin, OpSum, OpCat, OpCase:
	default:
		return baseRange(t)
	}
	// deep terms share subterms: bound the number of visits
	if rangeDepth == 0 {
		rangeFuel = 2000
	}
	rangeFuel--
	if rangeFuel < 0 {
		return baseRange(t)
	}
	rangeDepth++
	lo, hi := factRanges(t, st)
	rangeDepth--
	return lo, hi
}

var rangeDepth, rangeFuel int

func factRanges(t *Term, st *State) (int64, int64) {
	switch t.op {
	case OpLin:
		return linRange(t, st)
	case OpSum:
		if lo, hi, ok := sumRange(t, st); ok {
			return lo, hi
		}
		if t.w >= 62 {
			return 0, maxI
		}
		return 0, int64(mask(t.w))
	case OpCat:
		return catRange(t, st)
	case OpCase:
		lo, hi := int64(maxI), -int64(maxI)
		ivs := st.ivsOf(t.args[0])
		for _, e := range t.ents {
			if len(isectIVs(ivs, []IV{{e.lo, e.hi}})) == 0 {
				continue
			}
			a, b := vRange(e.v, t.w, st)
			if a < lo {
				lo = a
			}
			if b > hi {
				hi = b
			}
		}
		return lo, hi
	}
	return baseRange(t)
}

func signed(c uint64, w int32) int64 {
	if w >= 64 {
		return int64(c)
	}
	if c>>(uint(w)-1)&1 == 1 {
		return int64(c | ^mask(w))
	}
	return int64(c)
}

// exactRange returns the range of the integer value (signed coefficients, no
// wrap-around) of a sum.
func exactRange(k int64, ls []Lin, w int32, st *State) (*big.Int, *big.Int) {
	lo := big.NewInt(k)
	hi := big.NewInt(k)
	for _, l := range ls {
		a, b := termRange(l.t, st)
		c := big.NewInt(signed(l.c, w))
		x := new(big.Int).Mul(c, big.NewInt(a))
		y := new(big.Int).Mul(c, big.NewInt(b))
		if c.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo, hi
}

var bigMax = big.NewInt(maxI)

// sumRange: range of a Sum term if it provably does not wrap.
func sumRange(t *Term, st *State) (int64, int64, bool) {
	if len(t.lin) > 80 {
		return 0, 0, false
	}
	k := signed(uint64(t.k), t.w)
	lo, hi := exactRange(k, t.lin, t.w, st)
	lim := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
	if st != nil {
		// facts on the linear part
		if a, b, ok := st.linFact(t.lin, t.w); ok {
			x := new(big.Int).Add(big.NewInt(a), big.NewInt(k))
			y := new(big.Int).Add(big.NewInt(b), big.NewInt(k))
			if x.Cmp(lo) > 0 {
				lo = x
			}
			if y.Cmp(hi) < 0 {
				hi = y
			}
		}
	}
	if lo.Sign() >= 0 && hi.Cmp(lim) < 0 {
		if hi.Cmp(bigMax) > 0 {
			return 0, 0, false
		}
		return lo.Int64(), hi.Int64(), true
	}
	// maybe k is to be read unsigned
	if k < 0 && t.w < 62 {
		ku := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		lo2 := new(big.Int).Add(lo, ku)
		hi2 := new(big.Int).Add(hi, ku)
		if lo2.Sign() >= 0 && hi2.Cmp(lim) < 0 {
			return lo2.Int64(), hi2.Int64(), true
		}
	}
	return 0, 0, false
}

func linRange(t *Term, st *State) (int64, int64) {
	lo, hi := exactRange(0, t.lin, 64, st)
	l, h := -maxI, maxI
	if lo.IsInt64() && lo.Int64() > l {
		l = lo.Int64()
	}
	if hi.IsInt64() && hi.Int64() < h {
		h = hi.Int64()
	}
	return l, h
}

func (t *Term) String() string { return showTerm(t, 4) }
func (v V) String() string {
	if v.t == nil {
		return fmt.Sprintf("%#x", v.c)
	}
	return showTerm(v.t, 4)
}

func showV(v V, d int) string {
	if v.t == nil {
		return fmt.Sprintf("%#x", v.c)
	}
	return showTerm(v.t, d)
}

func showTerm(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d <= 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var b strings.Builder
	switch t.op {
	case OpVar:
		fmt.Fprintf(&b, "%s[%d]", t.s, t.k)
	case OpJunk:
		fmt.Fprintf(&b, "uninit(%s+%d)", t.s, t.k)
	case OpUnk:
		fmt.Fprintf(&b, "unknown(%s)", t.s)
	case OpCat:
		b.WriteString("{")
		for i := len(t.segs) - 1; i >= 0; i-- {
			s := t.segs[i]
			if i != len(t.segs)-1 {
				b.WriteString(".")
			}
			if s.p == nil {
				fmt.Fprintf(&b, "%#x:%d", s.c, s.n)
				continue
			}
			for j, m := range s.p.mons {
				if j > 0 {
					b.WriteString("^")
				}
				if j > 3 {
					fmt.Fprintf(&b, "..%d", len(s.p.mons))
					break
				}
				for q, x := range m {
					if q > 0 {
						b.WriteString("&")
					}
					fmt.Fprintf(&b, "%s<%d+%d>", showTerm(x.t, d-1), x.lo, s.n)
				}
			}
			if s.c != 0 {
				fmt.Fprintf(&b, "^%#x", s.c)
			}
		}
		b.WriteString("}")
	case OpSum, OpLin:
		b.WriteString("(")
		for i, l := range t.lin {
			if i > 6 {
				fmt.Fprintf(&b, "..%d", len(t.lin))
				break
			}
			if i > 0 {
				b.WriteString(" + ")
			}
			if c := signed(l.c, t.w); c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(showTerm(l.t, d-1))
		}
		if t.k != 0 {
			fmt.Fprintf(&b, " + %d", signed(uint64(t.k), t.w))
		}
		b.WriteString(")")
	case OpCase:
		fmt.Fprintf(&b, "case(%s:", showTerm(t.args[0], d-1))
		for i, e := range t.ents {
			if i > 3 {
				b.WriteString(" ..")
				break
			}
			fmt.Fprintf(&b, " [%d..%d]%s", e.lo, e.hi, showV(e.v, d-1))
		}
		b.WriteString(")")
	case OpIn:
		fmt.Fprintf(&b, "%s in %v", showTerm(t.args[0], d-1), t.ivs)
	case OpPtr:
		fmt.Fprintf(&b, "&%s+%d", t.reg.name, t.k)
	case OpFn:
		fmt.Fprintf(&b, "fn %s", t.s)
	case OpHash, OpHst:
		fmt.Fprintf(&b, "%s", t.s)
		if t.k != 0 {
			fmt.Fprintf(&b, "[%d]", t.k)
		}
		b.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" | ")
			}
			b.WriteString(showTerm(a, d-1))
		}
		b.WriteString(")")
	case OpSeq:
		fmt.Fprintf(&b, "%s[%s..+%s]", t.reg.name, showTerm(t.args[0], d-1), showTerm(t.args[1], d-1))
	case OpByteAt:
		if len(t.args) == 0 {
			fmt.Fprintf(&b, "%s[%d]", t.reg.name, t.k)
		} else {
			fmt.Fprintf(&b, "%s[%s]", t.reg.name, showTerm(t.args[0], d-1))
		}
	default:
		b.WriteString(opNames[t.op])
		b.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(showTerm(a, d-1))
		}
		if t.s != "" {
			b.WriteString(";" + t.s)
		}
		b.WriteString(")")
	}
	return b.String()
}
