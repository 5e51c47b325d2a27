package main

// A second abstract domain, for the hash primitives: data bits are hashed
// normal forms.  A bit is a GF(2) polynomial over atoms (input bits, bits of
// modular sums, products of large polynomials), represented by the XOR of the
// labels of its monomials; a modular sum is a linear form over bits,
// represented by its image under random linear maps.  Control, lengths and
// addresses must be constants.  Equal representations mean equal functions
// (up to label collisions); different ones are only reported if they also
// differ under some of 64 random valuations of the atoms carried along.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type fp struct{ a, b uint64 }

type bit struct {
	f   fp
	s   uint64 // 64 valuations, including inv
	inv bool
	fl  uint32
}

var bOne = bit{inv: true, s: ^uint64(0)}

func (b bit) isC() bool { return b.f == fp{} }

func mixfp(tag uint64, xs ...uint64) fp {
	a, b := uint64(0x243f6a8885a308d3)^tag, uint64(0x13198a2e03707344)+tag*0x9e3779b97f4a7c15
	for _, x := range xs {
		a = hmix2(a, x)
		b = hmix2(b+0xa4093822299f31d0, x^0x082efa98ec4e6c89)
	}
	return fp{hmix2(a, b), hmix2(b, a^0x452821e638d01377)}
}

func hmix2(h, v uint64) uint64 {
	hi, lo := bits.Mul64(h^v^0x9e3779b97f4a7c15, 0xbf58476d1ce4e5b9^(v<<1|1))
	x := hi ^ lo
	x ^= x >> 29
	x *= 0x94d049bb133111eb
	return x ^ x>>32
}

type pend struct {
	c uint64
	f *form
}

const nLane = 6

type form struct {
	w    int
	k    uint64
	l    [nLane]uint64
	p    []pend
	fl   uint32
	s    []uint64 // valuations of the bits, lazily
	labs []fp
	mk   func() []uint64
}

type nv struct {
	w    int
	isC  bool
	c    uint64
	r    *nreg
	fn   string
	bits []bit
	sum  *form
}

type nbyte struct {
	c   uint8
	b   *[8]bit
	ptr *nv
	pi  int
}

type nreg struct {
	name string
	mem  []nbyte
	ro   bool
	why  string
	algn int // as in Region
	// a region larger than its storage: offsets from cut on stand for offset+gap
	virt, cut, gap int64
}

type sumRec struct {
	f *form
	i int
}

type nets struct {
	m       *Module
	x       *X          // only to record events and statistics
	polys   map[fp][]fp // monomials, when few
	monos   map[fp][]fp // atoms of a monomial, when more than one
	shad    map[fp]uint64
	sums    map[fp]sumRec
	known   map[fp][]bit // linear forms that are plain words
	globs   map[string]*nreg
	hooks   map[string]func(args []nv) nv
	depth   int
	steps   int64
	calls   int64
	ops     int64
	stack   []string
	cur     *Instr
	taintOK bool
	fns     map[string]bool

	frames       []*nframe
	heads        map[*Func]map[int]bool
	onHead       func(fr *nframe, blk int)
	onCall       func(f *Func, args []nv) (nv, bool)
	lenLo, lenHi uint64 // what the unknown length ranges over
	deadline     func()
}

func newNets(m *Module, x *X) *nets {
	e := &nets{m: m, x: x, polys: map[fp][]fp{}, monos: map[fp][]fp{}, shad: map[fp]uint64{}, sums: map[fp]sumRec{}, known: map[fp][]bit{}, globs: map[string]*nreg{}, hooks: map[string]func([]nv) nv{}, fns: map[string]bool{}, heads: map[*Func]map[int]bool{}}
	for _, n := range m.gorder {
		g := m.globals[n]
		r := &nreg{name: n[1:], mem: make([]nbyte, g.ty.layout().size), ro: g.isConst, why: "constant data"}
		e.globs[n] = r
	}
	for _, n := range m.gorder {
		if g := m.globals[n]; g.init != nil {
			e.writeInit(e.globs[n], 0, g.init)
		}
	}
	return e
}

func (e *nets) writeInit(r *nreg, off int, ci *ConstInit) {
	ty := ci.ty.layout()
	switch {
	case ci.undef, ci.zero:
	case ci.str != nil:
		for i, b := range ci.str {
			r.mem[off+i].c = b
		}
	case ci.gref != "":
		v := &nv{w: 64, isC: true, fn: ci.gref, c: uint64(ci.goff)}
		if g, ok := e.globs[ci.gref]; ok {
			v.r, v.fn = g, ""
		}
		for i := 0; i < 8; i++ {
			r.mem[off+i] = nbyte{ptr: v, pi: i}
		}
	case ci.elems != nil:
		for i, el := range ci.elems {
			if ty.k == TArr {
				e.writeInit(r, off+i*ty.elem.layout().size, el)
			} else {
				e.writeInit(r, off+ty.offs[i], el)
			}
		}
	default:
		for i := 0; i < ty.size && i < 8; i++ {
			r.mem[off+i].c = uint8(ci.ival >> uint(8*i))
		}
	}
}

// ---------- bits

func (e *nets) atom(name string, fl uint32) bit {
	h := sha256.Sum256([]byte(name))
	f := fp{binary.LittleEndian.Uint64(h[:]), binary.LittleEndian.Uint64(h[8:])}
	return bit{f: f, s: binary.LittleEndian.Uint64(h[16:]), fl: fl}
}

// varWord: w input bits.
func (e *nets) varBits(name string, w int, fl uint32) []bit {
	out := make([]bit, w)
	for i := range out {
		out[i] = e.atom(fmt.Sprintf("%s.%d", name, i), fl)
	}
	return out
}

func (e *nets) list(f fp) ([]fp, bool) {
	if (f == fp{}) {
		return nil, true
	}
	if l, ok := e.polys[f]; ok {
		return l, l != nil
	}
	return []fp{f}, true
}

const polyMax = 6

func symDiff(a, b []fp) []fp {
	var out []fp
	for _, x := range a {
		dup := false
		for _, y := range b {
			if x == y {
				dup = true
				break
			}
		}
		if !dup {
			out = append(out, x)
		}
	}
	for _, y := range b {
		dup := false
		for _, x := range a {
			if x == y {
				dup = true
				break
			}
		}
		if !dup {
			out = append(out, y)
		}
	}
	return out
}

func (e *nets) xor(a, b bit) bit {
	e.ops++
	r := bit{f: fp{a.f.a ^ b.f.a, a.f.b ^ b.f.b}, s: a.s ^ b.s, inv: a.inv != b.inv, fl: a.fl | b.fl}
	if a.isC() || b.isC() {
		return r
	}
	if r.isC() {
		r.fl = 0
		return r
	}
	if _, ok := e.polys[r.f]; !ok {
		la, oka := e.list(a.f)
		lb, okb := e.list(b.f)
		var l []fp
		if oka && okb {
			l = symDiff(la, lb)
			if len(l) > polyMax {
				l = nil
			}
		}
		if len(l) != 1 || l[0] != r.f {
			e.polys[r.f] = l
		}
	}
	return r
}

func not(a bit) bit { a.inv = !a.inv; a.s = ^a.s; return a }

func (e *nets) monoOf(f fp) []fp {
	if l, ok := e.monos[f]; ok {
		return l
	}
	return []fp{f}
}

func (e *nets) monoMul(a, b fp) fp {
	if a == b {
		return a
	}
	la, lb := e.monoOf(a), e.monoOf(b)
	all := append(append([]fp{}, la...), lb...)
	sort.Slice(all, func(i, j int) bool { return all[i].a < all[j].a })
	out := all[:0]
	for i, x := range all {
		if i == 0 || x != out[len(out)-1] {
			out = append(out, x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	var ks []uint64
	for _, x := range out {
		ks = append(ks, x.a, x.b)
	}
	f := mixfp(1, ks...)
	e.monos[f] = out
	return f
}

func (e *nets) and(a, b bit) bit {
	e.ops++
	if a.isC() {
		if a.inv {
			return b
		}
		return bit{}
	}
	if b.isC() {
		if b.inv {
			return a
		}
		return bit{}
	}
	fl := a.fl | b.fl
	if a.f == b.f {
		if a.inv == b.inv {
			return a
		}
		return bit{}
	}
	A, B := a, b
	if A.inv {
		A = not(A)
	}
	if B.inv {
		B = not(B)
	}
	var p bit
	la, oka := e.list(A.f)
	lb, okb := e.list(B.f)
	var l []fp
	ok := false
	if oka && okb && len(la)*len(lb) <= 2*polyMax {
		for _, x := range la {
			for _, y := range lb {
				l = symDiff(l, []fp{e.monoMul(x, y)})
			}
		}
		ok = len(l) <= polyMax
	}
	if ok {
		var f fp
		for _, x := range l {
			f.a ^= x.a
			f.b ^= x.b
		}
		p = bit{f: f, s: A.s & B.s, fl: fl}
		if len(l) > 1 {
			e.polys[f] = l
		}
	} else {
		x, y := A.f, B.f
		if y.a < x.a {
			x, y = y, x
		}
		p = bit{f: mixfp(2, x.a, x.b, y.a, y.b), s: A.s & B.s, fl: fl}
	}
	// (A^ca)(B^cb) = AB ^ ca B ^ cb A ^ ca cb
	if a.inv {
		p = e.xor(p, B)
	}
	if b.inv {
		p = e.xor(p, A)
	}
	if a.inv && b.inv {
		p = not(p)
	}
	return p
}

func (e *nets) or(a, b bit) bit { return not(e.and(not(a), not(b))) }

// ---------- modular sums

func (f *form) trunc(w int) *form {
	if w >= f.w {
		return f
	}
	m := mask(int32(w))
	g := &form{w: w, k: f.k & m, fl: f.fl}
	for i := range g.l {
		g.l[i] = f.l[i] & m
	}
	for _, p := range f.p {
		g.addPend(p.c, p.f)
	}
	src := f
	g.mk = func() []uint64 { return src.shadow()[:w] }
	return g
}

// addPend adds c times the integer value of a narrower form.
func (g *form) addPend(c uint64, f *form) {
	m := mask(int32(g.w))
	c &= m
	if c == 0 {
		return
	}
	tz := bits.TrailingZeros64(c)
	if tz+f.w > g.w {
		f = f.trunc(g.w - tz)
	}
	if tz+f.w == g.w {
		g.k = (g.k + c*f.k) & m
		for i := range g.l {
			g.l[i] = (g.l[i] + c*f.l[i]) & m
		}
		for _, p := range f.p {
			g.addPend(c*p.c, p.f)
		}
		g.fl |= f.fl
		return
	}
	key := f.key()
	for i := range g.p {
		if g.p[i].f.key() == key {
			g.p[i].c = (g.p[i].c + c) & m
			if g.p[i].c == 0 {
				g.p = append(g.p[:i:i], g.p[i+1:]...)
			}
			return
		}
	}
	g.p = append(g.p[:len(g.p):len(g.p)], pend{c, f})
	g.fl |= f.fl
}

func (f *form) key() fp {
	xs := make([]uint64, 0, 12)
	xs = append(xs, uint64(f.w), f.k)
	xs = append(xs, f.l[:]...)
	if len(f.p) > 0 {
		type pk struct {
			k fp
			c uint64
		}
		var ps []pk
		for _, p := range f.p {
			ps = append(ps, pk{p.f.key(), p.c})
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].k.a < ps[j].k.a })
		for _, p := range ps {
			xs = append(xs, p.k.a, p.k.b, p.c)
		}
	}
	return mixfp(3, xs...)
}

func (f *form) isConst() bool { return len(f.p) == 0 && f.l == [nLane]uint64{} }

func (f *form) shadow() []uint64 {
	if f.s == nil {
		f.s = f.mk()
	}
	return f.s
}

func (e *nets) label(f *form, i int) fp {
	if f.labs == nil {
		f.labs = make([]fp, f.w)
	}
	if (f.labs[i] == fp{}) {
		var k fp
		if len(f.p) == 0 {
			m := mask(int32(i + 1))
			var xs [nLane + 2]uint64
			xs[0], xs[1] = uint64(i), f.k&m
			for j := range f.l {
				xs[j+2] = f.l[j] & m
			}
			k = mixfp(4, xs[:]...)
		} else {
			g := f.trunc(i + 1)
			if len(g.p) == 0 {
				k = e.label(g, i)
			} else {
				q := g.key()
				k = mixfp(5, q.a, q.b)
			}
		}
		f.labs[i] = k
		if _, ok := e.sums[k]; !ok {
			e.sums[k] = sumRec{f, i}
		}
	}
	return f.labs[i]
}

func (e *nets) formOf(v nv) *form {
	if v.isC {
		return &form{w: v.w, k: v.c & mask(int32(v.w)), mk: func() []uint64 { return shadowC(v.c, v.w) }}
	}
	if v.sum != nil && v.sum.w == v.w {
		return v.sum
	}
	if v.sum != nil && v.bits == nil && v.sum.w > v.w {
		return v.sum.trunc(v.w)
	}
	bs := e.bitsOf(v)
	g := &form{w: v.w}
	sh := make([]uint64, v.w)
	for i := range bs {
		sh[i] = bs[i].s
		g.fl |= bs[i].fl
	}
	g.s = sh
	m := mask(int32(v.w))
	for p := 0; p < v.w; {
		b := bs[p]
		if b.isC() {
			if b.inv {
				g.k += uint64(1) << uint(p)
			}
			p++
			continue
		}
		if r, ok := e.sums[b.f]; ok && r.i == 0 && !b.inv {
			// the longest run that is the low part of one sum
			done := false
			for q := v.w - 1; q >= p; q-- {
				rr, ok := e.sums[bs[q].f]
				if !ok || bs[q].inv || rr.i != q-p {
					continue
				}
				good := true
				for j := p; j < q && good; j++ {
					good = !bs[j].inv && bs[j].f == e.label(rr.f, j-p)
				}
				if good {
					g.addPend(uint64(1)<<uint(p), rr.f.trunc(q-p+1))
					p = q + 1
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		c := uint64(1) << uint(p)
		if b.inv {
			g.k += c
			c = -c
		}
		for i := range g.l {
			g.l[i] += c * hmix2(b.f.a+uint64(i)*0x9e3779b97f4a7c15, b.f.b)
		}
		p++
	}
	g.k &= m
	for i := range g.l {
		g.l[i] &= m
	}
	k := g.key()
	if _, ok := e.known[k]; !ok {
		e.known[k] = bs
	}
	return g
}

func shadowC(c uint64, w int) []uint64 {
	s := make([]uint64, w)
	for i := range s {
		if c>>uint(i)&1 == 1 {
			s[i] = ^uint64(0)
		}
	}
	return s
}

// lin computes a + c*b modulo 2^w.
func (e *nets) lin(a nv, b nv, c uint64, w int) nv {
	if a.isC && b.isC {
		return cnv((a.c+c*b.c)&mask(int32(w)), w)
	}
	if a.isC && a.c == 0 && c == 1 {
		return b
	}
	if b.isC && b.c == 0 {
		return a
	}
	if a.isC && a.c == 0 && c&(c-1) == 0 {
		return e.shl(b, bits.TrailingZeros64(c))
	}
	if c == 1 {
		// disjoint words concatenate
		if x, y := a, b; (x.isC || x.sum == nil || x.bits != nil) && (y.isC || y.sum == nil || y.bits != nil) {
			xb, yb := e.bitsOf(x), e.bitsOf(y)
			ok := true
			out := make([]bit, w)
			for i := 0; i < w; i++ {
				switch {
				case xb[i].isC() && !xb[i].inv:
					out[i] = yb[i]
				case yb[i].isC() && !yb[i].inv:
					out[i] = xb[i]
				default:
					ok = false
				}
				if !ok {
					break
				}
			}
			if ok {
				return bitsNV(out)
			}
		}
	}
	fa, fb := e.formOf(a), e.formOf(b)
	m := mask(int32(w))
	g := &form{w: w, k: (fa.k + c*fb.k) & m, fl: fa.fl | fb.fl}
	for i := range g.l {
		g.l[i] = (fa.l[i] + c*fb.l[i]) & m
	}
	g.p = append([]pend{}, fa.p...)
	for _, p := range fb.p {
		g.addPend(c*p.c, p.f)
	}
	g.mk = func() []uint64 {
		x, y := fa.shadow(), fb.shadow()
		if c == 1 {
			return rippleAdd(x, y, 0)
		}
		if c == ^uint64(0)&m || c == ^uint64(0) {
			n := make([]uint64, w)
			for i := range n {
				n[i] = ^y[i]
			}
			return rippleAdd(x, n, ^uint64(0))
		}
		acc := append([]uint64{}, x...)
		for s := 0; s < w; s++ {
			if c>>uint(s)&1 == 1 {
				sh := make([]uint64, w)
				copy(sh[s:], y[:w-s])
				acc = rippleAdd(acc, sh, 0)
			}
		}
		return acc
	}
	if g.isConst() {
		return cnv(g.k, w)
	}
	if bs, ok := e.known[g.key()]; ok {
		return bitsNV(bs)
	}
	return nv{w: w, sum: g}
}

func rippleAdd(x, y []uint64, cin uint64) []uint64 {
	out := make([]uint64, len(x))
	c := cin
	for i := range x {
		t := x[i] ^ y[i]
		out[i] = t ^ c
		c = x[i]&y[i] | t&c
	}
	return out
}

func cnv(c uint64, w int) nv { return nv{w: w, isC: true, c: c & mask(int32(w))} }

func bitsNV(bs []bit) nv {
	c := uint64(0)
	for i, b := range bs {
		if !b.isC() {
			return nv{w: len(bs), bits: bs}
		}
		if b.inv {
			c |= 1 << uint(i)
		}
	}
	return cnv(c, len(bs))
}

func (e *nets) bitsOf(v nv) []bit {
	if v.isC {
		out := make([]bit, v.w)
		for i := range out {
			if v.c>>uint(i)&1 == 1 {
				out[i] = bOne
			}
		}
		return out
	}
	if v.bits != nil {
		return v.bits
	}
	sh := v.sum.shadow()
	out := make([]bit, v.w)
	for i := range out {
		out[i] = bit{f: e.label(v.sum, i), s: sh[i], fl: v.sum.fl}
	}
	return out
}

func (e *nets) bw(a, b nv, f func(x, y bit) bit) nv {
	x, y := e.bitsOf(a), e.bitsOf(b)
	out := make([]bit, a.w)
	for i := range out {
		out[i] = f(x[i], y[i])
	}
	return bitsNV(out)
}

func (e *nets) shl(a nv, k int) nv {
	if k == 0 {
		return a
	}
	x := e.bitsOf(a)
	out := make([]bit, a.w)
	if k < a.w {
		copy(out[k:], x[:a.w-k])
	}
	return bitsNV(out)
}

func (e *nets) shr(a nv, k int) nv {
	if k == 0 {
		return a
	}
	x := e.bitsOf(a)
	out := make([]bit, a.w)
	if k < a.w {
		copy(out, x[k:])
	}
	return bitsNV(out)
}

func (e *nets) rotr(a nv, k int) nv {
	x := e.bitsOf(a)
	out := make([]bit, a.w)
	for i := range out {
		out[i] = x[(i+k)%a.w]
	}
	return bitsNV(out)
}

func (e *nets) zext(a nv, w int) nv {
	if a.isC {
		return nv{w: w, isC: true, c: a.c, r: a.r, fn: a.fn}
	}
	out := make([]bit, w)
	copy(out, e.bitsOf(a))
	return bitsNV(out)
}

func (e *nets) truncV(a nv, w int) nv {
	if a.isC {
		if a.r != nil && w < 64 {
			unknown("pointer truncated")
		}
		if a.r != nil {
			return a
		}
		return cnv(a.c, w)
	}
	if a.sum != nil && a.bits == nil {
		g := a.sum.trunc(w)
		if g.isConst() {
			return cnv(g.k, w)
		}
		if bs, ok := e.known[g.key()]; ok {
			return bitsNV(bs)
		}
		return nv{w: w, sum: g}
	}
	return bitsNV(append([]bit{}, e.bitsOf(a)[:w]...))
}

// ---------- memory

func (e *nets) aligned(p nv, in *Instr) {
	if p.r == nil || p.r.algn == 0 || in.algn <= 1 {
		return
	}
	if p.r.algn%in.algn != 0 {
		e.ev("misaligned", "access to %s, which has no particular alignment, assumes a multiple of %d", p.r.name, in.algn)
	} else if p.c%uint64(in.algn) != 0 {
		e.ev("misaligned", "access at offset %d of %s assumes a multiple of %d", p.c, p.r.name, in.algn)
	}
}

func (e *nets) newReg(name string, n int, fl uint32) *nreg {
	r := &nreg{name: name, mem: make([]nbyte, n)}
	e.junkFill(r, 0, n, fl)
	return r
}

// byteReg: a buffer of the caller's.
func (e *nets) byteReg(name string, n int) *nreg {
	r := e.newReg(name, n, FJunk)
	r.algn = 1
	return r
}

func (e *nets) junkFill(r *nreg, lo, hi int, fl uint32) {
	for i := lo; i < hi; i++ {
		var b [8]bit
		copy(b[:], e.varBits(fmt.Sprintf("%s[%d]", r.name, i), 8, fl))
		r.mem[i] = nbyte{b: &b}
	}
}

func (r *nreg) clone() *nreg {
	k := *r
	k.mem = append([]nbyte{}, r.mem...)
	return &k
}

func (e *nets) access(r *nreg, off int64, n int, write bool) {
	e.x.accesses++
	if r == nil {
		e.ev("oob", "%s through an invalid pointer", rw(write))
		unknown("invalid pointer")
	}
	if off < 0 || off+int64(n) > r.size() {
		e.ev("oob", "%s of %d byte(s) at offset %d of %s, which has %d bytes", rw(write), n, off, r.name, r.size())
		unknown("out of bounds access to %s", r.name)
	}
	if write && r.ro {
		e.ev("rowrite", "write to %s: %s", r.name, r.why)
	}
}

func (r *nreg) size() int64 {
	if r.virt > 0 {
		return r.virt
	}
	return int64(len(r.mem))
}

// at gives the storage of n bytes at an offset.
func (r *nreg) at(off int64, n int) []nbyte {
	if r.virt > 0 {
		switch {
		case r.gap > 0 && off >= r.cut+r.gap:
			off -= r.gap
		case r.gap > 0 && off+int64(n) > r.cut && n > 0:
			unknown("access to the skipped part of %s", r.name)
		}
		if off+int64(n) > int64(len(r.mem)) {
			unknown("access beyond the represented part of %s", r.name)
		}
	}
	return r.mem[off : off+int64(n)]
}

func (r *nreg) bytes(e *nets, off int64, n int) []nbyte {
	e.access(r, off, n, false)
	return append([]nbyte{}, r.at(off, n)...)
}

func (e *nets) ev(kind, f string, a ...interface{}) {
	e.x.cur = e.cur
	e.x.event(nil, kind, f, a...)
}

func (b nbyte) bit8(e *nets) [8]bit {
	if b.b != nil {
		return *b.b
	}
	if b.ptr != nil {
		unknown("bytes of a pointer")
	}
	var o [8]bit
	for i := range o {
		if b.c>>uint(i)&1 == 1 {
			o[i] = bOne
		}
	}
	return o
}

func (e *nets) load(r *nreg, off int64, n int) nv {
	e.access(r, off, n, false)
	cs := r.at(off, n)
	if n == 8 && cs[0].ptr != nil {
		for i := range cs {
			if cs[i].ptr != cs[0].ptr || cs[i].pi != i {
				unknown("torn pointer")
			}
		}
		return *cs[0].ptr
	}
	allc := true
	c := uint64(0)
	for i, b := range cs {
		if b.b != nil || b.ptr != nil {
			allc = false
			break
		}
		c |= uint64(b.c) << uint(8*i)
	}
	if allc {
		return cnv(c, 8*n)
	}
	out := make([]bit, 0, 8*n)
	for _, b := range cs {
		q := b.bit8(e)
		out = append(out, q[:]...)
	}
	return bitsNV(out)
}

func (e *nets) store(r *nreg, off int64, v nv, n int) {
	e.access(r, off, n, true)
	mem := r.at(off, n)
	if v.r != nil || v.fn != "" {
		if n != 8 {
			unknown("partial pointer store")
		}
		p := v
		for i := 0; i < 8; i++ {
			mem[i] = nbyte{ptr: &p, pi: i}
		}
		return
	}
	if v.isC {
		for i := 0; i < n; i++ {
			mem[i] = nbyte{c: uint8(v.c >> uint(8*i))}
		}
		return
	}
	bs := e.bitsOf(v)
	for i := 0; i < n; i++ {
		mem[i] = mkByte(bs[8*i : 8*i+8])
	}
}

func mkByte(bs []bit) nbyte {
	c := uint8(0)
	all := true
	for j, b := range bs {
		if !b.isC() {
			all = false
			break
		}
		if b.inv {
			c |= 1 << uint(j)
		}
	}
	if all {
		return nbyte{c: c}
	}
	var a [8]bit
	copy(a[:], bs)
	return nbyte{b: &a}
}

// ---------- interpreter

func (e *nets) callName(name string, args ...nv) nv {
	f := e.m.funcs[name]
	if f == nil {
		unknown("function %s not found", name)
	}
	return e.call(f, args)
}

func (e *nets) call(f *Func, args []nv) nv {
	if h, ok := e.hooks[f.name]; ok {
		return h(args)
	}
	e.calls++
	e.x.calls++
	e.fns[f.name] = true
	if e.onCall != nil && len(e.frames) > 0 {
		if v, ok := e.onCall(f, args); ok {
			return v
		}
	}
	e.depth++
	if e.depth > 40 {
		unknown("call depth")
	}
	regs := make([]nv, f.nregs)
	fr := &nframe{f: f, regs: regs}
	e.frames = append(e.frames, fr)
	defer func() {
		e.depth--
		if len(e.frames) > 0 {
			e.frames = e.frames[:len(e.frames)-1]
		}
	}()
	heads := e.headsOf(f)
	for i, p := range f.params {
		if i < len(args) {
			regs[p] = args[i]
		}
	}
	bi, prev := 0, -1
	val := func(o *Operand) nv {
		switch o.k {
		case OReg:
			return regs[o.reg]
		case OConst:
			w := 64
			if o.ty != nil && o.ty.k == TInt {
				w = o.ty.bits
			}
			return cnv(o.c, w)
		case OUndef:
			w := 64
			if o.ty != nil && o.ty.k == TInt {
				w = o.ty.bits
			}
			return bitsNV(e.varBits("undef", w, FJunk))
		case OGlobal:
			if r, ok := e.globs[o.g]; ok {
				return nv{w: 64, isC: true, r: r, c: o.c}
			}
			return nv{w: 64, isC: true, fn: o.g}
		}
		panic("operand")
	}
	need := func(v nv, what string) uint64 {
		if !v.isC {
			fl := uint32(0)
			for _, b := range e.bitsOf(v) {
				fl |= b.fl
			}
			if fl&FJunk != 0 {
				e.ev("uninit", "%s depends on uninitialised memory", what)
			}
			if fl&FData != 0 {
				e.ev("taint", "%s depends on the data being hashed", what)
			}
			unknown("%s at %s is not constant", what, e.where())
		}
		return v.c
	}
	for {
		b := f.blocks[bi]
		if b.nphi > 0 {
			tmp := make([]nv, b.nphi)
			for i, ph := range b.ins[:b.nphi] {
				ok := false
				for j, pb := range ph.phiBlk {
					if pb == prev {
						tmp[i] = val(&ph.args[j])
						ok = true
					}
				}
				if !ok {
					unknown("phi")
				}
			}
			for i, ph := range b.ins[:b.nphi] {
				regs[ph.dst] = tmp[i]
			}
		}
		fr.blk, fr.at = bi, nil
		if e.onHead != nil && heads[bi] {
			e.onHead(fr, bi)
		}
		next := -1
		for _, in := range b.ins[b.nphi:] {
			e.steps++
			e.x.steps++
			e.cur = in
			switch in.op {
			case IAdd, ISub, IMul, IUDiv, ISDiv, IURem, ISRem, IShl, ILShr, IAShr, IAnd, IOr, IXor:
				regs[in.dst] = e.bin(in, val(&in.a), val(&in.b), need)
			case IZext:
				regs[in.dst] = e.zext(val(&in.a), in.ty.bits)
			case ISext:
				a := val(&in.a)
				if a.isC {
					regs[in.dst] = nv{w: in.ty.bits, isC: true, c: uint64(signed(a.c, int32(a.w))) & mask(int32(in.ty.bits)), r: a.r}
				} else {
					x := e.bitsOf(a)
					out := make([]bit, in.ty.bits)
					for i := range out {
						out[i] = x[min(i, a.w-1)]
					}
					regs[in.dst] = bitsNV(out)
				}
			case ITrunc:
				regs[in.dst] = e.truncV(val(&in.a), in.ty.bits)
			case IPtrToInt, IIntToPtr, IBitcast, IFreeze:
				regs[in.dst] = val(&in.a)
			case IGep:
				p := val(&in.a)
				off := int64(need(p, "address")) + in.goff
				for i := range in.args {
					v := val(&in.args[i])
					k := signed(need(v, "array index"), int32(v.w))
					if len(in.gbound) > i && in.gbound[i] >= 0 && (k < 0 || k > in.gbound[i]) {
						e.ev("oob", "index %d into an array of %d elements", k, in.gbound[i])
					}
					off += k * in.gsc[i]
				}
				p.c = uint64(off)
				p.w = 64
				regs[in.dst] = p
			case IIcmp:
				a, c := val(&in.a), val(&in.b)
				regs[in.dst] = e.icmp(in, a, c, need)
			case ISelect:
				c := val(&in.a)
				if c.isC {
					if c.c&1 == 1 {
						regs[in.dst] = val(&in.b)
					} else {
						regs[in.dst] = val(&in.c)
					}
				} else {
					t, u := val(&in.b), val(&in.c)
					if t.r != nil || u.r != nil {
						need(c, "pointer choice")
					}
					cb := e.bitsOf(c)[0]
					regs[in.dst] = e.bw(t, u, func(x, y bit) bit { return e.xor(y, e.and(cb, e.xor(x, y))) })
				}
			case IAlloca:
				n := need(val(&in.a), "allocation size")
				r := e.newReg(f.name[1:]+":"+f.regNames[in.dst], int(uint64(in.ty.size)*n), FJunk)
				r.algn = in.algn
				fr.allocs = append(fr.allocs, r)
				regs[in.dst] = nv{w: 64, isC: true, r: r}
			case ILoad:
				p := val(&in.a)
				need(p, "address")
				e.aligned(p, in)
				n := in.ty.layout().size
				if in.ty.k == TPtr {
					n = 8
				}
				v := e.load(p.r, int64(p.c), n)
				if in.ty.k == TInt && in.ty.bits < v.w {
					v = e.truncV(v, in.ty.bits)
				}
				regs[in.dst] = v
			case IStore:
				v, p := val(&in.a), val(&in.b)
				need(p, "address")
				e.aligned(p, in)
				n := in.ty.layout().size
				if v.w < 8*n {
					v = e.zext(v, 8*n)
				}
				e.store(p.r, int64(p.c), v, n)
			case ICall:
				e.x.tick()
				args := make([]nv, len(in.args))
				for i := range in.args {
					args[i] = val(&in.args[i])
				}
				callee := in.callee
				if callee == "" {
					t := val(&in.a)
					if t.fn == "" {
						unknown("indirect call at %s", e.where())
					}
					callee = t.fn
				}
				fr.at = in
				r := e.doCall(in, callee, args, need)
				fr.at = nil
				if in.dst >= 0 {
					regs[in.dst] = r
				}
			case IBr:
				next = in.blk[0]
			case ICondBr:
				e.x.branches++
				if need(val(&in.a), "branch condition")&1 == 1 {
					next = in.blk[0]
				} else {
					next = in.blk[1]
				}
			case ISwitch:
				v := need(val(&in.a), "switch value")
				next = in.blk[0]
				for i, c := range in.cases {
					if c&mask(tyW(in.a.ty)) == v {
						next = in.blk[i+1]
						break
					}
				}
			case IRet:
				if in.ty.k != TVoid {
					return val(&in.a)
				}
				return nv{}
			default:
				unknown("instruction at %s", e.where())
			}
			if next >= 0 {
				break
			}
		}
		if next < 0 {
			unknown("fell off block")
		}
		prev, bi = bi, next
	}
}

func (e *nets) where() string {
	if e.cur == nil {
		return "?"
	}
	return fmt.Sprintf("%s:%d (%s)", e.cur.fn.file, e.cur.line, strings.TrimPrefix(e.cur.fn.name, "@"))
}

func (e *nets) bin(in *Instr, a, c nv, need func(nv, string) uint64) nv {
	w := in.ty.bits
	if a.isC && c.isC {
		if a.r != nil || c.r != nil {
			switch {
			case in.op == ISub && a.r == c.r:
				return cnv(a.c-c.c, w)
			case in.op == IAdd && c.r == nil:
				return nv{w: w, isC: true, r: a.r, c: a.c + c.c}
			case in.op == IAdd && a.r == nil:
				return nv{w: w, isC: true, r: c.r, c: a.c + c.c}
			case in.op == ISub && c.r == nil:
				return nv{w: w, isC: true, r: a.r, c: a.c - c.c}
			}
			unknown("pointer arithmetic at %s", e.where())
		}
		e.x.cur = in
		return cnv(e.x.binC(nil, in, a.c, c.c), w)
	}
	switch in.op {
	case IAdd:
		return e.lin(a, c, 1, w)
	case ISub:
		return e.lin(a, c, ^uint64(0), w)
	case IMul:
		if a.isC {
			a, c = c, a
		}
		return e.lin(cnv(0, w), a, need(c, "factor"), w)
	case IUDiv, IURem:
		k := need(c, "divisor")
		if k == 0 || k&(k-1) != 0 {
			unknown("division of data at %s", e.where())
		}
		z := bits.TrailingZeros64(k)
		if in.op == IUDiv {
			return e.shr(a, z)
		}
		return e.bw(a, cnv(k-1, w), e.and)
	case IShl, ILShr, IAShr:
		k := need(c, "shift amount")
		if k >= uint64(w) {
			e.ev("ub", "shift by %d of a %d-bit value", k, w)
			return cnv(0, w)
		}
		switch in.op {
		case IShl:
			return e.shl(a, int(k))
		case ILShr:
			return e.shr(a, int(k))
		}
		x := e.bitsOf(a)
		out := make([]bit, w)
		for i := range out {
			out[i] = x[min(i+int(k), w-1)]
		}
		return bitsNV(out)
	case IAnd:
		return e.bw(a, c, e.and)
	case IOr:
		return e.bw(a, c, e.or)
	case IXor:
		return e.bw(a, c, e.xor)
	}
	unknown("operation at %s", e.where())
	return nv{}
}

func (e *nets) icmp(in *Instr, a, c nv, need func(nv, string) uint64) nv {
	w := tyW(in.ty)
	if a.isC && c.isC {
		if a.r != nil || c.r != nil {
			if a.r == c.r || in.pred == "eq" || in.pred == "ne" {
				if a.r != c.r {
					if in.pred == "eq" {
						return cnv(0, 1)
					}
					return cnv(1, 1)
				}
				return cnv(icmpC(in.pred, a.c, c.c, 64), 1)
			}
			unknown("pointer comparison")
		}
		return cnv(icmpC(in.pred, a.c, c.c, w), 1)
	}
	if r, ok := e.lenCmp(in, a, c, int(w)); ok {
		return r
	}
	if in.pred == "eq" || in.pred == "ne" {
		x, y := e.bitsOf(a), e.bitsOf(c)
		acc := bOne
		for i := range x {
			acc = e.and(acc, not(e.xor(x[i], y[i])))
		}
		if in.pred == "ne" {
			acc = not(acc)
		}
		return bitsNV([]bit{acc})
	}
	need(a, "comparison")
	need(c, "comparison")
	return nv{}
}

func (e *nets) doCall(in *Instr, callee string, args []nv, need func(nv, string) uint64) nv {
	if f, ok := e.m.funcs[callee]; ok {
		r := e.call(f, args)
		e.cur = in
		return r
	}
	if h, ok := e.hooks[callee]; ok {
		return h(args)
	}
	name := callee[1:]
	switch {
	case hasPre(name, "llvm.memcpy"), hasPre(name, "llvm.memmove"), name == "memcpy", name == "memmove":
		n := need(args[2], "length")
		if n == 0 {
			return args[0]
		}
		if n > 1<<20 {
			e.ev("oob", "copy of %d bytes", n)
			unknown("huge copy")
		}
		d, s := args[0], args[1]
		need(d, "address")
		need(s, "address")
		e.access(s.r, int64(s.c), int(n), false)
		e.access(d.r, int64(d.c), int(n), true)
		if s.r == d.r && (name == "memcpy" || hasPre(name, "llvm.memcpy")) && int64(s.c) < int64(d.c)+int64(n) && int64(d.c) < int64(s.c)+int64(n) && s.c != d.c {
			e.ev("ub", "memcpy between overlapping objects")
		}
		tmp := append([]nbyte{}, s.r.at(int64(s.c), int(n))...)
		copy(d.r.at(int64(d.c), int(n)), tmp)
		return d
	case hasPre(name, "llvm.memset"), name == "memset":
		n := need(args[2], "length")
		if n == 0 {
			return args[0]
		}
		if n > 1<<20 {
			e.ev("oob", "memset of %d bytes", n)
			unknown("huge memset")
		}
		e.access(args[0].r, int64(args[0].c), int(n), true)
		v := e.truncV(args[1], 8)
		for i := uint64(0); i < n; i++ {
			e.store(args[0].r, int64(args[0].c+i), v, 1)
		}
		return args[0]
	case hasPre(name, "llvm.bswap"):
		w := in.ty.bits
		x := e.bitsOf(args[0])
		out := make([]bit, w)
		for i := 0; i < w/8; i++ {
			copy(out[8*i:8*i+8], x[w-8*i-8:w-8*i])
		}
		return bitsNV(out)
	case hasPre(name, "llvm.fshl"), hasPre(name, "llvm.fshr"):
		w := in.ty.bits
		k := int(need(args[2], "shift amount") % uint64(w))
		x := append(append([]bit{}, e.bitsOf(args[1])...), e.bitsOf(args[0])...)
		if hasPre(name, "llvm.fshl") {
			return bitsNV(append([]bit{}, x[w-k:2*w-k]...))
		}
		return bitsNV(append([]bit{}, x[k:k+w]...))
	case hasPre(name, "llvm.umin"), hasPre(name, "llvm.umax"):
		a, b := need(args[0], "minimum"), need(args[1], "minimum")
		if (a < b) == (name[6:9] == "min") {
			return args[0]
		}
		return args[1]
	case name == "svc.barrier":
		if len(args) > 0 {
			return args[0]
		}
		return nv{}
	case hasPre(name, "llvm.dbg"), hasPre(name, "llvm.lifetime"):
		return nv{}
	}
	e.ev("extern", "call of external function %s", name)
	unknown("external call %s", name)
	return nv{}
}

// differ: 0 equal, 1 different for certain, 2 not decided.
func (e *nets) differ(a, b nv) int {
	x, y := e.bitsOf(a), e.bitsOf(b)
	r := 0
	for i := range x {
		if x[i].f != y[i].f || x[i].inv != y[i].inv {
			if x[i].s != y[i].s {
				return 1
			}
			r = 2
		}
	}
	return r
}

// differ2 also compares pointers and constants.
func (e *nets) differ2(a, b nv) int {
	if a.w != b.w {
		return 2
	}
	if a.isC && b.isC {
		if a.r == b.r && a.fn == b.fn && a.c == b.c {
			return 0
		}
		return 1
	}
	if a.r != nil || b.r != nil || a.fn != "" || b.fn != "" {
		return 1
	}
	if a.w == 0 {
		return 0
	}
	return e.differ(a, b)
}

func (e *nets) headsOf(f *Func) map[int]bool {
	h, ok := e.heads[f]
	if ok {
		return h
	}
	h = map[int]bool{}
	state := make([]int, len(f.blocks))
	var dfs func(b int)
	dfs = func(b int) {
		state[b] = 1
		for _, s := range f.blocks[b].succ {
			if state[s] == 1 {
				h[s] = true
			} else if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	dfs(0)
	e.heads[f] = h
	return h
}

// ---------- an unknown length

func (e *nets) lenVar() nv { return bitsNV(e.varBits("length", 64, 0)) }

// lenOff: v is the unknown length plus a constant.
func (e *nets) lenOff(v nv) (uint64, bool) {
	if v.isC || v.w != 64 {
		return 0, false
	}
	d := e.lin(v, e.lenVar(), ^uint64(0), 64)
	return d.c, d.isC && d.r == nil && d.fn == ""
}

// lenCmp decides comparisons of the unknown length over its range, or asks for the range to be split.
func (e *nets) lenCmp(in *Instr, a, c nv, w int) (nv, bool) {
	if e.lenHi == 0 || w != 64 || a.r != nil || c.r != nil {
		return nv{}, false
	}
	ka, oka := e.lenOff(a)
	kc, okc := e.lenOff(c)
	if oka && c.isC {
		return e.lenDecide(in.pred, ka, c.c), true
	}
	if okc && a.isC {
		sw := map[string]string{"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "eq": "eq", "ne": "ne"}
		return e.lenDecide(sw[in.pred], kc, a.c), true
	}
	if oka && okc && (in.pred == "eq" || in.pred == "ne") {
		return cnv(icmpC(in.pred, ka, kc, 64), 1), true
	}
	return nv{}, false
}

func (e *nets) lenDecide(pred string, k, c uint64) nv {
	lo, hi := e.lenLo+k, e.lenHi+k
	if lo > hi || hi >= 1<<63 {
		unknown("length arithmetic may wrap")
	}
	at := func(v uint64) uint64 { return icmpC(pred, v, c, 64) }
	if pred == "eq" || pred == "ne" {
		if c < lo || c > hi {
			return cnv(at(lo), 1)
		}
		if lo == hi {
			return cnv(at(lo), 1)
		}
		if c == lo {
			panic(splitErr{c + 1 - k})
		}
		panic(splitErr{c - k})
	}
	if at(lo) == at(hi) {
		return cnv(at(lo), 1)
	}
	// monotone: find the first value where the answer changes
	l, h := lo, hi
	for l+1 < h {
		m := l + (h-l)/2
		if at(m) == at(lo) {
			l = m
		} else {
			h = m
		}
	}
	panic(splitErr{h - k})
}
