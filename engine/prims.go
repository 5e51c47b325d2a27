package main

// C18-C20: the hash primitives against FIPS 180-4 and FIPS 202.
//
// Everything the primitives can be asked to do is decomposed into single
// calls on an arbitrary reachable state: the state after any history is
// (chaining value, total count, the bytes not yet hashed).  Every call is
// shown to lead from such a state to the specified one, whatever the chaining
// value, count and data are, so any sequence of calls is covered.  Lengths:
// each length up to a few blocks by enumeration, all others by showing that
// the state at a loop header after a whole block is the state a fresh call on
// the remaining input has there.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---------- specification

func primes(n int) (out []int64) {
	for p := int64(2); len(out) < n; p++ {
		if big.NewInt(p).ProbablyPrime(20) {
			out = append(out, p)
		}
	}
	return
}

// fracRoot: the first w bits of the fractional part of the k-th root of p.
func fracRoot(p int64, k uint, w uint) uint64 {
	x := new(big.Int).Lsh(big.NewInt(p), k*w)
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), w+12)
	for {
		d := new(big.Int).Sub(hi, lo)
		if d.Cmp(big.NewInt(1)) <= 0 {
			break
		}
		m := d.Rsh(d, 1)
		m.Add(m, lo)
		y := new(big.Int).Exp(m, big.NewInt(int64(k)), nil)
		if y.Cmp(x) <= 0 {
			lo = m
		} else {
			hi = m
		}
	}
	return new(big.Int).And(lo, new(big.Int).SetUint64(mask(int32(w)))).Uint64()
}

type sha2 struct {
	w, rounds int
	r         [12]int // Sigma0 x3, Sigma1 x3, sigma0 (2 rot, 1 shift), sigma1
	k, iv     []uint64
}

func newSha2(w int) *sha2 {
	s := &sha2{w: w, rounds: 64, r: [12]int{2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10}}
	if w == 64 {
		s.rounds = 80
		s.r = [12]int{28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6}
	}
	for _, p := range primes(s.rounds) {
		s.k = append(s.k, fracRoot(p, 3, uint(w)))
	}
	for _, p := range primes(8) {
		s.iv = append(s.iv, fracRoot(p, 2, uint(w)))
	}
	return s
}

func (s *sha2) compress(e *nets, h []nv, blk []nbyte) []nv {
	w := s.w
	wb := w / 8
	x := func(a, b nv) nv { return e.bw(a, b, e.xor) }
	sum := func(vs ...nv) nv {
		r := vs[0]
		for _, v := range vs[1:] {
			r = e.lin(r, v, 1, w)
		}
		return r
	}
	var W []nv
	for i := 0; i < 16; i++ {
		bs := make([]bit, w)
		for j := 0; j < wb; j++ {
			q := blk[i*wb+wb-1-j].bit8(e)
			copy(bs[8*j:], q[:])
		}
		W = append(W, bitsNV(bs))
	}
	r := s.r
	for i := 16; i < s.rounds; i++ {
		s0 := x(x(e.rotr(W[i-15], r[6]), e.rotr(W[i-15], r[7])), e.shr(W[i-15], r[8]))
		s1 := x(x(e.rotr(W[i-2], r[9]), e.rotr(W[i-2], r[10])), e.shr(W[i-2], r[11]))
		W = append(W, sum(s1, W[i-7], s0, W[i-16]))
	}
	v := append([]nv{}, h...)
	for i := 0; i < s.rounds; i++ {
		S1 := x(x(e.rotr(v[4], r[3]), e.rotr(v[4], r[4])), e.rotr(v[4], r[5]))
		ch := x(e.bw(v[4], v[5], e.and), e.bw(e.bw(v[4], cnv(^uint64(0), w), e.xor), v[6], e.and))
		t1 := sum(v[7], S1, ch, cnv(s.k[i], w), W[i])
		S0 := x(x(e.rotr(v[0], r[0]), e.rotr(v[0], r[1])), e.rotr(v[0], r[2]))
		mj := x(x(e.bw(v[0], v[1], e.and), e.bw(v[0], v[2], e.and)), e.bw(v[1], v[2], e.and))
		t2 := sum(S0, mj)
		v = []nv{sum(t1, t2), v[0], v[1], v[2], sum(v[3], t1), v[4], v[5], v[6]}
	}
	out := make([]nv, 8)
	for i := range out {
		out[i] = sum(h[i], v[i])
	}
	return out
}

// keccakF on 25 lanes of bits (FIPS 202, step by step).
func keccakF(e *nets, a [][]bit) [][]bit {
	at := func(x, y int) int { return (x+5)%5 + 5*((y+5)%5) }
	rol := func(l []bit, n int) []bit {
		o := make([]bit, 64)
		for i := range l {
			o[(i+n)%64] = l[i]
		}
		return o
	}
	lfsr := 1
	rc := func() bool {
		r := lfsr&1 == 1
		lfsr <<= 1
		if lfsr&0x100 != 0 {
			lfsr ^= 0x171
		}
		return r
	}
	for round := 0; round < 24; round++ {
		var c [5][]bit
		for x := 0; x < 5; x++ {
			c[x] = make([]bit, 64)
			for z := range c[x] {
				b := a[at(x, 0)][z]
				for y := 1; y < 5; y++ {
					b = e.xor(b, a[at(x, y)][z])
				}
				c[x][z] = b
			}
		}
		n := make([][]bit, 25)
		for x := 0; x < 5; x++ {
			for z := 0; z < 64; z++ {
				d := e.xor(c[(x+4)%5][z], c[(x+1)%5][(z+63)%64])
				for y := 0; y < 5; y++ {
					if n[at(x, y)] == nil {
						n[at(x, y)] = make([]bit, 64)
					}
					n[at(x, y)][z] = e.xor(a[at(x, y)][z], d)
				}
			}
		}
		b := make([][]bit, 25)
		b[0] = n[0]
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			// pi: B[y][2x+3y] = rot(A[x][y])
			b[at(y, 2*x+3*y)] = rol(n[at(x, y)], (t+1)*(t+2)/2%64)
			x, y = y, (2*x+3*y)%5
		}
		a = make([][]bit, 25)
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				o := make([]bit, 64)
				for z := range o {
					o[z] = e.xor(b[at(x, y)][z], e.and(not(b[at(x+1, y)][z]), b[at(x+2, y)][z]))
				}
				a[at(x, y)] = o
			}
		}
		for j := 0; j <= 6; j++ {
			if rc() {
				z := 1<<uint(j) - 1
				a[0][z] = not(a[0][z])
			}
		}
	}
	return a
}

// ---------- uninterpreted functions

// transpose64: bit v of out[i] is bit i of in[v].
func transpose64(a *[64]uint64) {
	m := uint64(0x00000000ffffffff)
	for j := uint(32); j != 0; j, m = j>>1, m^(m<<(j>>1)) {
		for k := uint(0); k < 64; k = (k + j + 1) &^ j {
			t := (a[k]>>j ^ a[k+j]) & m
			a[k] ^= t << j
			a[k+j] ^= t
		}
	}
}

func (e *nets) uf(tag uint64, in []bit, nout int) []bit {
	key := fp{tag, ^tag}
	fl := uint32(0)
	var hv [64]uint64
	for v := range hv {
		hv[v] = tag
	}
	for i := 0; i < len(in); i += 64 {
		var blk [64]uint64
		for j := 0; j < 64 && i+j < len(in); j++ {
			b := in[i+j]
			c := uint64(0)
			if b.inv {
				c = 1
			}
			key.a = hmix2(key.a, b.f.a^c)
			key.b = hmix2(key.b+0x9e3779b97f4a7c15, b.f.b+c)
			fl |= b.fl
			blk[j] = b.s
		}
		transpose64(&blk)
		for v := range hv {
			hv[v] = hmix2(hv[v], blk[v])
		}
	}
	out := make([]bit, nout)
	for i := 0; i < nout; i += 64 {
		var blk [64]uint64
		for v := range hv {
			blk[v] = hmix2(hv[v]+uint64(i)*0xbf58476d1ce4e5b9, 0x94d049bb133111eb)
		}
		transpose64(&blk)
		for j := 0; j < 64 && i+j < nout; j++ {
			out[i+j] = bit{f: mixfp(7, key.a, key.b, uint64(i+j)), s: blk[j], fl: fl}
		}
	}
	return out
}

func (e *nets) bytesBits(bs []nbyte) []bit {
	out := make([]bit, 0, 8*len(bs))
	for _, b := range bs {
		q := b.bit8(e)
		out = append(out, q[:]...)
	}
	return out
}

func bitsBytes(bs []bit) []nbyte {
	out := make([]nbyte, len(bs)/8)
	for i := range out {
		out[i] = mkByte(bs[8*i : 8*i+8])
	}
	return out
}

func (e *nets) varBytes(name string, n int, fl uint32) []nbyte {
	out := make([]nbyte, n)
	for i := range out {
		var b [8]bit
		copy(b[:], e.varBits(fmt.Sprintf("%s[%d]", name, i), 8, fl))
		out[i] = nbyte{b: &b}
	}
	return out
}

// ---------- the analysis of one primitive

type prim struct {
	e   *nets
	res *Result
	x   *X

	name    string
	block   int // bytes per compression
	ctxSz   int
	ctx     *nreg // the context of the run in progress
	so, sn  int   // where the chaining value / permutation state is
	co      int   // where the count is (-1: not found)
	cunit   uint64
	applied int                              // compressions in the run in progress
	step    func(state, blk []nbyte) []nbyte // the specified compression on memory
	inPlace bool                             // permutation: no block
	known   map[string]*sumry
	busy    bool
	noSum   bool
	und     map[string]bool
	dead    func(int) bool
	io      *nreg   // the output buffer of the run in progress, and its contents
	ioAt    []nbyte // where the loop was found
}

type sumry struct {
	ok      bool
	blkArg  int // argument that points to the block, -1: the block is inside the context
	blkOff  int
	scratch []int
}

func (p *prim) undecided(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if !p.und[s] && len(p.und) < 20 {
		p.und[s] = true
		p.res.Undecided = append(p.res.Undecided, s)
	}
}

// try runs f; false if the analysis could not follow it.
func (p *prim) try(what string, f func()) (ok bool) {
	defer func() {
		p.e.depth, p.e.frames, p.e.onHead, p.busy = 0, nil, nil, false
		if r := recover(); r != nil {
			u, is := r.(unkErr)
			if !is {
				panic(r)
			}
			p.undecided("%s: %s", what, string(u))
			ok = false
		}
	}()
	f()
	return true
}

// judge compares two byte strings; difference is reported only if a valuation shows it.
func (p *prim) judge(rule, what string, got, want []nbyte) bool {
	p.res.Oblig++
	r := 0
	at := -1
	if len(got) != len(want) {
		panic("judge")
	}
	for i := range got {
		x, y := got[i].bit8(p.e), want[i].bit8(p.e)
		for j := range x {
			if x[j].f != y[j].f || x[j].inv != y[j].inv {
				if x[j].s != y[j].s {
					r, at = 1, i
				} else if r == 0 {
					r, at = 2, i
				}
			}
		}
		if r == 1 {
			break
		}
	}
	switch r {
	case 0:
		p.res.Done++
		return true
	case 1:
		if len(p.res.Viols) < 8 {
			p.res.Viols = append(p.res.Viols, Viol{Rule: rule, Where: p.name, Msg: fmt.Sprintf("%s: byte %d differs from the specified value", what, at)})
		} else {
			panic(enough{})
		}
	case 2:
		p.undecided("%s: byte %d has another normal form than the specified value", what, at)
	}
	return false
}

func ptrTo(r *nreg, off int) nv { return nv{w: 64, isC: true, r: r, c: uint64(off)} }

// onCall replaces calls that are known to be exactly one compression.
func (p *prim) onCall(f *Func, args []nv) (nv, bool) {
	if p.busy || p.noSum || p.ctx == nil || p.sn == 0 {
		return nv{}, false
	}
	hasCtx := false
	key := f.name
	for _, a := range args {
		switch {
		case a.r == p.ctx:
			hasCtx = true
			key += fmt.Sprintf("|c%d", a.c)
		case a.r != nil:
			key += "|p"
		case a.isC && a.fn == "":
			key += fmt.Sprintf("|%d", a.c)
		default:
			key += "|v"
		}
	}
	if !hasCtx {
		return nv{}, false
	}
	s, ok := p.known[key]
	if !ok {
		s = p.recognise(f, args)
		p.known[key] = s
	}
	if !s.ok {
		return nv{}, false
	}
	st := p.ctx.mem[p.so : p.so+p.sn]
	var in []bit
	in = append(in, p.e.bytesBits(st)...)
	if !p.inPlace {
		var blk []nbyte
		if s.blkArg >= 0 {
			a := args[s.blkArg]
			p.e.access(a.r, int64(a.c), p.block, false)
			blk = a.r.bytes(p.e, int64(a.c), p.block)
		} else {
			blk = p.ctx.mem[s.blkOff : s.blkOff+p.block]
		}
		in = append(in, p.e.bytesBits(blk)...)
	}
	p.applied++
	out := bitsBytes(p.e.uf(11, in, 8*p.sn))
	copy(p.ctx.mem[p.so:], out)
	for _, i := range s.scratch {
		var b [8]bit
		copy(b[:], p.e.uf(12+uint64(i), in, 8))
		p.ctx.mem[i] = nbyte{b: &b}
	}
	return nv{}, true
}

// specStep: the same uninterpreted function for the specification.
func (p *prim) specStep(st, blk []nbyte) []nbyte {
	in := p.e.bytesBits(st)
	if p.noSum {
		return p.step(st, blk)
	}
	if !p.inPlace {
		in = append(in, p.e.bytesBits(blk)...)
	}
	return bitsBytes(p.e.uf(11, in, 8*p.sn))
}

// recognise decides whether a call is exactly one compression of the state.
func (p *prim) recognise(f *Func, args []nv) *sumry {
	none := &sumry{}
	if f.ret != nil && f.ret.k != TVoid {
		return none
	}
	type cand struct{ arg, off int }
	var cs []cand
	if p.inPlace {
		cs = []cand{{-1, 0}}
	} else {
		for i, a := range args {
			if a.r != nil && a.r != p.ctx {
				cs = append(cs, cand{i, 0})
			}
		}
		for i, a := range args {
			if a.r == p.ctx && len(cs) == 0 {
				// the block is in the context: somewhere behind a pointer argument
				for off := 0; off+p.block <= p.ctxSz; off += 4 {
					if off+p.block <= p.so || off >= p.so+p.sn {
						if i == 0 || int(a.c) == off || a.c == 0 {
							cs = append(cs, cand{-1, off})
						}
					}
				}
				break
			}
		}
	}
	var others int
	for _, a := range args {
		if a.r != nil && a.r != p.ctx {
			others++
		}
		if !a.isC || a.fn != "" {
			return none
		}
	}
	if others > 1 || p.inPlace && others > 0 {
		return none
	}
	save := p.ctx
	defer func() { p.ctx = save }()
	e := p.e
	for _, c := range cs {
		r := save.clone()
		r.name = "state of " + f.name
		st := e.varBytes("H", p.sn, FData)
		copy(r.mem[p.so:], st)
		blk := e.varBytes("M", p.block, FData)
		br := &nreg{name: "block", mem: append([]nbyte{}, blk...), ro: true, why: "the data being hashed"}
		if !p.inPlace && c.arg < 0 {
			copy(r.mem[c.off:], blk)
		}
		before := append([]nbyte{}, r.mem...)
		na := append([]nv{}, args...)
		for i, a := range na {
			if a.r == save {
				na[i].r = r
			} else if a.r != nil {
				na[i] = ptrTo(br, 0)
			}
		}
		ok := func() (ok bool) {
			nu := len(p.res.Undecided)
			nev := len(e.x.events)
			seen := map[string]bool{}
			for k := range e.x.evSeen {
				seen[k] = true
			}
			defer func() {
				p.busy = false
				if rec := recover(); rec != nil {
					if _, is := rec.(unkErr); !is {
						panic(rec)
					}
					ok = false
				}
				if !ok {
					// nothing is concluded from an attempt that did not fit
					p.res.Undecided = p.res.Undecided[:nu]
					if len(e.x.events) > nev {
						e.x.events = e.x.events[:nev]
					}
					e.x.evSeen = seen
				}
			}()
			p.busy = true
			d, fr, oh := e.depth, e.frames, e.onHead
			e.frames, e.onHead = nil, nil
			defer func() { e.depth, e.frames, e.onHead = d, fr, oh }()
			e.call(f, na)
			want := p.step(st, blk)
			for i := range want {
				if !e.sameByte(r.mem[p.so+i], want[i]) {
					return false
				}
			}
			return true
		}()
		if !ok {
			continue
		}
		s := &sumry{ok: true, blkArg: c.arg, blkOff: c.off}
		for i := range r.mem {
			if (i < p.so || i >= p.so+p.sn) && !e.sameByte(r.mem[i], before[i]) {
				if p.co >= 0 && i >= p.co && i < p.co+8 {
					return none
				}
				s.scratch = append(s.scratch, i)
			}
		}
		p.res.Oblig++
		p.res.Done++
		p.res.Info["compression "+strings.TrimPrefix(f.name, "@")] = "equals the specified function for every chaining value and block"
		return s
	}
	return none
}

func (e *nets) sameByte(a, b nbyte) bool {
	if a.ptr != nil || b.ptr != nil {
		return a.ptr == b.ptr && a.pi == b.pi
	}
	if a.b == nil && b.b == nil {
		return a.c == b.c
	}
	x, y := a.bit8(e), b.bit8(e)
	for j := range x {
		if x[j].f != y[j].f || x[j].inv != y[j].inv {
			return false
		}
	}
	return true
}

func (b nbyte) junk() bool {
	if b.b == nil {
		return false
	}
	for _, x := range b.b {
		if x.fl&FJunk != 0 {
			return true
		}
	}
	return false
}

// junkCtx: a context with arbitrary contents.
func (p *prim) junkCtx(name string) *nreg { return p.e.newReg(name, p.ctxSz, FJunk) }

func (p *prim) run(ctx *nreg, fn string, args ...nv) {
	p.ctx = ctx
	p.e.callName(fn, args...)
}

func (p *prim) src(bs []nbyte) *nreg {
	return &nreg{name: "input data", mem: bs, algn: 1, ro: true, why: "the data being hashed"}
}

func (p *prim) setWord(r *nreg, off int, v nv) { p.e.store(r, int64(off), v, v.w/8) }

// sameState: every byte the reference state defines is the same.
func (p *prim) sameState(got, ref *nreg) (bool, int) {
	for i := range ref.mem {
		if ref.mem[i].junk() {
			continue
		}
		if !p.e.sameByte(got.mem[i], ref.mem[i]) {
			return false, i
		}
	}
	return true, 0
}

// ---------- SHA-256 and SHA-512

type shaPrim struct {
	prim
	spec                                      *sha2
	wb, lenB                                  int
	init, update, final, trunc, save, restore string
	cnt                                       nv // an arbitrary count (without its low bits)
}

func beBytes(e *nets, v nv) []nbyte {
	bs := e.bitsOf(v)
	n := v.w / 8
	out := make([]nbyte, n)
	for i := range out {
		out[i] = mkByte(bs[8*(n-1-i) : 8*(n-i)])
	}
	return out
}

func (p *shaPrim) word(b []nbyte) nv { return bitsNV(p.e.bytesBits(b)) }

func (p *shaPrim) stepMem(st, blk []nbyte) []nbyte {
	var h []nv
	for i := 0; i < 8; i++ {
		h = append(h, p.word(st[i*p.wb:(i+1)*p.wb]))
	}
	var out []nbyte
	for _, v := range p.spec.compress(p.e, h, blk) {
		out = append(out, bitsBytes(p.e.bitsOf(v))...)
	}
	return out
}

// absorb: the specified state after data, from chaining value h and buffered bytes.
func (p *shaPrim) absorb(h []nbyte, data []nbyte) (nh, rest []nbyte) {
	for len(data) >= p.block {
		h = p.specStep(h, data[:p.block])
		data = data[p.block:]
	}
	return h, data
}

// digest: padding and output.
func (p *shaPrim) digest(h, buf []nbyte, bits nv) []nbyte {
	d := append(append([]nbyte{}, buf...), nbyte{c: 0x80})
	for len(d)%p.block != p.block-p.lenB {
		d = append(d, nbyte{})
	}
	for i := 8; i < p.lenB; i++ {
		d = append(d, nbyte{})
	}
	d = append(d, beBytes(p.e, bits)...)
	h, _ = p.absorb(h, d)
	var out []nbyte
	for i := 0; i < 8; i++ {
		out = append(out, beBytes(p.e, p.word(h[i*p.wb:(i+1)*p.wb]))...)
	}
	return out
}

// natural: the state the library itself produces for the buffered bytes,
// with chaining value and bit count replaced.
func (p *shaPrim) natural(buf, h []nbyte, bits nv) *nreg {
	c := p.junkCtx("context")
	p.run(c, p.init, ptrTo(c, 0))
	if len(buf) > 0 {
		p.run(c, p.update, ptrTo(c, 0), ptrTo(p.src(buf), 0), cnv(uint64(len(buf)), 64))
	}
	copy(c.mem[p.so:], h)
	p.setWord(c, p.co, p.unit(bits))
	return c
}

// unit converts a bit count to the unit of the library's counter.
func (p *shaPrim) unit(bits nv) nv {
	if p.cunit == 8 {
		return bits
	}
	return p.e.shr(bits, 3)
}

// bitCount: an arbitrary multiple of the block plus fill bytes.
func (p *shaPrim) bitCount(fill int) nv {
	bs := p.e.varBits("count", 64, 0)
	lo := cnv(uint64(8*fill), 64)
	lb := p.e.bitsOf(lo)
	for i := 0; 1<<uint(i) < 8*p.block; i++ {
		bs[i] = lb[i]
	}
	if p.cunit == 1 {
		// total length below 2^61 bytes
		for i := 61; i < 64; i++ {
			bs[i] = bit{}
		}
	}
	return bitsNV(bs)
}

func (p *shaPrim) layout() bool {
	e := p.e
	ok := p.try("initialisation", func() {
		c := p.junkCtx("context")
		p.run(c, p.init, ptrTo(c, 0))
		p.so = -1
		for off := 0; off+8*p.wb <= p.ctxSz; off += 4 {
			hit := true
			for i := 0; i < 8 && hit; i++ {
				v := p.load(c, off+i*p.wb, p.wb)
				hit = v.isC && v.c == p.spec.iv[i]
			}
			if hit {
				p.so = off
			}
		}
		if p.so < 0 {
			// is the initial value wrong or only placed differently?  the digest of the empty string tells
			d := e.byteReg("digest", p.block/2)
			p.noSum = true
			p.run(c, p.final, ptrTo(d, 0), ptrTo(c, 0))
			var iv []nbyte
			for _, v := range p.spec.iv {
				iv = append(iv, bitsBytes(e.bitsOf(cnv(v, 8*p.wb)))...)
			}
			p.sn = 8 * p.wb
			p.judge("digest", "digest of the empty string", d.mem, p.digest(iv, nil, cnv(0, 64)))
			unknown("the initial chaining value was not found in the context")
		}
		p.co = -1
		for _, unit := range []uint64{8, 1} {
			for off := 0; off+8 <= p.ctxSz && p.co < 0; off += 8 {
				hit := true
				for _, n := range []int{0, 3, 7} {
					c := p.junkCtx("context")
					p.run(c, p.init, ptrTo(c, 0))
					p.run(c, p.update, ptrTo(c, 0), ptrTo(p.src(e.varBytes("m", n, FData)), 0), cnv(uint64(n), 64))
					v := p.load(c, off, 8)
					hit = hit && v.isC && v.c == unit*uint64(n)
				}
				if hit {
					p.co, p.cunit = off, unit
				}
			}
		}
		p.sn = 8 * p.wb
	})
	if !ok || p.so < 0 {
		return false
	}
	// a unit of 1 may be the fill only; it must go on counting over a block
	if p.co >= 0 {
		p.try("counter", func() {
			c := p.junkCtx("context")
			p.run(c, p.init, ptrTo(c, 0))
			n := p.block + 3
			p.run(c, p.update, ptrTo(c, 0), ptrTo(p.src(e.varBytes("m", n, FData)), 0), cnv(uint64(n), 64))
			if v := p.load(c, p.co, 8); !v.isC || v.c != p.cunit*uint64(n) {
				p.co = -1
			}
		})
	}
	p.res.Info["layout"] = fmt.Sprintf("chaining value at %d, counter at %d (unit %d bits)", p.so, p.co, 8/max(p.cunit, 1))
	return true
}

func (p *prim) load(r *nreg, off, n int) (v nv) {
	defer func() {
		if rec := recover(); rec != nil {
			if _, is := rec.(unkErr); !is {
				panic(rec)
			}
		}
	}()
	return p.e.load(r, int64(off), n)
}

func (p *shaPrim) ivBytes() (iv []nbyte) {
	for _, v := range p.spec.iv {
		iv = append(iv, bitsBytes(p.e.bitsOf(cnv(v, 8*p.wb)))...)
	}
	return
}

// finals checks every truncation from a state.
func (p *shaPrim) finals(what string, c *nreg, h, buf []nbyte, bits nv, all bool) bool {
	full := p.digest(h, buf, bits)
	good := true
	lens := []int{len(full)}
	if all {
		for n := p.wb; n <= len(full); n += p.wb {
			lens = append(lens, n)
		}
	}
	for i, n := range lens {
		k := c.clone()
		d := p.e.byteReg("digest", n)
		if i == 0 {
			p.run(k, p.final, ptrTo(d, 0), ptrTo(k, 0))
		} else {
			p.run(k, p.trunc, ptrTo(d, 0), ptrTo(k, 0), cnv(uint64(n), 32))
		}
		good = p.judge("digest", fmt.Sprintf("%s, %d-byte digest", what, n), d.mem, full[:n]) && good
	}
	return good
}

func runSha(e *nets, res *Result, w int, deep bool) {
	m, x := e.m, e.x
	p := &shaPrim{spec: newSha2(w), wb: w / 8, lenB: w / 4}
	p.e = e
	p.res, p.x, p.und, p.known = res, x, map[string]bool{}, map[string]*sumry{}
	p.block = 2 * w
	p.name = fmt.Sprintf("SHA-%d", 8*w)
	s := fmt.Sprintf("@ts_SHA%d_", 8*w)
	p.init, p.update, p.final, p.trunc, p.save, p.restore = s+"init", s+"update", s+"final", s+"final_trunc", s+"save_state", fmt.Sprintf("%srestore_state_after_%d", s, p.block)
	for _, f := range []string{p.init, p.update, p.final, p.trunc, p.save, p.restore} {
		if m.funcs[f] == nil {
			unknown("function %s not found", f[1:])
		}
	}
	sz, ok := m.constU64(fmt.Sprintf("@svc_sha%d_size", 8*w))
	if !ok {
		unknown("no context size probe")
	}
	p.ctxSz = int(sz)
	p.step = p.stepMem
	if !p.layout() {
		return
	}
	e.onCall = p.onCall
	B := p.block
	// every fill from initialisation, with the real compression function for one of them
	p.noSum = true
	for _, n := range []int{3, B - 9} {
		p.fromInit(n, nil)
	}
	p.noSum = false
	for n := 0; n <= 2*B+1; n++ {
		if p.co >= 0 && n > B && n%B > 2 && n%B < B-2 && !deep {
			continue
		}
		p.fromInit(n, []int{n / 3})
	}
	any := false
	for _, s := range p.known {
		any = any || s.ok
	}
	if !any {
		p.undecided("no function was recognised as the compression function")
		return
	}
	if p.co < 0 {
		p.undecided("no counter found in the context: histories longer than the enumerated ones are not covered")
		return
	}
	// does replacing chaining value and counter by arbitrary ones model real histories?
	model := true
	for _, n := range []int{1, B - 1, B, B + 3, 2*B + 5, 3 * B} {
		n := n
		model = p.try("state model", func() {
			d := e.varBytes("m", n, FData)
			c := p.junkCtx("context")
			p.run(c, p.init, ptrTo(c, 0))
			p.run(c, p.update, ptrTo(c, 0), ptrTo(p.src(d), 0), cnv(uint64(n), 64))
			nh, rest := p.absorb(p.ivBytes(), d)
			if ok, at := p.sameState(c, p.natural(rest, nh, cnv(uint64(8*n), 64))); !ok {
				unknown("the context after %d bytes is more than chaining value, counter and buffer (byte %d)", n, at)
			}
		}) && model
	}
	if !model {
		return
	}
	h := e.varBytes("h", p.sn, FData)
	buf := e.varBytes("b", B, FData)
	data := e.varBytes("d", 6*B, FData)
	for fill := 0; fill < B; fill++ {
		fill := fill
		C := p.bitCount(fill)
		p.try(fmt.Sprintf("final with %d bytes buffered", fill), func() {
			c := p.natural(buf[:fill], h, C)
			p.finals(fmt.Sprintf("arbitrary state with %d buffered bytes", fill), c, h, buf[:fill], C, deep || fill%8 == 7 || fill == 0)
		})
		one := func(m int) {
			what := fmt.Sprintf("update of %d bytes with %d buffered", m, fill)
			p.try(what, func() {
				c := p.natural(buf[:fill], h, C)
				p.run(c, p.update, ptrTo(c, 0), ptrTo(p.src(data[:m:m]), 0), cnv(uint64(m), 64))
				nh, rest := p.absorb(h, append(append([]nbyte{}, buf[:fill]...), data[:m]...))
				C2 := e.lin(C, cnv(uint64(8*m), 64), 1, 64)
				p.after(what, c, nh, rest, C2)
			})
		}
		for m := 0; m <= B-fill; m++ {
			one(m)
		}
		for _, m := range []int{B - fill + 1, 2*B - fill - 1, 2*B - fill, 2*B - fill + 1, 3*B - fill + 5} {
			one(m)
		}
		if !p.inductive(fill, h, buf[:fill], C, data, uint64(B-fill)) {
			for m := B - fill + 2; m <= 2*B+B/2; m++ {
				one(m)
			}
		}
		if fill < 3 || fill > B-3 || deep {
			for _, m := range []uint64{1<<12 + 5, 1<<16 + 64, 1 << 29, 1<<32 + 67, 1<<35 - 1, 1<<61 - 1<<20} {
				p.longUpdate(fill, h, buf[:fill], C, data, m)
			}
		}
	}
	// save and restore after one whole block
	p.try("save and restore", func() {
		c := p.junkCtx("context")
		p.run(c, p.init, ptrTo(c, 0))
		p.run(c, p.update, ptrTo(c, 0), ptrTo(p.src(data[:B]), 0), cnv(uint64(B), 64))
		sv := e.newReg("saved state", 8*p.wb, FJunk)
		p.run(c, p.save, ptrTo(sv, 0), ptrTo(c, 0))
		r := p.junkCtx("restored context")
		sv.ro, sv.why = true, "the saved state"
		p.run(r, p.restore, ptrTo(r, 0), ptrTo(sv, 0))
		nh, _ := p.absorb(p.ivBytes(), data[:B])
		p.after("save and restore after one block", r, nh, nil, cnv(uint64(8*B), 64))
	})
}

// fromInit: init, update(s), final equals the specification.
func (p *shaPrim) fromInit(n int, cuts []int) {
	what := fmt.Sprintf("hash of %d bytes", n)
	p.try(what, func() {
		data := p.e.varBytes("m", n, FData)
		c := p.junkCtx("context")
		p.run(c, p.init, ptrTo(c, 0))
		at := 0
		for _, k := range append(append([]int{}, cuts...), n) {
			p.run(c, p.update, ptrTo(c, 0), ptrTo(p.src(data[at:k:k]), 0), cnv(uint64(k-at), 64))
			at = k
		}
		h, rest := p.absorb(p.ivBytes(), data)
		p.finals(what, c, h, rest, cnv(uint64(8*n), 64), false)
	})
}

// after: the state is the specified one; otherwise its digest decides.
func (p *shaPrim) after(what string, c *nreg, h, rest []nbyte, bits nv) {
	ref := p.natural(rest, h, bits)
	p.res.Oblig++
	if ok, at := p.sameState(c, ref); ok {
		p.res.Done++
	} else if p.finals(what, c, h, rest, bits, false) {
		// the digest is right; is anything after it?
		ok := true
		for _, k := range []int{1, p.block - len(rest), p.block} {
			d := p.e.varBytes("z", k, FData)
			c2 := c.clone()
			p.run(c2, p.update, ptrTo(c2, 0), ptrTo(p.src(d), 0), cnv(uint64(k), 64))
			h2, r2 := p.absorb(h, append(append([]nbyte{}, rest...), d...))
			ok = p.finals(what+fmt.Sprintf(", then %d more bytes", k), c2, h2, r2, p.e.lin(bits, cnv(uint64(8*k), 64), 1, 64), false) && ok
		}
		if ok {
			p.undecided("%s: the context differs from the expected one at byte %d, though the digest is right", what, at)
		}
	}
}

// ---------- unbounded lengths

// inductive: after the first whole block, the analysed function is at a loop
// header in the state a fresh call on the remaining input has there.
func (p *shaPrim) inductive(fill int, h, buf []nbyte, C nv, data []nbyte, lo uint64) bool {
	B := p.block
	what := fmt.Sprintf("update of any longer input with %d bytes buffered", fill)
	e := p.e
	start := func(st *nreg, off int, k int64) func() {
		return func() {
			s := p.src(data)
			s.name = "input data"
			L := e.lin(e.lenVar(), cnv(uint64(-k), 64), 1, 64)
			p.run(st, p.update, ptrTo(st, 0), ptrTo(s, off), L)
		}
	}
	mk := func() (*nreg, func()) {
		st := p.natural(buf, h, C)
		return st, start(st, 0, 0)
	}
	fresh := func(j int) (*nreg, func()) {
		s := j*B - fill
		nh, _ := p.absorb(h, append(append([]nbyte{}, buf...), data[:s]...))
		st := p.natural(nil, nh, e.lin(C, cnv(uint64(8*s), 64), 1, 64))
		return st, start(st, s, int64(s))
	}
	return p.induct(what, lo, mk, fresh)
}

// longUpdate: one very long input, the middle of which is skipped.
func (p *shaPrim) longUpdate(fill int, h, buf []nbyte, C nv, data []nbyte, m uint64) {
	B := uint64(p.block)
	what := fmt.Sprintf("update of %d bytes with %d buffered", m, fill)
	e := p.e
	keep := 4*B + (m % B)
	gap := (m - keep) / B * B
	p.try(what, func() {
		c := p.natural(buf, h, C)
		s := p.src(data[: m-gap : m-gap])
		sk := p.skipper(c, s, gap, int(B), nil)
		e.onHead = sk.head
		steps := e.steps
		p.run(c, p.update, ptrTo(c, 0), ptrTo(s, 0), cnv(m, 64))
		e.onHead = nil
		if !sk.done {
			p.noSkip(what, m, steps)
		}
		nh, rest := h, append(append([]nbyte{}, buf...), data[:m-gap]...)
		for j := 0; len(rest) >= p.block; j++ {
			nh = p.specStep(nh, rest[:p.block])
			rest = rest[p.block:]
			if j+1 == sk.blocks {
				nh = bitsBytes(e.uf(13, e.bytesBits(nh), 8*p.sn))
			}
		}
		p.after(what, c, nh, rest, e.lin(C, cnv(8*m, 64), 1, 64))
	})
}

// noSkip: the call came back without a loop that could be skipped.  If it took
// fewer steps than there are blocks it cannot have touched all of them.
func (p *prim) noSkip(what string, m uint64, before int64) {
	if n := p.e.steps - before; uint64(n) < m/uint64(p.block) {
		p.res.Oblig++
		if len(p.res.Viols) >= 8 {
			panic(enough{})
		}
		p.res.Viols = append(p.res.Viols, Viol{Rule: "whole input", Where: p.name, Msg: fmt.Sprintf("%s: the call returns after %d instructions, fewer than the %d blocks there are", what, n, m/uint64(p.block))})
		panic(unkErr("returned early"))
	}
	unknown("no loop over the blocks was found to skip")
}

type nsnap struct {
	depth   int
	fn      *Func
	blk     int
	regs    []nv
	ctx     []nbyte
	applied int
	regions map[*nreg][]nbyte
}

type skipper struct {
	p      *prim
	c      *nreg
	io     []*nreg
	gap    uint64
	blk    int
	hist   map[string][]*nsnap
	done   bool
	blocks int
}

func (p *prim) skipper(c, s *nreg, gap uint64, blk int, out *nreg) *skipper {
	p.applied = 0
	k := &skipper{p: p, c: c, gap: gap, blk: blk, hist: map[string][]*nsnap{}}
	for _, r := range []*nreg{s, out} {
		if r != nil {
			r.virt = int64(len(r.mem)) + int64(gap)
			k.io = append(k.io, r)
		}
	}
	return k
}

func (k *skipper) isIO(r *nreg) bool {
	for _, x := range k.io {
		if r == x {
			return true
		}
	}
	return false
}

// head is called at every loop header.
func (k *skipper) head(fr *nframe, blk int) {
	if k.done {
		return
	}
	p := k.p
	key := fmt.Sprintf("%d|%s|%d", len(p.e.frames), fr.f.name, blk)
	live := liveIn(fr.f, blk)
	sn := &nsnap{regs: append([]nv{}, fr.regs...), ctx: append([]nbyte{}, k.c.mem...), applied: p.applied}
	hs := append(k.hist[key], sn)
	k.hist[key] = hs
	n := len(hs)
	if n < 3 {
		return
	}
	a, b, c := hs[n-3], hs[n-2], hs[n-1]
	if b.applied != a.applied+1 || c.applied != b.applied+1 || a.applied < 1 {
		return
	}
	// registers move by constants
	type mv struct {
		reg int
		d   uint64
	}
	var mvs []mv
	K := k.gap / uint64(k.blk)
	for _, r := range live {
		x, y, z := a.regs[r], b.regs[r], c.regs[r]
		if x.isC && y.isC && z.isC {
			if x.r != y.r || y.r != z.r || x.fn != y.fn || y.fn != z.fn || y.c-x.c != z.c-y.c {
				return
			}
			if z.c != y.c {
				mvs = append(mvs, mv{r, z.c - y.c})
			}
			continue
		}
		if p.e.differ2(x, y) != 0 || p.e.differ2(y, z) != 0 {
			return
		}
	}
	for i := range c.ctx {
		if i >= p.so && i < p.so+p.sn || p.co >= 0 && i >= p.co && i < p.co+8 {
			continue
		}
		if !p.e.sameByte(b.ctx[i], c.ctx[i]) && !p.isScratch(i) {
			return
		}
	}
	var cd nv
	if p.co >= 0 {
		x, y, z := p.word8(a.ctx[p.co:]), p.word8(b.ctx[p.co:]), p.word8(c.ctx[p.co:])
		d1, d2 := p.e.lin(y, x, ^uint64(0), 64), p.e.lin(z, y, ^uint64(0), 64)
		if !d1.isC || !d2.isC || d1.c != d2.c {
			return
		}
		cd = d2
	}
	k.done = true
	k.blocks = c.applied
	for _, m := range mvs {
		v := &fr.regs[m.reg]
		if v.r != nil && k.isIO(v.r) {
			v.r.cut, v.r.gap = int64(v.c), int64(k.gap)
		}
	}
	for _, m := range mvs {
		v := &fr.regs[m.reg]
		v.c += m.d * K
		if v.r == nil {
			v.c &= mask(int32(v.w))
		}
	}
	copy(k.c.mem[p.so:], bitsBytes(p.e.uf(13, p.e.bytesBits(k.c.mem[p.so:p.so+p.sn]), 8*p.sn)))
	if p.co >= 0 && cd.c != 0 {
		v := p.e.lin(p.word8(k.c.mem[p.co:]), cnv(cd.c*K, 64), 1, 64)
		p.setWord(k.c, p.co, v)
	}
}

func (p *prim) word8(b []nbyte) nv { return bitsNV(p.e.bytesBits(b[:8])) }

func (p *prim) isScratch(i int) bool {
	for _, s := range p.known {
		for _, j := range s.scratch {
			if i == j {
				return true
			}
		}
	}
	// a byte behind the fill that is never read again is rewritten before use
	return p.dead != nil && p.dead(i)
}

// induct: see inductive.  Undecided comparisons split the range of lengths.
func (p *prim) induct(what string, lo uint64, mk func() (*nreg, func()), fresh func(j int) (*nreg, func())) bool {
	type rng struct{ lo, hi uint64 }
	work := []rng{{lo, 1<<61 - 1}}
	n := 0
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		if n++; n > 24 {
			p.undecided("%s: too many ranges", what)
			return false
		}
		var split *splitErr
		ok := false
		p.res.Oblig++
		why := ""
		func() {
			defer func() {
				p.e.depth, p.e.frames, p.e.onHead, p.busy = 0, nil, nil, false
				p.e.lenLo, p.e.lenHi = 0, 0
				switch x := recover().(type) {
				case nil:
				case splitErr:
					split = &x
				case unkErr:
					why = string(x)
				case stopRun:
				default:
					panic(x)
				}
			}()
			p.e.lenLo, p.e.lenHi = r.lo, r.hi
			ok = p.induct1(mk, fresh)
		}()
		if split != nil {
			work = append(work, rng{r.lo, split.at - 1}, rng{split.at, r.hi})
			p.res.Oblig--
			continue
		}
		if !ok {
			p.undecided("%s (%d to %d): no repeating state found %s", what, r.lo, r.hi, why)
			return false
		}
		p.res.Done++
	}
	return true
}

type enough struct{}
type splitErr struct{ at uint64 }
type stopRun struct{}

func (p *prim) induct1(mk func() (*nreg, func()), fresh func(j int) (*nreg, func())) bool {
	e := p.e
	type at struct {
		frames []*nframe
		blk    int
		ctx    *nreg // a copy
		orig   *nreg
		n      int
		io     []nbyte
	}
	snap := func(c *nreg) *at {
		s := &at{ctx: c.clone(), orig: c, n: p.applied}
		if p.io != nil {
			s.io = append([]nbyte{}, p.io.mem...)
		}
		for _, f := range e.frames {
			g := *f
			g.regs = append([]nv{}, f.regs...)
			g.allocs = nil
			for _, r := range f.allocs {
				g.allocs = append(g.allocs, r)
				g.mems = append(g.mems, append([]nbyte{}, r.mem...))
			}
			s.frames = append(s.frames, &g)
		}
		return s
	}
	found := false
	c, run := mk()
	p.applied = 0
	match := func(a *at, b *at) bool {
		if len(a.frames) != len(b.frames) {
			return false
		}
		reg := map[*nreg]*nreg{b.orig: a.orig}
		for i := range a.frames {
			x, y := a.frames[i], b.frames[i]
			if x.f != y.f || x.at != y.at || len(x.allocs) != len(y.allocs) {
				return false
			}
			for j := range x.allocs {
				reg[y.allocs[j]] = x.allocs[j]
			}
		}
		same := func(v, w nv) bool {
			if v.isC && w.isC {
				if v.r != w.r && !(v.r != nil && w.r != nil && v.r.name == w.r.name && reg[w.r] == nil) && reg[w.r] != v.r {
					return false
				}
				return v.c == w.c && v.fn == w.fn
			}
			if v.isC != w.isC {
				return false
			}
			return e.differ2(v, w) == 0
		}
		for i := range a.frames {
			x, y := a.frames[i], b.frames[i]
			for _, r := range x.liveNow() {
				if !same(x.regs[r], y.regs[r]) {
					if os.Getenv("SVC_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "reg %s in %s block %d: %v %v\n", x.f.regNames[r], x.f.name, x.blk, x.regs[r].show(e), y.regs[r].show(e))
					}
					return false
				}
			}
			for j := range x.mems {
				for q := range y.mems[j] {
					g, w := x.mems[j][q], y.mems[j][q]
					if !w.junk() && !(g.ptr != nil && w.ptr != nil && same(*g.ptr, *w.ptr) && g.pi == w.pi) && !e.sameByte(g, w) {
						return false
					}
				}
			}
		}
		ok, i := p.sameState(a.ctx, b.ctx)
		if !ok && os.Getenv("SVC_TRACE") != "" {
			fmt.Fprintf(os.Stderr, "state byte %d\n", i)
		}
		return ok
	}
	type hd struct {
		s  *at
		fr *Func
		b  int
	}
	var cands []hd
	func() {
		defer func() {
			e.depth, e.frames, e.onHead, p.busy = 0, nil, nil, false
			if r := recover(); r != nil {
				if _, is := r.(stopRun); is {
					return
				}
				if _, is := r.(unkErr); is {
					return
				}
				if _, is := r.(splitErr); is && len(cands) > 0 {
					return
				}
				panic(r)
			}
		}()
		e.onHead = func(fr *nframe, blk int) {
			if p.applied >= 1 {
				for _, h := range cands {
					if h.fr == fr.f && h.b == blk && h.s.n == p.applied {
						return
					}
				}
				cands = append(cands, hd{snap(c), fr.f, blk})
				if p.applied >= 3 || len(cands) > 12 {
					panic(stopRun{})
				}
			}
		}
		run()
	}()
	for _, h := range cands {
		if found {
			break
		}
		p.ioAt = h.s.io
		func() {
			defer func() {
				e.depth, e.frames, e.onHead, p.busy = 0, nil, nil, false
				if r := recover(); r != nil {
					switch r.(type) {
					case stopRun, unkErr, splitErr:
					default:
						panic(r)
					}
				}
			}()
			bc, brun := fresh(h.s.n)
			p.applied = 0
			e.onHead = func(fr *nframe, blk int) {
				if p.applied > 0 {
					panic(stopRun{})
				}
				if fr.f == h.fr && blk == h.b {
					b := snap(bc)
					if match(h.s, b) {
						found = true
						panic(stopRun{})
					}
				}
			}
			brun()
		}()
	}
	return found
}

// ---------- frames of the interpreter

type nframe struct {
	f      *Func
	regs   []nv
	blk    int
	at     *Instr // the call in progress
	allocs []*nreg
	mems   [][]nbyte
	head   bool
}

func (fr *nframe) liveNow() []int {
	if fr.at == nil {
		return liveIn(fr.f, fr.blk)
	}
	// live after the call in progress
	live := map[int]bool{}
	b := fr.f.blocks[fr.blk]
	for _, s := range b.succ {
		for _, r := range liveIn(fr.f, s) {
			live[r] = true
		}
		for _, ph := range fr.f.blocks[s].ins[:fr.f.blocks[s].nphi] {
			for j := range ph.args {
				if ph.args[j].k == OReg && ph.phiBlk[j] == fr.blk {
					live[ph.args[j].reg] = true
				}
			}
		}
	}
	for i := len(b.ins) - 1; i >= 0; i-- {
		in := b.ins[i]
		if in.dst >= 0 {
			delete(live, in.dst)
		}
		if in == fr.at {
			break
		}
		for _, r := range usesOf(in) {
			live[r] = true
		}
	}
	var out []int
	for r := range live {
		out = append(out, r)
	}
	sort.Ints(out)
	return out
}

func usesOf(in *Instr) (out []int) {
	for _, o := range []*Operand{&in.a, &in.b, &in.c} {
		if o.k == OReg {
			out = append(out, o.reg)
		}
	}
	for i := range in.args {
		if in.args[i].k == OReg {
			out = append(out, in.args[i].reg)
		}
	}
	return
}

var liveCache = map[*Func][][]int{}

// liveIn: registers (including the block's phis) used from the start of a block on.
func liveIn(f *Func, blk int) []int {
	if l, ok := liveCache[f]; ok {
		return l[blk]
	}
	n := len(f.blocks)
	in := make([]map[int]bool, n)
	for i := range in {
		in[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for bi := n - 1; bi >= 0; bi-- {
			b := f.blocks[bi]
			live := map[int]bool{}
			for _, s := range b.succ {
				sb := f.blocks[s]
				phis := map[int]bool{}
				for _, ph := range sb.ins[:sb.nphi] {
					phis[ph.dst] = true
					for j := range ph.args {
						if ph.phiBlk[j] == bi && ph.args[j].k == OReg && in[s][ph.dst] {
							live[ph.args[j].reg] = true
						}
					}
				}
				for r := range in[s] {
					if !phis[r] {
						live[r] = true
					}
				}
			}
			for i := len(b.ins) - 1; i >= b.nphi; i-- {
				if b.ins[i].dst >= 0 {
					delete(live, b.ins[i].dst)
				}
				for _, r := range usesOf(b.ins[i]) {
					live[r] = true
				}
			}
			for r := range live {
				if !in[bi][r] {
					in[bi][r] = true
					ch = true
				}
			}
		}
	}
	out := make([][]int, n)
	for i := range out {
		for r := range in[i] {
			out[i] = append(out[i], r)
		}
		sort.Ints(out[i])
	}
	liveCache[f] = out
	return out[blk]
}

// ---------- jobs

func runPrim(m *Module, res *Result, name string, deep bool) {
	x := newX(m)
	var e *nets
	defer func() {
		res.Steps, res.Branches, res.Calls, res.Accesses = x.steps, x.branches, x.calls, x.accesses
		for _, v := range x.events {
			res.Events = append(res.Events, Viol{Rule: v.kind, Where: sprintf("%s:%d (%s)", v.file, v.line, v.fn), Msg: v.msg, Stack: v.stack})
		}
		if e != nil {
			for f := range e.fns {
				res.Funcs = append(res.Funcs, strings.TrimPrefix(f, "@"))
			}
		}
		sort.Strings(res.Funcs)
	}()
	e = newNets(m, x)
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(enough); !is {
				panic(r)
			}
		}
	}()
	switch name {
	case "sha256":
		runSha(e, res, 32, deep)
	case "sha512":
		runSha(e, res, 64, deep)
	case "shake":
		runShake(e, res, deep)
	default:
		panic("unknown primitive " + name)
	}
}

func (v nv) show(e *nets) string {
	if k, ok := e.lenOff(v); ok {
		return fmt.Sprintf("length%+d", int64(k))
	}
	if v.isC {
		n := v.fn
		if v.r != nil {
			n = v.r.name
		}
		return fmt.Sprintf("%s+%d", n, int64(v.c))
	}
	return "?"
}
