package main

// Streaming: every way of slicing the signature into requests or chunks.

import (
	"fmt"
	"os"
)

func hashCells(h1, h2 uint64, cs []Cell) (uint64, uint64) {
	for _, c := range cs {
		var id uint64
		if c.t != nil {
			id = uint64(c.t.id)<<24 | uint64(uint32(c.lo))&0xffffff
		} else {
			id = uint64(c.c) | 1<<63
		}
		h1 = (h1 ^ id) * 0x9E3779B97F4A7C15
		h1 ^= h1 >> 29
		h2 = (h2+id)*0xD6E8FEB86659FD93 + 0x1234567
		h2 ^= h2 >> 32
	}
	return h1, h2
}

type snap [2]uint64

func (s *Scn) regCells(st *State, r *Region, n int64) []Cell {
	cs := make([]Cell, n)
	for i := range cs {
		c := st.peek(r, int64(i))
		if c.t != nil && c.t.fl&FSplit != 0 { // a request size known by now
			v := substMemoFacts(st)(st.simp(slice(T(c.t), c.t.w, c.lo, 8)))
			if v.t == nil {
				c = Cell{c: uint8(v.c)}
			}
		}
		cs[i] = c
	}
	return cs
}

var snapTerms = map[*Term]bool{}

func (s *Scn) snapOf(st *State, ctx *Region) snap {
	cs := s.regCells(st, ctx, s.ctxSz)
	for _, c := range cs {
		if c.t != nil {
			snapTerms[c.t] = true // keeps its identity
		}
	}
	a, b := hashCells(1, 2, cs)
	return snap{a, b}
}

// reqVar: a request size whose every value is kept apart.
func reqVar(name string, lo, hi int64) *Term {
	t := mkVar(name, lo<<32|hi, 32, FSplit)
	varRange[t] = IV{lo, hi}
	return t
}

func (s *Scn) advertised() int64 {
	st := s.call1(s.x.freshState(), "@ts_size_signature", s.psArg())
	r := st.simp(st.ret.v)
	if r.t != nil || r.c == 0 || int64(r.c)%int64(s.ps.n) != 0 || r.c > 100000 {
		unknown("advertised signature size is %s", r)
	}
	return int64(r.c)
}

type slicer struct {
	*Scn
	n, B, total int64
	blockV      []V    // the bytes handed out, block by block
	snaps       []snap // after every byte position
	haveTo      int64  // positions 0..haveTo are known
	bad         int
	divergent   int
	budgetPaths int64
	ends        int64
}

func (z *slicer) sign1(st *State, ctx, dest *Region, off int64, m V) *State {
	return z.call1(st, "@ts_sign", ptrV(dest, off), Val{v: m}, ptrV(ctx, 0))
}

func isC(v V, c int64) bool { return v.t == nil && int64(v.c) == c }

// wanted byte at position p of the stream, as a cell value
func (z *slicer) byteAt(p int64) V {
	return slice(z.blockV[p/z.n], int32(8*z.n), int32(8*(p%z.n)), 8)
}

// checkBytes compares what was written to dest[0..cnt) with the stream from
// position p.
func (z *slicer) checkBytes(st *State, dest *Region, cnt, p int64, where, what string) bool {
	for o := int64(0); o < cnt; {
		k := z.n - (p+o)%z.n
		if k > cnt-o {
			k = cnt - o
		}
		b := (p + o) / z.n
		want := slice(z.blockV[b], int32(8*z.n), int32(8*((p+o)%z.n)), int32(8*k))
		if !z.same(st, z.bytes(st, dest, o, k), want, int32(8*k), "sliced output", where, sprintf("%s: bytes %d..%d of the signature", what, p+o, p+o+k-1)) {
			return false
		}
		o += k
	}
	return true
}

func (z *slicer) untouched(st *State, dest *Region, from, to int64, fill *Term, where, what string) bool {
	for i := from; i < to; i++ {
		c := st.peek(dest, i)
		if c.t != fill || int64(c.lo) != 8*i {
			z.ok(false, "writes beyond the request", where, "%s: byte %d of the buffer was written", what, i)
			return false
		}
	}
	z.ok(true, "", "", "")
	return true
}

func (z *slicer) fillBuf(st *State, name string, n int64) (*Region, *Term) {
	r := newRegion(name, C(uint64(n)))
	t := mkVar(name+" before", n, int32(8*n), 0)
	st.addRegion(r, t)
	return r, t
}

// reach: the state after a call must be the state at byte position p; a
// different state is only wrong if it behaves differently.
func (z *slicer) reach(st *State, ctx *Region, p int64, where, what string) {
	z.res.Oblig++
	if p <= z.haveTo && z.snapOf(st, ctx) == z.snaps[p] {
		z.res.Done++
		return
	}
	z.divergent++
	if p > z.haveTo || z.divergent > 3 {
		z.undecided("%s: context differs from the one reached byte by byte", what)
		return
	}
	if os.Getenv("SVC_DIFF") != "" {
		fmt.Fprintln(os.Stderr, "DIVERGE", what)
	}
	// continue to the end in one request
	rest := z.total - p
	cont := st.fork()
	if len(cont.frames) > 0 {
		cont.frames = nil
	}
	save := z.x.retHook
	z.x.retHook = nil
	defer func() { z.x.retHook = save }()
	lim := (z.haveTo/z.n)*z.n - p
	full := z.haveTo == z.total
	if full {
		lim = rest
	}
	if lim <= 0 {
		z.undecided("%s: context differs", what)
		return
	}
	ask := lim
	if full {
		ask = rest + 5
	}
	dest, fill := z.fillBuf(cont, "rest", lim+8)
	cont = z.sign1(cont, ctx, dest, 0, C(uint64(ask)))
	good := z.same(cont, cont.ret.v, C(uint64(lim)), 32, "sliced length", where, what+", then the rest at once: return value")
	good = z.checkBytes(cont, dest, lim, p, where, what+", then the rest at once") && good
	good = z.untouched(cont, dest, lim, lim+8, fill, where, what) && good
	if good {
		z.undecided("%s: context differs but the continuation is the same", what)
	}
}

func (s *Scn) slices(maxBlocks int64, thorough bool) {
	z := &slicer{Scn: s, n: int64(s.ps.n)}
	s.x.maxDepth = 200000
	wh := s.fileOf("@ts_sign")
	z.total = s.advertised()
	z.B = z.total / z.n
	st := s.newKeyState()
	st, ctx := s.initSign(st, s.rngOK())
	limB := z.B
	if maxBlocks < limB {
		limB = maxBlocks
	}
	n := z.n
	z.snaps = append(z.snaps, s.snapOf(st, ctx))
	base := []*State{st.fork()}
	hd := func(st *State) (*Region, *Term) { return z.fillBuf(st, "dest", 3*n+8) }
	// byte by byte
	for b := int64(0); b < limB; b++ {
		var vs []V
		var ws []int32
		for r := int64(0); r < n; r++ {
			d, fill := hd(st)
			st = z.sign1(st, ctx, d, 0, C(1))
			if !s.same(st, st.ret.v, C(1), 32, "sliced length", wh, sprintf("1-byte request at position %d: return value", b*n+r)) {
				return
			}
			z.untouched(st, d, 1, 3*n+8, fill, wh, sprintf("1-byte request at position %d", b*n+r))
			vs = append(vs, s.bytes(st, d, 0, 1))
			ws = append(ws, 8)
			st.delRegion(d)
			z.snaps = append(z.snaps, s.snapOf(st, ctx))
		}
		z.blockV = append(z.blockV, cat(vs, ws))
		base = append(base, st.fork())
		z.haveTo = (b + 1) * n
	}
	if limB == z.B {
		for _, m := range []uint64{1, 0xffffffff} {
			d, fill := hd(st)
			e := z.sign1(st.fork(), ctx, d, 0, C(m))
			s.same(e, e.ret.v, C(0), 32, "end of signature", wh, "request after the last byte: return value")
			z.untouched(e, d, 0, 3*n+8, fill, wh, "request after the last byte")
		}
	}
	s.res.Info["positions"] = sprintf("%d of %d bytes, one at a time", z.haveTo, z.total)
	// one step from every position: sizes that stay in the block, that end
	// with it, and that cross into the next ones
	kind := func(b int64) bool { // block positions worth crossing
		if thorough {
			return true
		}
		k, t := int64(s.ps.k), int64(s.ps.t)
		fe := 1 + k*(t+1)
		if b <= fe {
			q := (b - 1) % (t + 1)
			return b <= 1 || b >= fe-2 || (b-1)/(t+1) < 2 || q == t
		}
		per := int64(s.ps.wlen() + s.ps.mh)
		q := (b - fe) % per
		l := (b - fe) / per
		if l == 0 {
			return q < 2 || q >= int64(s.ps.wlen())-2
		}
		return q == 0 && l < 3 || q == int64(s.ps.wlen()) && l < 3 || b >= z.B-3
	}
	steps := 0
	for b := int64(0); b < limB; b++ {
		if !kind(b) {
			continue
		}
		// from the block start: everything up to two blocks and a byte
		var sizes []int64
		for _, m := range []int64{0, 2, n - 1, n, n + 1, 2*n + 1} {
			if b*n+m <= z.haveTo {
				sizes = append(sizes, m)
			}
		}
		for _, m := range sizes {
			e := base[b].fork()
			d, fill := hd(e)
			e = z.sign1(e, ctx, d, 0, C(uint64(m)))
			what := sprintf("request of %d at position %d", m, b*n)
			s.same(e, e.ret.v, C(uint64(m)), 32, "sliced length", wh, what+": return value")
			z.checkBytes(e, d, m, b*n, wh, what)
			z.untouched(e, d, m, 3*n+8, fill, wh, what)
			z.reach(e, ctx, b*n+m, wh, what)
			steps++
		}
		// from inside the block
		cur := base[b].fork()
		for r := int64(1); r < n; r++ {
			d, _ := hd(cur)
			cur = z.sign1(cur, ctx, d, 0, C(1))
			cur.delRegion(d)
			sz := []int64{0, 2, n - r}
			if r == 1 || r == n-1 {
				sz = append(sz, n-r+1, n)
			}
			if r == n/2 {
				sz = append(sz, 2*n)
			}
			for _, m := range sz {
				p := b*n + r
				if p+m > z.haveTo {
					continue
				}
				e := cur.fork()
				d, fill := hd(e)
				e = z.sign1(e, ctx, d, 0, C(uint64(m)))
				what := sprintf("request of %d at position %d", m, p)
				s.same(e, e.ret.v, C(uint64(m)), 32, "sliced length", wh, what+": return value")
				z.checkBytes(e, d, m, p, wh, what)
				z.untouched(e, d, m, 3*n+8, fill, wh, what)
				z.reach(e, ctx, p+m, wh, what)
				steps++
			}
			if z.divergent > 6 || len(s.res.Viols) > 5 {
				return
			}
		}
	}
	s.res.Info["single steps"] = sprintf("%d", steps)
	// one request of any size, from the start, one byte in, and one byte
	// before and after the end of the first block
	starts := []int64{0, n + 1}
	if thorough {
		starts = []int64{0, 1, n - 1, n, 1 + n*(1+int64(s.ps.k*(s.ps.t+1)))}
	}
	for _, p := range starts {
		if p >= z.haveTo || len(s.res.Viols) > 5 {
			break
		}
		st := base[p/n].fork()
		for r := int64(0); r < p%n; r++ {
			d, _ := hd(st)
			st = z.sign1(st, ctx, d, 0, C(1))
			st.delRegion(d)
		}
		z.anySize(st, ctx, p, wh)
	}
	if len(s.res.Viols) > 5 || z.haveTo < z.total {
		return
	}
	// near the end, any request size at all from a few positions
	for _, p := range []int64{z.total - 1, z.total - n, z.total - n - 1, z.total - 2*n + 1} {
		st := base[p/n].fork()
		for r := int64(0); r < p%n; r++ {
			d, _ := hd(st)
			st = z.sign1(st, ctx, d, 0, C(1))
			st.delRegion(d)
		}
		z.anySize(st, ctx, p, wh)
	}
}

// anySize: one request of every size from 0 to 2^32-1 at position p (bounded by
// the analysed prefix if the signature is not covered completely).
func (z *slicer) anySize(st *State, ctx *Region, p int64, wh string) {
	hi := int64(0xffffffff)
	full := z.haveTo == z.total
	if !full {
		hi = z.haveTo - p
	}
	left := z.haveTo - p
	m := reqVar(sprintf("request at %d", p), 0, hi)
	size := left + 8
	d, fill := z.fillBuf(st, "dest", size)
	covered := []IV{}
	last := int64(-1)
	z.x.retHook = func(e *State) {
		z.ends++
		mr := e.ivsOf(m)
		covered = append(covered, mr...)
		ret := e.simp(e.ret.v)
		lo := mr[0].lo
		cnt := lo
		what := sprintf("request of %s at position %d", ivStr(mr), p)
		if lo > left {
			cnt = left
		} else if len(mr) != 1 || mr[0].lo != mr[0].hi {
			if lo < left {
				z.undecided("%s: sizes handled together", what)
				return
			}
			cnt = left
		}
		if !isC(ret, cnt) {
			z.same(e, ret, C(uint64(cnt)), 32, "sliced length", wh, what+": return value")
		} else {
			z.ok(true, "", "", "")
		}
		// contents: the blocks since the previous full comparison
		if cnt-last > 64*z.n || cnt == left || cnt < 4*z.n {
			z.checkBytes(e, d, cnt, p, wh, what)
			z.untouched(e, d, cnt, size, fill, wh, what)
			last = cnt
		} else {
			from := (p + cnt) / z.n * z.n
			if from < p {
				from = p
			}
			k := p + cnt - from
			if k > 0 {
				z.res.Oblig++
				got, want := z.bytes(e, d, cnt-k, k), slice(z.blockV[from/z.n], int32(8*z.n), 0, int32(8*k))
				if got == want {
					z.res.Done++
				} else {
					z.res.Oblig--
					z.same(e, got, want, int32(8*k), "sliced output", wh, what)
				}
			}
			hiU := cnt + 3*z.n
			if hiU > size {
				hiU = size
			}
			z.untouched(e, d, cnt, hiU, fill, wh, what)
		}
		if p+cnt <= z.total {
			z.reach(e, ctx, p+cnt, wh, what)
		}
		if len(z.res.Viols) > 8 || z.divergent > 6 {
			unknown("stopped after several differences")
		}
	}
	defer func() {
		z.x.retHook = nil
		if r := recover(); r != nil {
			if u, ok := r.(unkErr); ok && len(z.res.Viols) > 0 {
				_ = u
				return
			}
			panic(r)
		}
	}()
	z.call(st, "@ts_sign", ptrV(d, 0), Val{v: T(m)}, ptrV(ctx, 0))
	z.x.retHook = nil
	tot := int64(0)
	for _, iv := range covered {
		tot += iv.hi - iv.lo + 1
	}
	z.ok(tot == hi+1, "request sizes covered", wh, "position %d: only %d of %d request sizes return", p, tot, hi+1)
	z.res.Info[sprintf("any size at %d", p)] = sprintf("%d classes of request size", z.ends)
	z.ends = 0
}

func ivStr(ivs []IV) string {
	if len(ivs) == 1 && ivs[0].lo == ivs[0].hi {
		return fmt.Sprint(ivs[0].lo)
	}
	return fmt.Sprint(ivs)
}
