package main

// Streaming on the verifier: every way of feeding the signature, and what
// happens around and after its end.

import (
	"fmt"
	"time"
)

type feeder struct {
	*Scn
	n, B, total int64
	sig         *Region
	vs          []V
	snaps       []snap
	haveTo      int64
	final       V // verdict after feeding byte by byte
	divergent   int
	ends        int64
	start       *State
}

func (z *feeder) feed(st *State, ctx *Region, p int64, m V) *State {
	return z.call1(st, "@ts_update_verify", ptrV(z.sig, p), Val{v: m}, ptrV(ctx, 0))
}

func (z *feeder) ask(st *State, ctx *Region) V {
	e := st.fork()
	e.frames = nil
	save := z.x.retHook
	z.x.retHook = nil
	defer func() { z.x.retHook = save }()
	e = z.call1(e, "@ts_verify", ptrV(ctx, 0))
	return e.simp(e.ret.v)
}

func (z *feeder) nonzero(st *State, v V, rule, where, what string) bool {
	v = st.simp(v)
	if v.t == nil {
		return z.ok(v.c != 0, rule, where, "%s returns 0", what)
	}
	e := st.simp(st.eqV(v, C(0), 32))
	if e.t == nil {
		return z.ok(e.c == 0, rule, where, "%s returns 0", what)
	}
	z.same(st, e, C(0), 1, rule, where, what+" returns zero")
	return false
}

func (s *Scn) newFeeder() (*feeder, *State, *Region) {
	z := &feeder{Scn: s, n: int64(s.ps.n)}
	s.x.maxDepth = 200000
	z.total = s.advertised()
	z.B = z.total / z.n
	st := s.newKeyState()
	r := newRegion("signature", C(uint64(z.total+4*z.n)))
	r.ro, r.why = true, "the signature fed to the verifier"
	st.addRegion(r, nil)
	for i := int64(0); i < z.B+4; i++ {
		t := mkVar("sig", i, s.ps.w(), 0)
		pokeAtom(st, r, i*z.n, t)
		z.vs = append(z.vs, T(t))
	}
	z.sig = r
	st, ctx := s.initVerify(st)
	rootHint = &pkHint{pk: s.sp.pkRoot.t, root: s.sp.verifyRoot(z.vs), w: s.ps.w()}
	z.start = st.fork()
	return z, st, ctx
}

func (z *feeder) reach(st *State, ctx *Region, p int64, where, what string) {
	z.res.Oblig++
	if z.snapOf(st, ctx) == z.snaps[p] {
		z.res.Done++
		return
	}
	z.divergent++
	if z.divergent > 3 {
		z.undecided("%s: context differs from the one reached byte by byte", what)
		return
	}
	e := st.fork()
	e.frames = nil
	save := z.x.retHook
	z.x.retHook = nil
	defer func() { z.x.retHook = save }()
	if z.total > p {
		e = z.feed(e, ctx, p, C(uint64(z.total-p)))
	}
	v := z.ask(e, ctx)
	if z.same(e, boolOf(e, v), boolOf(e, z.final), 1, "verdict depends on chunking", where, what+", then the rest at once: verdict") {
		z.undecided("%s: context differs but the verdict is the same", what)
	}
}

// boolOf: 1 if v is nonzero
func boolOf(st *State, v V) V { return st.simp(vXor(st.eqV(v, C(0), 32), C(1), 1)) }

func (s *Scn) chunks(thorough bool) {
	z, st, ctx := s.newFeeder()
	n := z.n
	wh := s.fileOf("@ts_update_verify")
	z.snaps = append(z.snaps, s.snapOf(st, ctx))
	base := []*State{st.fork()}
	for p := int64(0); p < z.total; p++ {
		st = z.feed(st, ctx, p, C(1))
		if p+1 < z.total {
			if !z.nonzero(st, st.ret.v, "good so far", wh, sprintf("feeding byte %d", p)) {
				return
			}
		}
		z.snaps = append(z.snaps, s.snapOf(st, ctx))
		if (p+1)%n == 0 {
			base = append(base, st.fork())
		}
	}
	z.final = z.ask(st, ctx)
	z.same(st, boolOf(st, st.ret.v), boolOf(st, z.final), 1, "last update agrees with the verdict", wh, "result of the update that completes the signature")
	s.res.Info["positions"] = sprintf("%d bytes, one at a time", z.total)
	kind := func(b int64) bool {
		if thorough {
			return true
		}
		k, t := int64(s.ps.k), int64(s.ps.t)
		fe := 1 + k*(t+1)
		if b <= fe {
			q := (b - 1) % (t + 1)
			return b <= 1 || b >= fe-2 || (b-1)/(t+1) < 2 || q == t
		}
		per := int64(s.ps.wlen() + s.ps.mh)
		q, l := (b-fe)%per, (b-fe)/per
		if l == 0 {
			return q < 2 || q >= int64(s.ps.wlen())-2
		}
		return q == 0 || q == int64(s.ps.wlen()) || b >= z.B-3
	}
	steps := 0
	one := func(from *State, p, m int64) {
		if p+m > z.total {
			return
		}
		e := z.feed(from.fork(), ctx, p, C(uint64(m)))
		what := sprintf("feeding %d bytes at position %d", m, p)
		if p+m < z.total {
			z.nonzero(e, e.ret.v, "good so far", wh, what)
		}
		z.reach(e, ctx, p+m, wh, what)
		steps++
	}
	for b := int64(0); b < z.B; b++ {
		if !kind(b) {
			continue
		}
		for _, m := range []int64{0, 2, n - 1, n, n + 1, 2*n + 1, 3 * n} {
			one(base[b], b*n, m)
		}
		cur := base[b].fork()
		for r := int64(1); r < n; r++ {
			cur = z.feed(cur, ctx, b*n+r-1, C(1))
			for _, m := range []int64{0, 2, n - r, n - r + 1} {
				one(cur, b*n+r, m)
			}
			if r == 1 || r == n-1 || r == n/2 {
				one(cur, b*n+r, n)
				one(cur, b*n+r, 2*n)
			}
			if z.divergent > 6 || len(s.res.Viols) > 5 {
				return
			}
		}
	}
	s.res.Info["single steps"] = sprintf("%d", steps)
	fe := n * (1 + int64(s.ps.k*(s.ps.t+1)))
	starts := []int64{1, fe - 1, z.total - 2*n + 1, z.total - n, z.total - 1}
	if thorough {
		starts = append(starts, 0, n, n+1)
		for l := 0; l < s.ps.d; l++ {
			q := n * int64(1+s.ps.k*(s.ps.t+1)+l*(s.ps.wlen()+s.ps.mh))
			starts = append(starts, q, q+3, q+n*int64(s.ps.wlen())-1)
		}
	}
	for _, p := range starts {
		if len(s.res.Viols) > 5 {
			break
		}
		st := base[p/n].fork()
		for r := int64(0); r < p%n; r++ {
			st = z.feed(st, ctx, p/n*n+r, C(1))
		}
		z.anyChunk(st, ctx, p, wh)
	}
}

// anyChunk: one chunk of every size at position p, up to and beyond the end.
func (z *feeder) anyChunk(st *State, ctx *Region, p int64, wh string) {
	hi := z.total + 3*z.n - p
	m := reqVar(sprintf("chunk at %d", p), 0, hi)
	var tot int64
	z.x.retHook = func(e *State) {
		z.ends++
		mr := e.ivsOf(m)
		for _, iv := range mr {
			tot += iv.hi - iv.lo + 1
		}
		lo, top := mr[0].lo, mr[len(mr)-1].hi
		what := sprintf("feeding %s bytes at position %d", ivStr(mr), p)
		switch {
		case lo == top && p+lo < z.total:
			z.nonzero(e, e.ret.v, "good so far", wh, what)
			z.reach(e, ctx, p+lo, wh, what)
		case lo == top && p+lo == z.total:
			z.same(e, boolOf(e, e.ret.v), boolOf(e, z.final), 1, "verdict depends on chunking", wh, what+": return value")
			z.same(e, boolOf(e, z.ask(e, ctx)), boolOf(e, z.final), 1, "verdict depends on chunking", wh, what+": verdict")
		case p+lo > z.total:
			z.same(e, boolOf(e, z.ask(e, ctx)), C(0), 1, "verdict depends on chunking", wh, what+": verdict after too many bytes")
		default:
			// sizes on both sides of the end were treated alike: the first is
			// still the whole signature
			z.undecided("%s: sizes handled together", what)
		}
		if len(z.res.Viols) > 8 || z.divergent > 6 {
			unknown("stopped after several differences")
		}
	}
	defer func() {
		z.x.retHook = nil
		if r := recover(); r != nil {
			if _, ok := r.(unkErr); ok && len(z.res.Viols) > 0 {
				return
			}
			panic(r)
		}
	}()
	z.call(st, "@ts_update_verify", ptrV(z.sig, p), Val{v: T(m)}, ptrV(ctx, 0))
	z.x.retHook = nil
	z.ok(tot == hi+1, "chunk sizes covered", wh, "position %d: only %d of %d chunk sizes return", p, tot, hi+1)
	z.res.Info[sprintf("any size at %d", p)] = sprintf("%d classes of chunk size", z.ends)
	z.ends = 0
}

// accept: no success before the end, success exactly on equality at the end,
// and none after more input.
func (s *Scn) accept() {
	z, st, ctx := s.newFeeder()
	n := z.n
	wh := s.fileOf("@ts_verify")
	zero := func(e *State, what string) bool {
		return z.same(e, boolOf(e, z.ask(e, ctx)), C(0), 1, "success without a complete signature", wh, what+": verdict")
	}
	zero(st, "no signature bytes fed")
	var last *State
	tail := map[int64]*State{}
	for b := int64(0); b < z.B; b++ {
		if b == z.B-1 {
			last = st.fork()
			break
		}
		e := z.feed(st.fork(), ctx, b*n, C(uint64(n-1)))
		zero(e, sprintf("%d bytes fed", b*n+n-1))
		st = z.feed(st, ctx, b*n, C(uint64(n)))
		if !zero(st, sprintf("%d bytes fed", b*n+n)) {
			return
		}
	}
	tail[z.total-n] = last.fork()
	for r := int64(0); r < n-1; r++ {
		last = z.feed(last, ctx, (z.B-1)*n+r, C(1))
		if !zero(last, sprintf("%d bytes fed", (z.B-1)*n+r+1)) {
			return
		}
		tail[(z.B-1)*n+r+1] = last.fork()
	}
	st = z.feed(st, ctx, (z.B-1)*n, C(uint64(n)))
	root := s.sp.verifyRoot(z.vs)
	upd := st.ret.v
	v := z.ask(st, ctx)
	s.verdict(st, upd, root, "result of the update that completes the signature")
	s.verdict(st, v, root, "verdict on the complete signature")
	// an empty chunk changes nothing
	e := z.feed(st.fork(), ctx, z.total, C(0))
	s.verdict(e, z.ask(e, ctx), root, "verdict after a further empty chunk")
	// more input after the end: every first chunk size, and some sequences
	after := func(e *State, p int64, sizes ...int64) {
		if len(s.res.Viols) > 8 {
			return
		}
		name := fmt.Sprintf("%d bytes beyond position %d, in chunks %v", sum(sizes), p, sizes)
		for _, m := range sizes {
			e = z.feed(e, ctx, p, C(uint64(m)))
			p += m
			if m > 0 {
				if !z.same(e, boolOf(e, z.ask(e, ctx)), C(0), 1, "success after too much input", wh, name+": verdict") {
					return
				}
			}
		}
	}
	for m := int64(1); m <= 2*n+1; m++ {
		after(st.fork(), z.total, m)
		after(st.fork(), z.total, m, 1)
		if m < n {
			after(st.fork(), z.total, m, n-m)
			after(st.fork(), z.total, m, n-m, 0, 1)
		}
		after(st.fork(), z.total, m, n, n)
	}
	var ones []int64
	for i := int64(0); i < 3*n; i++ {
		ones = append(ones, 1)
	}
	after(st.fork(), z.total, ones...)
	// wrap-around of any internal byte count
	e = st.fork()
	big := z.n * 3
	for i := 0; i < 200; i++ {
		e = z.feed(e, ctx, z.total-i64mod(int64(i), 2), C(uint64(big)))
	}
	z.same(e, boolOf(e, z.ask(e, ctx)), C(0), 1, "success after too much input", wh, "200 further chunks: verdict")
	// single bytes, until the contexts repeat: then every longer sequence is
	// covered by induction
	seen := map[snap]bool{}
	e = st.fork()
	fix := false
	for i := 0; i < 70000; i++ {
		e = z.feed(e, ctx, z.total, C(1))
		if !z.same(e, boolOf(e, z.ask(e, ctx)), C(0), 1, "success after too much input", wh, sprintf("%d further single bytes: verdict", i+1)) {
			return
		}
		k := s.snapOf(e, ctx)
		if seen[k] {
			fix = true
			s.res.Info["bytes after the end until contexts repeat"] = sprintf("%d", i+1)
			break
		}
		seen[k] = true
	}
	if !fix {
		z.undecided("no repetition of the context within 70000 bytes after the end")
	}
	z.hugeChunk(tail, ctx, wh)
	// one chunk that runs past the end
	for _, p := range []int64{z.total - n, z.total - n + 1, z.total - 1} {
		e0 := tail[p]
		if e0 == nil {
			continue
		}
		for m := z.total - p + 1; m <= z.total-p+2*n; m++ {
			e := z.feed(e0.fork(), ctx, p, C(uint64(m)))
			if !z.same(e, boolOf(e, z.ask(e, ctx)), C(0), 1, "success after too much input", wh, sprintf("chunk of %d at position %d (total %d): verdict", m, p, z.total)) {
				return
			}
		}
	}
}

// hugeChunk: the rest of the signature in a chunk with very much behind it.
func (z *feeder) hugeChunk(at map[int64]*State, ctx *Region, wh string) {
	long := newRegion("long input", C(1<<33))
	long.ro, long.why = true, "the signature fed to the verifier"
	for _, p := range []int64{z.total - z.n, z.total - 1} {
		if at[p] == nil {
			continue
		}
		b := at[p].fork()
		b.addRegion(long, nil)
		pokeAtom(b, long, 0, z.vs[z.B-1].t)
		rest := z.total - p
		for k := 8; k <= 32; k++ {
			m := rest + int64(1)<<uint(k)
			if k == 32 {
				m = 1<<32 - 1
			}
			what := sprintf("chunk of %d at position %d (total %d): verdict", m, p, z.total)
			func() {
				z.x.budget, z.x.soft = z.x.steps+1e6, time.Now().Add(4*time.Second)
				defer func() {
					z.x.budget, z.x.soft = 1e12, time.Time{}
					if r := recover(); r != nil {
						if u, ok := r.(unkErr); ok {
							z.undecided("%s: %s", what, string(u))
							return
						}
						panic(r)
					}
				}()
				e := z.call1(b.fork(), "@ts_update_verify", ptrV(long, z.n-rest), Val{v: C(uint64(m))}, ptrV(ctx, 0))
				z.same(e, boolOf(e, z.ask(e, ctx)), C(0), 1, "success after too much input", wh, what)
			}()
			if len(z.res.Undecided) > 3 || len(z.res.Viols) > 1 {
				return
			}
		}
	}
}

func i64mod(a, b int64) int64 { return a % b }

func sum(xs []int64) (t int64) {
	for _, x := range xs {
		t += x
	}
	return
}
