package main

// Calls in the wrong phase (C04) and the random source protocol (C10).

type guard struct {
	*Scn
	ctx *Region
}

// unchanged: a call returns 0 and leaves the context as it was.
func (g *guard) unchanged(st *State, fn, when string, args ...Val) {
	if len(g.res.Viols) > 5 {
		return
	}
	before := g.regCells(st, g.ctx, g.ctxSz)
	e := g.call1(st.fork(), fn, args...)
	wh := g.fileOf(fn)
	g.same(e, e.ret.v, C(0), 32, "wrong phase result", wh, sprintf("%s %s: return value", fn[1:], when))
	after := g.regCells(e, g.ctx, g.ctxSz)
	g.res.Oblig++
	for i := range before {
		if before[i] != after[i] {
			a, b := cellsV(after[i:i+1]), cellsV(before[i:i+1])
			if e.simp(a) == e.simp(b) {
				continue
			}
			g.res.Oblig--
			g.same(e, a, b, 8, "wrong phase changes the context", wh, sprintf("%s %s: byte %d of the context afterwards", fn[1:], when, i))
			return
		}
	}
	g.res.Done++
}

// wrongSign: requests for signature bytes that must do nothing.
func (g *guard) wrongSign(st *State, when string) {
	for _, m := range []int64{0, 1, int64(g.ps.n), int64(3*g.ps.n + 1)} {
		size := int64(3*g.ps.n + 8)
		r := newRegion("dest", C(uint64(size)))
		fill := mkVar("dest before", size, int32(8*size), 0)
		st.addRegion(r, fill)
		r.ro, r.why = true, "output buffer of a request that must write nothing"
		g.unchanged(st, "@ts_sign", sprintf("for %d bytes %s", m, when), ptrV(r, 0), cV(uint64(m)), ptrV(g.ctx, 0))
		st.delRegion(r)
	}
}

func (g *guard) wrongFeed(st *State, when string) {
	for _, m := range []int64{0, 1, int64(g.ps.n), int64(3*g.ps.n + 1)} {
		size := int64(3*g.ps.n + 8)
		r := newRegion("sig", C(uint64(size)))
		st.addRegion(r, mkVar("misused sig", size, int32(8*size), 0))
		r.ro, r.why = true, "fed signature bytes"
		g.unchanged(st, "@ts_update_verify", sprintf("with %d bytes %s", m, when), ptrV(r, 0), cV(uint64(m)), ptrV(g.ctx, 0))
		st.delRegion(r)
	}
}

func (g *guard) noVerdict(st *State, when string) {
	g.unchanged(st, "@ts_verify", when, ptrV(g.ctx, 0))
}

func (s *Scn) phases(maxBlocks int64) {
	n := int64(s.ps.n)
	st0 := s.newKeyState()
	// a context that was zeroed and never initialised
	{
		st := st0.fork()
		ctx := newRegion("zeroed ctx", C(uint64(s.ctxSz)))
		ctx.algn = 0
		st.addRegion(ctx, nil)
		for i := int64(0); i < s.ctxSz; i++ {
			st.poke(ctx, i, Cell{})
		}
		g := &guard{s, ctx}
		for i, f := range []func(){
			func() { g.wrongSign(st.fork(), "on a zeroed context") },
			func() { g.wrongFeed(st.fork(), "on a zeroed context") },
			func() { g.noVerdict(st.fork(), "on a zeroed context") }} {
			func() {
				evs := len(s.x.events)
				defer func() {
					if r := recover(); r != nil {
						u, ok := r.(unkErr)
						if !ok {
							panic(r)
						}
						s.x.cleanup()
						hit := false
						for _, e := range s.x.events[evs:] {
							if e.kind == "oob" || e.kind == "badptr" || e.kind == "uninit" {
								s.ok(false, "zeroed context", sprintf("%s:%d (%s)", e.file, e.line, e.fn), "call %d on a zeroed context: %s", i, e.msg)
								hit = true
							}
						}
						if !hit {
							s.res.Unknown = append(s.res.Unknown, "zeroed context: "+string(u))
						}
					}
				}()
				f()
			}()
		}
	}
	st, ctx := s.initSign(st0.fork(), s.rngOK())
	g := &guard{s, ctx}
	B := s.advertised() / n
	lim := B
	if maxBlocks < lim {
		lim = maxBlocks
	}
	g.wrongFeed(st, "right after ts_init_sign")
	g.noVerdict(st, "right after ts_init_sign")
	dest := s.buf(st, "dest", n, 0)
	for b := int64(0); b < lim; b++ {
		if (b < 40 || b%16 == 0) && b+1 < lim {
			e := s.call1(st.fork(), "@ts_sign", ptrV(dest, 0), cV(1), ptrV(ctx, 0))
			g.wrongFeed(e, sprintf("while signing, at byte %d", b*n+1))
			g.noVerdict(e, sprintf("while signing, at byte %d", b*n+1))
		}
		st = s.call1(st, "@ts_sign", ptrV(dest, 0), cV(uint64(n)), ptrV(ctx, 0))
		g.wrongFeed(st, sprintf("while signing, after block %d", b))
		g.noVerdict(st, sprintf("while signing, after block %d", b))
	}
	s.res.Info["signing phases"] = sprintf("%d of %d block positions", lim, B)
	if lim == B {
		// the signature has been handed out completely; the next request
		// reports the end
		e := s.call1(st, "@ts_sign", ptrV(dest, 0), cV(uint64(n)), ptrV(ctx, 0))
		s.same(e, e.ret.v, C(0), 32, "wrong phase result", s.fileOf("@ts_sign"), "request after the end: return value")
		g.wrongSign(e, "after the end of the signature")
		g.wrongFeed(e, "after the end of the signature")
		g.noVerdict(e, "after the end of the signature")
	}
	// verification
	z, st, ctx := s.newFeeder()
	g = &guard{s, ctx}
	for b := int64(0); b < z.B; b++ {
		g.wrongSign(st, sprintf("while verifying, at block %d", b))
		g.noVerdict(st, sprintf("while verifying, at block %d", b))
		if b == z.B-1 {
			break
		}
		if b < 40 || b%16 == 0 {
			e := z.feed(st.fork(), ctx, b*n, C(1))
			g.wrongSign(e, sprintf("while verifying, at byte %d", b*n+1))
			g.noVerdict(e, sprintf("while verifying, at byte %d", b*n+1))
		}
		st = z.feed(st, ctx, b*n, C(uint64(n)))
	}
	last := (z.B - 1) * n
	done := z.feed(st.fork(), ctx, last, C(uint64(n)))
	g.wrongSign(done, "after a complete verification")
	// a definite failure: too many bytes
	over := z.feed(st.fork(), ctx, last, C(uint64(n+1)))
	g.wrongSign(over, "after a failed verification")
	g.wrongFeed(over, "after a failed verification")
	g.noVerdict(over, "after a failed verification")
	// failure by root mismatch: the branch of the verdict where it is 0
	v := z.ask(done, ctx)
	if vt := done.simp(done.eqV(v, C(0), 32)); vt.t != nil {
		bad := done.fork()
		d, ivs := discOf(vt)
		if bad.addFact(d, isectIVs(bad.ivsOf(d), ivs)) {
			g.wrongSign(bad, "after a verification with the wrong root")
			g.wrongFeed(bad, "after a verification with the wrong root")
			g.noVerdict(bad, "after a verification with the wrong root")
		}
	}
	// past the end after success
	e := z.feed(done.fork(), ctx, z.total, C(1))
	g.wrongSign(e, "one byte after a complete verification")
	g.noVerdict(e, "one byte after a complete verification")
	e = z.feed(e, ctx, z.total+1, C(uint64(n)))
	g.wrongSign(e, "more than a hash after a complete verification")
	g.wrongFeed(e, "more than a hash after a complete verification")
	g.noVerdict(e, "more than a hash after a complete verification")
}

// cleanup resets per-call interpreter state after an abandoned call.
func (x *X) cleanup() { x.depth = 0 }

// ---------- random source

func (s *Scn) rngProtocol() {
	n := int64(s.ps.n)
	w := s.ps.w()
	kg := s.fileOf("@ts_gen_key")
	type asks struct{ n int }
	cnt := &asks{}
	mkKeys := func() (*State, *Region, *Region) {
		st := s.x.freshState()
		s.sp = &Sp{ps: s.ps}
		pr := newRegion("private_key", C(uint64(4*n)))
		pu := newRegion("public_key", C(uint64(2*n)))
		st.addRegion(pr, mkVar("private key before", 4*n, int32(32*n), 0))
		st.addRegion(pu, mkVar("public key before", 2*n, int32(16*n), 0))
		cnt.n = 0
		return st, pr, pu
	}
	zeroRet := func(e *State, what string) {
		s.same(e, e.ret.v, C(0), 32, "keygen must fail", kg, what+": return value")
	}
	intact := func(e *State, r *Region, sz int64, what string) {
		for i := int64(0); i < sz; i++ {
			c := e.peek(r, i)
			if c.t == nil || c.t.op != OpVar || int64(c.lo) != 8*i || c.t.w != int32(8*sz) {
				s.ok(false, "failed keygen writes", kg, "%s: byte %d of %s was written", what, i, r.name)
				return
			}
		}
		s.ok(true, "", "", "")
	}
	// source that logs requests; k selects what it writes
	source := func(name string, ret V, wr int64) Val {
		s.x.hooks["@"+name] = func(x *X, st *State, args []Val, in *Instr) []*State {
			cnt.n++
			nv := st.simp(args[1].v)
			p := args[0]
			if p.r == nil {
				p = termVal(st.simp(p.v))
			}
			if nv.t != nil || p.r == nil || p.v.t != nil {
				unknown("random source called with symbolic arguments")
			}
			s.lastReg, s.lastOff, s.lastLen = p.r, int64(p.v.c), int64(nv.c)
			k := wr
			if k > int64(nv.c) {
				k = int64(nv.c)
			}
			if k > 0 {
				x.writeAtom(st, p.r, int64(p.v.c), mkVar(name+" bytes", k, int32(8*k), FOpt), k)
			}
			st.ret = Val{v: ret}
			return []*State{st}
		}
		return Val{v: fnTerm("@" + name)}
	}
	bad := func(what string, a, b func(pr, pu *Region) Val, ps, rng Val) {
		st, pr, pu := mkKeys()
		outs := s.guarded(func() []*State {
			return s.call(st, "@ts_gen_key", a(pr, pu), b(pr, pu), ps, rng)
		}, "keygen must fail", kg, what)
		for _, e := range outs {
			zeroRet(e, what)
			intact(e, pr, 4*n, what)
			intact(e, pu, 2*n, what)
		}
	}
	null := func(pr, pu *Region) Val { return Val{} }
	P := func(pr, pu *Region) Val { return ptrV(pr, 0) }
	U := func(pr, pu *Region) Val { return ptrV(pu, 0) }
	okSrc := source("!ok", C(1), 1<<20)
	bad("no random source", P, U, s.psArg(), Val{})
	bad("no random source and no public key buffer", P, null, s.psArg(), Val{})
	bad("no private key buffer", null, U, s.psArg(), okSrc)
	bad("no private key buffer, no public key buffer", null, null, s.psArg(), okSrc)
	bad("no parameter set", P, U, Val{}, okSrc)
	bad("no arguments at all", null, null, Val{}, Val{})
	// failing sources: nothing, a part or everything written
	for _, wr := range []int64{0, 1, n, 3*n - 1, 3 * n} {
		for _, pubp := range []func(pr, pu *Region) Val{U, null} {
			st, pr, pu := mkKeys()
			what := sprintf("random source fails after writing %d bytes", wr)
			src := source("!fail", C(0), wr)
			outs := s.guarded(func() []*State { return s.call(st, "@ts_gen_key", P(pr, pu), pubp(pr, pu), s.psArg(), src) }, "keygen must fail", kg, what)
			for _, e := range outs {
				zeroRet(e, what)
				intact(e, pu, 2*n, what)
			}
			s.ok(cnt.n == 1, "random source asked once", kg, "%s: asked %d times", what, cnt.n)
		}
	}
	// a failing source among all return values: one symbolic result
	{
		st, pr, pu := mkKeys()
		rv := mkVar("rng_any", 0, 32, 0)
		varRange[rv] = IV{0, 0}
		src := source("!zero", T(rv), 3*n)
		outs := s.guarded(func() []*State { return s.call(st, "@ts_gen_key", P(pr, pu), U(pr, pu), s.psArg(), src) }, "keygen must fail", kg, "random source returns 0")
		for _, e := range outs {
			zeroRet(e, "random source returns 0")
		}
	}
	// working sources (f sets: key generation is complete here)
	if !s.ps.small() {
		rv := mkVar("rng_result", 0, 32, 0)
		varRange[rv] = IV{1, int64(mask(32))}
		st, pr, pu := mkKeys()
		src := source("!any", T(rv), 1<<20)
		outs := s.guarded(func() []*State { return s.call(st, "@ts_gen_key", P(pr, pu), U(pr, pu), s.psArg(), src) }, "keygen must succeed", kg, "random source returns any nonzero value")
		s.ok(cnt.n == 1 && s.lastLen == 3*n && s.lastReg == pr && s.lastOff == 0, "random source asked once", kg, "asked %d times, last for %d bytes at offset %d, expected once for %d at 0 of the private key", cnt.n, s.lastLen, s.lastOff, 3*n)
		for _, e := range outs {
			s.same(e, boolOf(e, e.ret.v), C(1), 1, "keygen must succeed", kg, "random source returns any nonzero value: success")
		}
		_ = pu
	}
	// signing
	is := s.fileOf("@ts_init_sign")
	st0 := s.newKeyState()
	begin := func(rng Val, what string) (*State, *Region, V) {
		st := st0.fork()
		cnt.n = 0
		st, ctx := s.initSign(st, rng)
		dest := s.buf(st, "dest", n, 0)
		e := s.call1(st.fork(), "@ts_sign", ptrV(dest, 0), cV(uint64(n)), ptrV(ctx, 0))
		return st, ctx, s.bytes(e, dest, 0, n)
	}
	det := s.sp.prfMsg(s.sp.pkSeed)
	stD, ctxD, r := begin(Val{}, "no random source")
	s.same(stD, r, det, w, "deterministic signing", is, "no random source: R")
	canon := s.regCells(stD, ctxD, s.ctxSz)
	for _, wr := range []int64{0, 1, n - 1, n} {
		what := sprintf("random source fails after writing %d bytes", wr)
		st, ctx, r := begin(source("!sfail", C(0), wr), what)
		s.same(st, r, det, w, "deterministic signing", is, what+": R")
		s.ok(cnt.n == 1 && s.lastLen == n, "random source asked once", is, "%s: asked %d times, last for %d bytes", what, cnt.n, s.lastLen)
		cs := s.regCells(st, ctx, s.ctxSz)
		s.res.Oblig++
		diff := -1
		for i := range cs {
			if cs[i] != canon[i] && cs[i].t != nil && cs[i].t.fl&FOpt != 0 {
				diff = i
				break
			}
		}
		if diff >= 0 {
			s.res.Oblig--
			s.same(st, cellsV(cs[diff:diff+1]), cellsV(canon[diff:diff+1]), 8, "deterministic signing", is, sprintf("%s: byte %d of the context", what, diff))
		} else {
			s.res.Done++
		}
	}
	rv := mkVar("rng_result", 0, 32, 0)
	varRange[rv] = IV{1, int64(mask(32))}
	stR, _, r := begin(source("!srand", T(rv), 1<<20), "working random source")
	s.ok(cnt.n == 1 && s.lastLen == n, "random source asked once", is, "working random source: asked %d times, last for %d bytes", cnt.n, s.lastLen)
	s.same(stR, r, s.sp.prfMsg(T(mkVar("!srand bytes", n, w, FOpt))), w, "randomised signing", is, "working random source (any nonzero result): R")
}

// guarded: invalid accesses inside f are a violation of the given rule.
func (s *Scn) guarded(f func() []*State, rule, where, what string) (outs []*State) {
	evs := len(s.x.events)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unkErr)
			if !ok {
				panic(r)
			}
			s.x.cleanup()
			hit := false
			for _, e := range s.x.events[evs:] {
				if e.kind == "oob" || e.kind == "badptr" {
					s.ok(false, rule, sprintf("%s:%d (%s)", e.file, e.line, e.fn), "%s: %s", what, e.msg)
					hit = true
				}
			}
			if !hit {
				s.res.Unknown = append(s.res.Unknown, what+": "+string(u))
			}
			outs = nil
		}
	}()
	return f()
}
