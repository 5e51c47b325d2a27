package main

// Scenarios: calls of the public API on abstract inputs, and the comparison
// of the resulting abstract states with the oracle.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

var t0s = time.Now()

type Viol struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
}

type Result struct {
	Job       string            `json:"job"`
	Oblig     int               `json:"obligations"`
	Done      int               `json:"discharged"`
	Undecided []string          `json:"undecided,omitempty"`
	Unknown   []string          `json:"unknown,omitempty"`
	Error     string            `json:"error,omitempty"`
	Viols     []Viol            `json:"violations,omitempty"`
	Events    []Viol            `json:"events,omitempty"`
	Steps     int64             `json:"steps"`
	Branches  int64             `json:"branches"`
	SymBr     int               `json:"symbolic_branch_sites"`
	Calls     int64             `json:"calls"`
	Accesses  int64             `json:"accesses"`
	Hashes    int64             `json:"hash_applications"`
	Splits    int64             `json:"joins"`
	Terms     uint32            `json:"terms"`
	Funcs     []string          `json:"functions"`
	Info      map[string]string `json:"info,omitempty"`
	WallS     float64           `json:"wall_s"`
	samples   int
}

type Scn struct {
	x                *X
	m                *Module
	ps               *PS
	sp               *Sp
	res              *Result
	psReg            *Region
	ctxSz            int64
	priv             *Region
	pub              *Region
	msg              *Region
	opt              *Term
	deadline         time.Time
	lastReg          *Region
	nUnd             int
	fixLen           *uint64
	nullMsg          bool // the empty message, given as a null pointer
	t0               time.Time
	lastOff, lastLen int64
}

func (s *Scn) ok(cond bool, rule, where, f string, a ...interface{}) bool {
	s.res.Oblig++
	if cond {
		s.res.Done++
		return true
	}
	if s.room(rule) {
		s.res.Viols = append(s.res.Viols, Viol{Rule: rule, Where: where, Msg: fmt.Sprintf(f, a...)})
	}
	return false
}

func (s *Scn) undecided(f string, a ...interface{}) {
	s.nUnd++
	if len(s.res.Undecided) < 30 {
		s.res.Undecided = append(s.res.Undecided, fmt.Sprintf(f, a...))
	}
}

// room limits the findings reported per rule.
func (s *Scn) room(rule string) bool {
	n := 0
	for _, v := range s.res.Viols {
		if v.Rule == rule {
			n++
		}
	}
	return n < 12
}

// same records the obligation a == b in st.
func (s *Scn) same(st *State, a, b V, w int32, rule, where, what string) bool {
	s.res.Oblig++
	if s.nUnd > 150 && a != b {
		// nothing more will be learned; do not search for valuations
		a, b = st.simp(a), st.simp(b)
		if a == b {
			s.res.Done++
			return true
		}
		s.undecided("%s: not compared", what)
		return false
	}
	switch compareV(st, a, b, w) {
	case vSame:
		s.res.Done++
		return true
	case vDiff:
		if a.t != nil && a.t.fl&FJunk != 0 {
			rule = "depends on previous memory contents (" + junkName(a.t, 0) + "): " + rule
		}
		if s.room(rule) {
			s.res.Viols = append(s.res.Viols, Viol{Rule: rule, Where: where, Msg: what + ": computed " + clip(diffShow(a, b, w)) + " expected " + clip(diffShow(b, a, w))})
		}
	default:
		s.undecided("%s: normal forms differ but no separating valuation", what)
		if os.Getenv("SVC_DIFF") != "" {
			fmt.Fprintln(os.Stderr, "DIFF", what)
			traceDiff(a, b, "", 12)
		}
	}
	return false
}

func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// diffShow shows the inputs of a in the part where it differs from b.
func diffShow(a, b V, w int32) string { return showDiff(a, b, 6) }

func showDiff(a, b V, d int) string {
	if a.t == nil || b.t == nil || d == 0 {
		return showV(a, 3)
	}
	x, y := a.t, b.t
	// peel equal structure: slices of single atoms
	for x.op == OpCat && y.op == OpCat && len(x.segs) == 1 && len(y.segs) == 1 && x.segs[0].p != nil && y.segs[0].p != nil && x.segs[0].p.one && y.segs[0].p.one && x.segs[0].p.mons[0][0].lo == y.segs[0].p.mons[0][0].lo {
		x, y = x.segs[0].p.mons[0][0].t, y.segs[0].p.mons[0][0].t
	}
	if x.op == OpHash && y.op == OpHash && x.s == y.s && len(x.args) == len(y.args) {
		for i := range x.args {
			if x.args[i] != y.args[i] {
				return x.s + "(.." + showDiff(T(x.args[i]), T(y.args[i]), d-1) + "..)"
			}
		}
	}
	if x.op == OpCase && y.op == OpCase && x.args[0] == y.args[0] && len(x.ents) == len(y.ents) {
		for i := range x.ents {
			if x.ents[i] != y.ents[i] {
				return fmt.Sprintf("[case %d] ", x.ents[i].lo) + showDiff(x.ents[i].v, y.ents[i].v, d-1)
			}
		}
	}
	if x.op == OpCat && y.op == OpCat && x.w == y.w {
		p, q := alignSegs(append([]Seg{}, x.segs...), append([]Seg{}, y.segs...))
		pos := int32(0)
		for i := range p {
			if i < len(q) && (p[i] != q[i]) {
				u, v := fromSeg1(p[i]), fromSeg1(q[i])
				if p[i].p != nil && q[i].p != nil && p[i].n >= 8 {
					return fmt.Sprintf("bits %d.. ", pos) + showDiff(u, v, d-1)
				}
				return fmt.Sprintf("bits %d+%d ", pos, p[i].n) + showV(u, 2)
			}
			pos += p[i].n
		}
	}
	return showTerm(x, 3)
}

// ---------- building blocks

func (m *Module) constU64(name string) (uint64, bool) {
	g := m.globals[name]
	if g == nil || g.init == nil {
		return 0, false
	}
	return g.init.ival, true
}

func newScn(m *Module, ps *PS, res *Result) *Scn {
	s := &Scn{x: newX(m), m: m, ps: ps, res: res, t0: time.Now()}
	sz, ok := m.constU64("@svc_ctx_size")
	if !ok {
		panic("no context size probe")
	}
	s.ctxSz = int64(sz)
	curN = int64(ps.n)
	g := m.globals[ps.global()]
	if g == nil {
		panic("parameter set " + ps.global() + " not found")
	}
	s.psReg = g.region
	for _, need := range []string{"@ts_gen_key", "@ts_init_sign", "@ts_sign", "@ts_init_verify", "@ts_update_verify", "@ts_verify", "@ts_size_signature"} {
		if m.funcs[need] == nil {
			panic("function " + need + " not found")
		}
	}
	if len(s.hashAnchors()) == 0 {
		panic("no hash primitives found")
	}
	return s
}

func (s *Scn) hashAnchors() []string {
	var out []string
	for n := range boundaries {
		if s.m.funcs[n] != nil {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func (s *Scn) newKeyState() *State {
	st := s.x.freshState()
	n := int64(s.ps.n)
	w := s.ps.w()
	s.priv = newRegion("private_key", C(uint64(4*n)))
	s.priv.ro, s.priv.why = true, "the private key given for signing"
	st.addRegion(s.priv, nil)
	sk := mkVar("sk.seed", 0, w, FSecret)
	pf := mkVar("sk.prf", 0, w, FKeyPrf)
	pd := mkVar("pk.seed", 0, w, FKey)
	rt := mkVar("pk.root", 0, w, FKey)
	for i, t := range []*Term{sk, pf, pd, rt} {
		pokeAtom(st, s.priv, int64(i)*n, t)
	}
	s.pub = newRegion("public_key", C(uint64(2*n)))
	s.pub.ro, s.pub.why = true, "the public key"
	st.addRegion(s.pub, nil)
	pokeAtom(st, s.pub, 0, pd)
	pokeAtom(st, s.pub, n, rt)
	lt := mkVar("len_message", 0, 64, FMsg)
	varRange[lt] = IV{0, 1 << 60}
	ln := T(lt)
	if l := s.fixLen; l != nil { // same region kind, a length of one value
		lt = mkVar(sprintf("len_message=%d", *l), 0, 64, FMsg)
		varRange[lt] = IV{int64(*l), int64(*l)}
		ln = C(*l)
	}
	s.msg = newRegion("message", T(lt))
	s.msg.ro, s.msg.why = true, "the message"
	st.addRegion(s.msg, nil)
	s.opt = mkVar("opt_rand", 0, w, FOpt)
	s.sp = &Sp{ps: s.ps, skSeed: T(sk), skPrf: T(pf), pkSeed: T(pd), pkRoot: T(rt), msg: s.msg, msgLen: ln}
	return st
}

func pokeAtom(st *State, r *Region, off int64, t *Term) {
	for i := int64(0); i < int64(t.w)/8; i++ {
		st.poke(r, off+i, Cell{t: t, lo: int32(8 * i)})
	}
}

// buf adds a writable region filled with an opaque atom.
func (s *Scn) buf(st *State, name string, n int64, fl uint32) *Region {
	r := newRegion(name, C(uint64(n)))
	op := OpVar
	if fl&FJunk != 0 {
		op = OpJunk
	}
	st.addRegion(r, cons(&Term{op: op, s: name, w: int32(8 * n), fl: fl}))
	return r
}

func (s *Scn) bytes(st *State, r *Region, off, n int64) V {
	cs := make([]Cell, n)
	for i := range cs {
		cs[i] = st.peek(r, off+int64(i))
	}
	return cellsV(cs)
}

func (s *Scn) call(st *State, fn string, args ...Val) []*State {
	f := s.m.funcs[fn]
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		unknown("time budget of the scenario exhausted")
	}
	return s.x.callFn(st, f, args, nil)
}

func (s *Scn) call1(st *State, fn string, args ...Val) *State {
	outs := s.call(st, fn, args...)
	if len(outs) != 1 {
		unknown("%s: %d result states", fn, len(outs))
	}
	return outs[0]
}

// rng installs the random source: mode "ok" writes opt and returns a nonzero
// value, "fail" writes and returns 0.
func (s *Scn) rng(name string, content func(n int64) *Term, ret V, log func(st *State, r *Region, off V, n V)) Val {
	s.x.hooks["@"+name] = func(x *X, st *State, args []Val, in *Instr) []*State {
		nv := st.simp(args[1].v)
		p := args[0]
		if p.r == nil {
			p = termVal(st.simp(p.v))
		}
		if log != nil {
			log(st, p.r, p.v, nv)
		}
		if nv.t == nil && p.r != nil && p.v.t == nil {
			if t := content(int64(nv.c)); t != nil && nv.c > 0 {
				x.writeAtom(st, p.r, int64(p.v.c), t, int64(nv.c))
			}
		} else {
			unknown("random source called with symbolic arguments")
		}
		st.ret = Val{v: ret}
		return []*State{st}
	}
	return Val{v: fnTerm("@" + name)}
}

func (s *Scn) psArg() Val { return ptrV(s.psReg, 0) }

// initSign: a context on which signing has been started, with a random source
// that delivers opt_rand.
func (s *Scn) initSign(st *State, rng Val) (*State, *Region) {
	ctx := s.buf(st, "ctx", s.ctxSz, FJunk)
	ctx.algn = 0
	st = s.call1(st, "@ts_init_sign", ptrV(ctx, 0), s.msgArg(), Val{v: s.sp.msgLen}, s.psArg(), ptrV(s.priv, 0), rng)
	return st, ctx
}

func (s *Scn) msgArg() Val {
	if s.nullMsg {
		return cV(0)
	}
	return ptrV(s.msg, 0)
}

func (s *Scn) rngOK() Val {
	rv := mkVar("rng_result", 0, 32, 0)
	varRange[rv] = IV{1, int64(mask(32))}
	return s.rng("!rng", func(n int64) *Term {
		if n == int64(s.ps.n) {
			return s.opt
		}
		return mkVar("rng_bytes", n, int32(8*n), FOpt)
	}, T(rv), nil)
}

func (s *Scn) initVerify(st *State) (*State, *Region) {
	ctx := s.buf(st, "ctx", s.ctxSz, FJunk)
	ctx.algn = 0
	st = s.call1(st, "@ts_init_verify", ptrV(ctx, 0), s.msgArg(), Val{v: s.sp.msgLen}, s.psArg(), ptrV(s.pub, 0))
	return st, ctx
}

func (s *Scn) fileOf(fn string) string {
	if f := s.m.funcs[fn]; f != nil {
		return f.file + " (" + fn[1:] + ")"
	}
	return fn
}

// collect copies interpreter statistics and events into the result.
func (s *Scn) collect() {
	r, x := s.res, s.x
	r.Steps, r.Branches, r.Calls, r.Accesses, r.Hashes, r.Splits = x.steps, x.branches, x.calls, x.accesses, x.hashes, x.splits
	r.SymBr = len(x.brSeen)
	for _, e := range x.events {
		r.Events = append(r.Events, Viol{Rule: e.kind, Where: sprintf("%s:%d (%s)", e.file, e.line, e.fn), Msg: e.msg, Stack: e.stack})
	}
	r.Terms = termCount
	for f := range x.fnSeen {
		r.Funcs = append(r.Funcs, strings.TrimPrefix(f, "@"))
	}
	sort.Strings(r.Funcs)
}

// ---------- key generation

func (s *Scn) keygen(withPub bool) {
	st := s.x.freshState()
	n := int64(s.ps.n)
	w := s.ps.w()
	s.sp = &Sp{ps: s.ps}
	seeds := mkVar("seeds", 0, 3*w, 0)
	sk := mkVar("sk.seed", 0, w, FSecret)
	pf := mkVar("sk.prf", 0, w, FKeyPrf)
	pd := mkVar("pk.seed", 0, w, FKey)
	_ = seeds
	s.sp.skSeed, s.sp.skPrf, s.sp.pkSeed = T(sk), T(pf), T(pd)
	priv := s.buf(st, "private_key", 4*n, FJunk)
	asked := 0
	rv := mkVar("rng_result", 0, 32, 0)
	varRange[rv] = IV{1, int64(mask(32))}
	whole := cat([]V{T(sk), T(pf), T(pd)}, []int32{w, w, w})
	r := s.rng("!rng", func(k int64) *Term {
		if k == 3*n {
			return nil
		}
		return mkVar("rng_bytes", k, int32(8*k), FOpt)
	}, T(rv), func(st *State, r *Region, off, k V) {
		asked++
		s.ok(r == priv && off.t == nil && off.c == 0 && k.t == nil && int64(k.c) == 3*n, "rng-request", s.x.where(), "the random source is asked for %s bytes at %v+%s, expected %d bytes at the start of the private key", k, r.name, off, 3*n)
		if k.t == nil && int64(k.c) == 3*n && r != nil && off.t == nil {
			s.x.writeCells(st, r, int64(off.c), vCells(whole, 3*w, nil))
		}
	})
	var pub *Region
	pa := Val{}
	if withPub {
		pub = s.buf(st, "public_key", 2*n, FJunk)
		pa = ptrV(pub, 0)
	}
	outs := s.call(st, "@ts_gen_key", ptrV(priv, 0), pa, s.psArg(), r)
	wh := s.fileOf("@ts_gen_key")
	if len(outs) != 1 {
		unknown("ts_gen_key: %d states", len(outs))
	}
	st = outs[0]
	rt := st.simp(st.ret.v)
	s.ok(asked == 1, "rng-once", wh, "the random source was asked %d times", asked)
	s.nonzero(st, rt, "keygen-result", wh, "key generation with a working random source")
	s.same(st, s.bytes(st, priv, 0, n), T(sk), w, "private key seed", wh, "private key bytes 0.. (sk.seed)")
	s.same(st, s.bytes(st, priv, n, n), T(pf), w, "private key prf", wh, "private key bytes n.. (sk.prf)")
	s.same(st, s.bytes(st, priv, 2*n, n), T(pd), w, "private key pk.seed", wh, "private key bytes 2n.. (pk.seed)")
	root := s.sp.keyRoot()
	s.same(st, s.bytes(st, priv, 3*n, n), root, w, "private key root", wh, "private key bytes 3n.. (pk.root)")
	if withPub {
		s.same(st, s.bytes(st, pub, 0, n), T(pd), w, "public key pk.seed", wh, "public key bytes 0..")
		s.same(st, s.bytes(st, pub, n, n), root, w, "public key root", wh, "public key bytes n..")
		for i := int64(0); i < 2*n; i++ {
			if c := st.peek(pub, i); c.t != nil && c.t.fl&(FSecret|FKeyPrf) != 0 {
				s.ok(false, "secret in output", wh, "public key byte %d is computed from secret seed bytes without hashing", i)
				break
			}
		}
	}
}

// nonzero: v is not 0; that it can be 0 must be shown.
func (s *Scn) nonzero(st *State, v V, rule, wh, what string) {
	z := st.simp(st.eqV(v, C(0), 32))
	if z.t == nil {
		s.ok(z.c == 0, rule, wh, "%s: the result is %s", what, v)
		return
	}
	s.same(st, z, C(0), 1, rule, wh, what+": whether the result is 0")
}

func truthy(st *State, v V) bool {
	e := st.simp(st.eqV(v, C(0), 32))
	return e.t == nil && e.c == 0
}

// ---------- signing, one hash length at a time

func (s *Scn) sign(maxBlocks int) {
	st := s.newKeyState()
	st, ctx := s.initSign(st, s.rngOK())
	n := int64(s.ps.n)
	w := s.ps.w()
	wh := s.fileOf("@ts_sign")
	dest := s.buf(st, "dest", n, 0)
	B := s.ps.blocks()
	bad := 0
	covered := 0
	s.msg.noacc, s.msg.why = true, "the message must not be touched after signing was started"
	s.noSecret(st, ctx, "ts_init_sign")
	s.sp.sign(T(s.opt), func(b int, v V, what string) bool {
		if b >= maxBlocks {
			return false
		}
		st = s.call1(st, "@ts_sign", ptrV(dest, 0), cV(uint64(n)), ptrV(ctx, 0))
		if !s.same(st, st.ret.v, C(uint64(n)), 32, "signature length", wh, sprintf("%s block %d: return value", what, b)) {
			bad++
		}
		if !s.same(st, s.bytes(st, dest, 0, n), v, w, "signature content", wh, sprintf("block %d (%s)", b, what)) {
			bad++
		}
		covered = b + 1
		if bad == 0 {
			s.noSecret(st, ctx, sprintf("ts_sign, block %d", b))
			if o := s.bytes(st, dest, 0, n); o.t != nil && !s.ok(o.t.fl&(FSecret|FKeyPrf) == 0, "secret in output", wh, "block %d contains secret seed bytes that were not hashed: %s", b, showV(o, 2)) {
				bad += 3
			}
		}
		return bad < 3
	})
	s.res.Info["blocks"] = sprintf("%d of %d", covered, B)
	if bad == 0 && covered == B {
		st = s.call1(st, "@ts_sign", ptrV(dest, 0), cV(uint64(n)), ptrV(ctx, 0))
		s.same(st, st.ret.v, C(0), 32, "signature end", wh, "request after the last block: return value")
	}
}

// noSecret: no unhashed seed bytes in the context.
func (s *Scn) noSecret(st *State, ctx *Region, when string) {
	s.res.Oblig++
	for i := int64(0); i < s.ctxSz; i++ {
		c := st.peek(ctx, i)
		if c.t != nil && c.t.fl&(FSecret|FKeyPrf) != 0 {
			if secretCell(c) {
				s.res.Oblig--
				s.ok(false, "secret in context", when, "after %s byte %d of the context holds secret seed bytes, or a value computed from them without hashing: %s", when, i, showV(cellsV([]Cell{c}), 3))
				return
			}
		}
	}
	s.res.Done++
}

// secretCell: the byte itself, not just the wide value it was cut from.
func secretCell(c Cell) bool {
	v := cellsV([]Cell{c})
	return v.t != nil && v.t.fl&(FSecret|FKeyPrf) != 0
}

// ---------- verification, one hash length at a time

func (s *Scn) sigVars(st *State) (*Region, []V) {
	n := int64(s.ps.n)
	B := int64(s.ps.blocks())
	r := newRegion("signature", C(uint64(n*(B+4))))
	r.ro, r.why = true, "the signature fed to the verifier"
	st.addRegion(r, nil)
	var vs []V
	for i := int64(0); i < B+4; i++ {
		t := mkVar("sig", i, s.ps.w(), 0)
		pokeAtom(st, r, i*n, t)
		vs = append(vs, T(t))
	}
	return r, vs
}

func (s *Scn) verify() {
	st := s.newKeyState()
	st, ctx := s.initVerify(st)
	n := int64(s.ps.n)
	B := s.ps.blocks()
	sig, vs := s.sigVars(st)
	wh := s.fileOf("@ts_update_verify")
	for b := 0; b < B; b++ {
		st = s.call1(st, "@ts_update_verify", ptrV(sig, int64(b)*n), cV(uint64(n)), ptrV(ctx, 0))
		if os.Getenv("SVC_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "block", b, "terms", termCount, "joins", s.x.splits, time.Since(t0s))
		}
		if b == 0 {
			s.msg.noacc, s.msg.why = true, "the message must not be touched after the first block was consumed"
		}
		if b < B-1 {
			rt := st.simp(st.ret.v)
			s.ok(rt.t == nil && rt.c != 0, "good so far", wh, "block %d: ts_update_verify returns %s before the signature is complete", b, rt)
		}
	}
	root := s.sp.verifyRoot(vs)
	upd := st.ret.v
	st = s.call1(st, "@ts_verify", ptrV(ctx, 0))
	s.verdict(st, upd, root, "last ts_update_verify result")
	s.verdict(st, st.ret.v, root, "ts_verify result")
}

// verdict checks that v is nonzero exactly if the computed root equals the
// public root.
func (s *Scn) verdict(st *State, v V, root V, what string) {
	s.res.Oblig++
	w := s.ps.w()
	want := st.eqV(root, s.sp.pkRoot, w)
	got := vXor(st.eqV(v, C(0), 32), C(1), 1)
	if st.simp(got) == st.simp(want) {
		s.res.Done++
		return
	}
	if os.Getenv("SVC_DIFF") != "" {
		fmt.Fprintln(os.Stderr, "DIFF", what, "\n got ", clip(showV(v, 4)), "\n got ", clip(showV(st.simp(got), 3)), "\n want", clip(showV(st.simp(want), 3)))
		cr, cw := calcOf(got), calcOf(want)
		if cr != nil && cw != nil {
			traceDiff(T(cr), T(cw), "", 12)
		}
	}
	// valuations: the public root equals / differs in chosen bytes
	pk := s.sp.pkRoot.t
	for seed := uint64(1); seed < 180; seed++ {
		e := newEnv(seed, st)
		e.bindMsg = true
		e.extreme = seed >= 140
		r := e.v(root)
		if _, dep := e.val[pk]; dep {
			break
		}
		d := deltaFor(seed, w)
		e.val[pk] = new(big.Int).Xor(r, d)
		g, q := e.v(got), e.v(want)
		if e.bad {
			continue
		}
		if g.Cmp(q) != 0 {
			s.res.Viols = append(s.res.Viols, Viol{Rule: "verdict", Where: s.fileOf("@ts_update_verify"), Msg: sprintf("%s: for a public root that differs from the specified root by %x the result is %v, expected %v", what, d, g, q)})
			return
		}
	}
	s.undecided("%s: normal forms differ but no separating valuation", what)
}

// sizes: the advertised sizes.
func (s *Scn) sizes() {
	n := s.ps.n
	for _, f := range []struct {
		fn   string
		want int
	}{{"@ts_size_private_key", 4 * n}, {"@ts_size_public_key", 2 * n}, {"@ts_size_signature", s.ps.sigLen()}} {
		if s.m.funcs[f.fn] == nil {
			panic("function " + f.fn + " not found")
		}
		st := s.call1(s.x.freshState(), f.fn, s.psArg())
		r := st.simp(st.ret.v)
		s.ok(r.t == nil && int64(r.c) == int64(f.want), "advertised size", s.fileOf(f.fn), "%s(%s) is %s, SPHINCS+ says %d", f.fn[1:], s.ps.name, r, f.want)
	}
}

// msgAtoms collects the hash atoms that are applied to message bytes.
func msgAtoms(v V, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpHash {
			for _, a := range t.args {
				if a != nil && isChunk(a) {
					out[t] = true
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, sg := range t.segs {
			if sg.p != nil {
				for _, m := range sg.p.mons {
					for _, y := range m {
						walk(y.t)
					}
				}
			}
		}
		for _, l := range t.lin {
			walk(l.t)
		}
		for _, e := range t.ents {
			walk(e.v.t)
		}
	}
	walk(v.t)
}

func sameAtoms(a, b map[*Term]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for t := range a {
		if !b[t] {
			return false
		}
	}
	return true
}

// hmsg: R, and every hash of message bytes behind the first FORS value
// (signer) and in the context after R was fed (verifier).
func (s *Scn) hmsg() {
	var und []string
	for _, part := range []func(){s.hmsgSign, s.hmsgVerify} {
		s.x.budget, s.x.soft = s.x.steps+1e6, time.Now().Add(20*time.Second)
		why := s.try(part)
		s.x.budget, s.x.soft = 1e12, time.Time{}
		if why == "" {
			continue
		}
		und = append(und, why)
		// the length is out of the domain's reach: lengths one by one
		n, t0 := 0, time.Now()
		for _, l := range fixedLens() {
			l := l
			s.fixLen = &l
			s.x.budget, s.x.soft = s.x.steps+3e6, time.Now().Add(8*time.Second)
			if l >= 1<<18 {
				s.x.budget = s.x.steps + 5e5
			}
			why := s.try(part)
			if why == "" {
				n++
			}
			if os.Getenv("SVC_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "length", l, why, time.Since(t0s), "terms", termCount)
			}
			if len(s.res.Viols) > 0 || time.Since(t0) > 35*time.Second {
				break
			}
		}
		s.fixLen, s.x.budget, s.x.soft = nil, 1e12, time.Time{}
		s.res.Info["message lengths analysed one by one"] += sprintf("%d ", n)
	}
	zero := uint64(0)
	s.fixLen, s.nullMsg = &zero, true
	for _, part := range []func(){s.hmsgSign, s.hmsgVerify} {
		s.x.budget, s.x.soft = s.x.steps+1e9, time.Now().Add(40*time.Second)
		if why := s.try(part); why != "" {
			s.undecided("empty message without a buffer: %s", why)
		}
	}
	s.fixLen, s.nullMsg, s.x.budget, s.x.soft = nil, false, 1e12, time.Time{}
	for _, w := range und {
		s.undecided("message of unknown length: %s", w)
	}
}

// try runs f; the reason if the analysis gave up.
func (s *Scn) try(f func()) (why string) {
	d := s.x.depth
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unkErr)
			if !ok {
				panic(r)
			}
			s.x.depth = d
			why = string(u)
		}
	}()
	f()
	return ""
}

// fixedLens: every length over a few hash blocks, and the neighbourhood of
// multiples of block sizes, pages and powers of two.
func fixedLens() []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(l uint64) {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	for l := uint64(0); l <= 8; l++ {
		add(l)
	}
	for _, p := range []uint{16, 20, 32, 24, 31, 33, 40, 56} {
		for _, d := range []int64{-1, 0, 1, 77} {
			add(uint64(int64(1)<<p + d))
		}
	}
	for l := uint64(0); l <= 300; l++ {
		add(l)
	}
	for _, b := range []uint64{64, 72, 100, 104, 128, 136, 168, 200, 1000} {
		for k := uint64(1); k <= 10; k++ {
			add(b*k - 1)
			add(b * k)
			add(b*k + 1)
		}
	}
	for p := uint(9); p <= 17; p++ {
		for _, d := range []int64{-64, -16, -1, 0, 1, 16, 64} {
			add(uint64(int64(1)<<p + d))
			add(uint64(int64(3)<<(p-1) + d))
		}
	}
	return out
}

func (s *Scn) hmsgSign() {
	st := s.newKeyState()
	st, ctx := s.initSign(st, s.rngOK())
	n := int64(s.ps.n)
	w := s.ps.w()
	wh := s.fileOf("@ts_init_sign")
	dest := s.buf(st, "dest", n, 0)
	s.sp.sign(T(s.opt), func(b int, v V, what string) bool {
		st = s.call1(st, "@ts_sign", ptrV(dest, 0), cV(uint64(n)), ptrV(ctx, 0))
		got := s.bytes(st, dest, 0, n)
		if b == 0 {
			s.same(st, got, v, w, "randomiser", wh, "R")
			return true
		}
		ga, wa := map[*Term]bool{}, map[*Term]bool{}
		msgAtoms(got, ga)
		msgAtoms(v, wa)
		s.res.Info["message hash atoms (signer)"] = sprintf("%d", len(ga))
		if sameAtoms(ga, wa) {
			s.ok(true, "", "", "")
			return false
		}
		s.same(st, got, v, w, "message digest", wh, "first FORS value, through H_msg")
		return false
	})
}

func (s *Scn) hmsgVerify() {
	n := int64(s.ps.n)
	st, ctx := s.initVerify(s.newKeyState())
	sig, vs := s.sigVars(st)
	st = s.call1(st, "@ts_update_verify", ptrV(sig, 0), cV(uint64(n)), ptrV(ctx, 0))
	var all []V
	for i := int64(0); i+8 <= s.ctxSz; i += 8 {
		all = append(all, s.bytes(st, ctx, i, 8))
	}
	ga := map[*Term]bool{}
	for _, v := range all {
		msgAtoms(v, ga)
	}
	wa := map[*Term]bool{}
	msgAtoms(s.sp.hashMsg(vs[0]).v, wa)
	s.res.Info["message hash atoms (verifier)"] = sprintf("%d", len(ga))
	stray := 0
	for t := range ga {
		if !wa[t] {
			stray++
		}
	}
	if len(ga) > 0 && stray == 0 {
		s.ok(true, "", "", "")
		return
	}
	for b := 1; b < s.ps.blocks(); b++ {
		st = s.call1(st, "@ts_update_verify", ptrV(sig, int64(b)*n), cV(uint64(n)), ptrV(ctx, 0))
	}
	root := s.sp.verifyRoot(vs)
	st = s.call1(st, "@ts_verify", ptrV(ctx, 0))
	s.verdict(st, st.ret.v, root, "verdict, through H_msg")
}

func runJob(spec string, mod string) *Result {
	res := &Result{Job: spec, Info: map[string]string{}}
	t0 := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unkErr); ok {
					res.Unknown = append(res.Unknown, string(u))
					return
				}
				res.Error = fmt.Sprint(r)
				if os.Getenv("SVC_PANIC") != "" {
					panic(r)
				}
			}
		}()
		m, err := LoadModule(mod)
		if err != nil {
			panic(err.Error())
		}
		jobMain(strings.Split(spec, ":"), m, res)
	}()
	res.WallS = time.Since(t0).Seconds()
	return res
}

func jobMain(f []string, m *Module, res *Result) {
	if f[0] == "prim" {
		runPrim(m, res, f[1], len(f) > 2)
		return
	}
	ps := psByName(f[1])
	s := newScn(m, ps, res)
	defer s.collect()
	switch f[0] {
	case "keygen", "sign", "verify", "round":
		sweepOn, sweepAt = true, 1000000
	}
	switch f[0] {
	case "keygen":
		s.keygen(len(f) < 3 || f[2] != "nopub")
	case "sign":
		mb := 1 << 30
		if len(f) > 2 {
			fmt.Sscan(f[2], &mb)
		}
		s.sign(mb)
	case "verify":
		s.verify()
	case "round":
		mb := 1 << 30
		if len(f) > 2 {
			s.nullMsg = f[2] == "null"
			fmt.Sscan(f[2], &mb)
		}
		s.round(mb)
	case "cost":
		mb := 1 << 30
		if len(f) > 3 {
			fmt.Sscan(f[3], &mb)
		}
		s.cost(f[2], mb)
	case "slices":
		mb := int64(1 << 30)
		if len(f) > 2 {
			fmt.Sscan(f[2], &mb)
		}
		s.slices(mb, len(f) > 3)
	case "phase":
		mb := 1 << 30
		if len(f) > 2 {
			fmt.Sscan(f[2], &mb)
		}
		s.phases(int64(mb))
	case "rng":
		s.rngProtocol()
	case "chunks":
		s.chunks(len(f) > 2)
	case "accept":
		s.accept()
	case "sizes":
		s.sizes()
	case "hmsg":
		s.hmsg()
	default:
		panic("unknown job " + f[0])
	}
}

func (r *Result) json() []byte {
	b, _ := json.Marshal(r)
	return b
}

// deltaFor: zero, one-byte, one-bit and random differences.
func deltaFor(seed uint64, w int32) *big.Int {
	rg := rand.New(rand.NewSource(int64(seed)))
	d := new(big.Int)
	switch {
	case seed%4 == 0:
		return d
	case seed%4 == 3:
		return d.Rand(rg, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	case seed%4 == 2 || int32(seed/4)*8 >= w:
		return d.Lsh(big.NewInt(1), uint(rg.Intn(int(w))))
	}
	// every byte position in turn
	return d.Lsh(big.NewInt(int64(1+rg.Intn(255))), uint(8*(seed/4)))
}

// traceDiff walks two terms in parallel and prints where they diverge.
func traceDiff(a, b V, ind string, d int) {
	if a == b || d == 0 {
		return
	}
	if a.t == nil || b.t == nil {
		fmt.Fprintf(os.Stderr, "%s%s  VS  %s\n", ind, showV(a, 2), showV(b, 2))
		return
	}
	x, y := a.t, b.t
	fmt.Fprintf(os.Stderr, "%s%v/%d w%d s%s n%d,%d,%d | %v/%d w%d s%s n%d,%d,%d\n", ind, x.op, x.id, x.w, x.s, len(x.args), len(x.segs), len(x.ents), y.op, y.id, y.w, y.s, len(y.args), len(y.segs), len(y.ents))
	if x.op == y.op && len(x.args) == len(y.args) && len(x.segs) == len(y.segs) && len(x.ents) == len(y.ents) {
		n := 0
		for i := range x.args {
			if x.args[i] != y.args[i] {
				traceDiff(T(x.args[i]), T(y.args[i]), ind+" ", d-1)
				n++
			}
		}
		for i := range x.segs {
			if x.segs[i] != y.segs[i] {
				n++
				p, q := x.segs[i], y.segs[i]
				if p.p != nil && q.p != nil && p.p.one && q.p.one {
					fmt.Fprintf(os.Stderr, "%s seg %d n %d,%d lo %d,%d\n", ind, i, p.n, q.n, p.p.mons[0][0].lo, q.p.mons[0][0].lo)
					traceDiff(T(p.p.mons[0][0].t), T(q.p.mons[0][0].t), ind+" ", d-1)
				} else {
					fmt.Fprintf(os.Stderr, "%s seg %d %s VS %s\n", ind, i, showV(fromSeg1(p), 2), showV(fromSeg1(q), 2))
				}
			}
		}
		for i := range x.ents {
			if x.ents[i] != y.ents[i] {
				n++
				fmt.Fprintf(os.Stderr, "%s ent %d [%d,%d] [%d,%d]\n", ind, i, x.ents[i].lo, x.ents[i].hi, y.ents[i].lo, y.ents[i].hi)
				traceDiff(x.ents[i].v, y.ents[i].v, ind+" ", d-1)
				if n > 2 {
					return
				}
			}
		}
		return
	}
	fmt.Fprintf(os.Stderr, "%s%s  VS  %s\n", ind, showV(a, 2), showV(b, 2))
}

// calcOf: the first non-key atom inside an In-product (debugging aid).
func calcOf(v V) *Term {
	if v.t == nil {
		return nil
	}
	for _, sg := range v.t.segs {
		if sg.p == nil {
			continue
		}
		for _, m := range sg.p.mons {
			for _, x := range m {
				if x.t.op == OpIn {
					for _, s2 := range x.t.args[0].segs {
						if s2.p != nil {
							for _, m2 := range s2.p.mons {
								for _, y := range m2 {
									if y.t.op != OpVar {
										return y.t
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return nil
}
