package main

// Valuations of terms.  Used for one purpose only: before two syntactically
// different normal forms are reported as a difference, a valuation of the
// inputs separating them must be exhibited (otherwise the comparison counts as
// undecided).  Hashes are valued as independent random functions.

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"math/rand"
)

type forced struct {
	lo, n int32
	v     uint64
}

type Env struct {
	seed    uint64
	rng     *rand.Rand
	val     map[*Term]*big.Int
	force   map[*Term][]forced
	fixed   map[*Term]int64
	bad     bool
	bindMsg bool // hashes over the message are independent values
	extreme bool // half of the hash values are extreme: few or nearly all bits set
}

func newEnv(seed uint64, st *State) *Env {
	e := &Env{seed: seed, rng: rand.New(rand.NewSource(int64(seed))), val: map[*Term]*big.Int{}, force: map[*Term][]forced{}, fixed: map[*Term]int64{}}
	if st != nil {
		for _, f := range st.facts {
			v := e.pick(f.ivs)
			t := f.t
			switch {
			case t.op == OpVar || t.op == OpHash || t.op == OpSum:
				e.fixed[t] = v
			case t.op == OpCat && len(t.segs) == 1 && t.segs[0].p != nil && t.segs[0].p.one:
				s := t.segs[0]
				x := s.p.mons[0][0]
				e.force[x.t] = append(e.force[x.t], forced{x.lo, s.n, (uint64(v) ^ s.c) & mask(s.n)})
			}
		}
	}
	return e
}

func (e *Env) pick(ivs []IV) int64 {
	iv := ivs[e.rng.Intn(len(ivs))]
	n := iv.hi - iv.lo
	if n <= 0 {
		return iv.lo
	}
	switch e.rng.Intn(4) {
	case 0:
		return iv.lo + e.rng.Int63n(min64(n, 4)+1)
	case 1:
		return iv.hi - e.rng.Int63n(min64(n, 4)+1)
	}
	if n > 1000 && e.rng.Intn(2) == 0 {
		n = 1000
	}
	if n+1 <= 0 {
		return iv.lo + e.rng.Int63n(n)
	}
	return iv.lo + e.rng.Int63n(n+1)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (e *Env) prf(tag string, data []byte, w int32) *big.Int {
	h := sha256.New()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], e.seed)
	h.Write(b[:])
	h.Write([]byte(tag))
	h.Write([]byte{0})
	h.Write(data)
	k := h.Sum(nil)
	n := int(w+7) / 8
	out := make([]byte, 0, n+32)
	for i := uint64(0); len(out) < n; i++ {
		binary.LittleEndian.PutUint64(b[:], i)
		g := sha256.Sum256(append(append([]byte{}, k...), b[:]...))
		out = append(out, g[:]...)
	}
	r := new(big.Int).SetBytes(out[:n])
	return trunc(r, w)
}

// hval: the value of a hash. Values with extreme digit sums are as possible as
// any other but would practically never be drawn.
func (e *Env) hval(tag string, data []byte, w int32) *big.Int {
	r := e.prf(tag, data, w)
	if !e.extreme {
		return r
	}
	a, b := e.prf(tag+"/a", data, w), e.prf(tag+"/b", data, w)
	switch e.prf(tag+"/mode", data, 8).Uint64() % 10 {
	case 0, 1:
		return new(big.Int)
	case 2:
		return trunc(big.NewInt(-1), w)
	case 3:
		return r.And(r, a.And(a, b))
	case 4:
		return r.Or(r, a.Or(a, b))
	}
	return r
}

func trunc(r *big.Int, w int32) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	m.Sub(m, big.NewInt(1))
	return r.And(r, m)
}

func (e *Env) v(v V) *big.Int {
	if v.t == nil {
		return new(big.Int).SetUint64(v.c)
	}
	return e.eval(v.t)
}

func bigShr(x *big.Int, lo, n int32) *big.Int {
	r := new(big.Int).Rsh(x, uint(lo))
	return trunc(r, n)
}

func (e *Env) eval(t *Term) *big.Int {
	if r, ok := e.val[t]; ok {
		return r
	}
	r := e.eval1(t)
	for _, f := range e.force[t] {
		for i := int32(0); i < f.n; i++ {
			r = new(big.Int).SetBit(r, int(f.lo+i), uint(f.v>>uint(i)&1))
		}
	}
	if v, ok := e.fixed[t]; ok {
		if t.op == OpVar || t.op == OpHash {
			r = big.NewInt(v)
		}
	}
	e.val[t] = r
	return r
}

func (e *Env) seqBytes(parts []*Term) []byte {
	var out []byte
	for _, p := range parts {
		if isChunk(p) {
			off := e.v(termV(p.args[0]))
			n := e.v(termV(p.args[1]))
			if n.IsUint64() && n.Uint64() <= 5000 {
				o := off.Uint64()
				for i := uint64(0); i < n.Uint64(); i++ {
					out = append(out, e.byteAt(p.reg, o+i))
				}
			} else {
				var b [24]byte
				binary.LittleEndian.PutUint64(b[:], off.Uint64())
				binary.LittleEndian.PutUint64(b[8:], trunc(new(big.Int).Set(n), 64).Uint64())
				b[16] = byte(p.reg.id)
				out = append(out, b[:]...)
			}
			continue
		}
		x := e.eval(p)
		n := int(p.w / 8)
		b := make([]byte, n)
		x.FillBytes(b)
		for i := n - 1; i >= 0; i-- {
			out = append(out, b[i])
		}
	}
	return out
}

func (e *Env) byteAt(r *Region, off uint64) byte {
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], off)
	b[8] = byte(r.id)
	return byte(e.prf("byte", b[:], 8).Uint64())
}

func (e *Env) eval1(t *Term) *big.Int {
	switch t.op {
	case OpVar, OpJunk, OpUnk:
		if r, ok := varRange[t]; ok {
			return big.NewInt(e.pick([]IV{r}))
		}
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(t.k))
		return e.prf(t.s, b[:], t.w)
	case OpByteAt:
		return big.NewInt(int64(e.byteAt(t.reg, e.v(byteOff(t)).Uint64())))
	case OpCat:
		r := new(big.Int)
		pos := uint(0)
		for _, s := range t.segs {
			x := new(big.Int).SetUint64(s.c)
			if s.p != nil {
				for _, m := range s.p.mons {
					pr := trunc(big.NewInt(-1), s.n)
					for _, y := range m {
						pr.And(pr, bigShr(e.eval(y.t), y.lo, s.n))
					}
					x.Xor(x, pr)
				}
			}
			r.Or(r, x.Lsh(x, pos))
			pos += uint(s.n)
		}
		return r
	case OpSum, OpLin:
		r := big.NewInt(t.k)
		if t.op == OpLin {
			r = new(big.Int)
		}
		for _, l := range t.lin {
			c := big.NewInt(signed(l.c, t.w))
			r.Add(r, c.Mul(c, e.eval(l.t)))
		}
		if t.op == OpLin {
			return r
		}
		return trunc(r, t.w)
	case OpPtr:
		r := big.NewInt(int64(t.reg.id)<<40 + t.k)
		if len(t.args) > 0 {
			r.Add(r, e.eval(t.args[0]))
		}
		return trunc(r, 64)
	case OpFn:
		return e.prf("fn"+t.s, nil, 64)
	case OpCase:
		d := e.eval(t.args[0])
		for _, x := range t.ents {
			if d.Cmp(big.NewInt(x.lo)) >= 0 && d.Cmp(big.NewInt(x.hi)) <= 0 {
				return new(big.Int).Set(e.v(x.v))
			}
		}
		e.bad = true
		return new(big.Int)
	case OpIn:
		d := e.eval(t.args[0])
		for _, x := range t.ivs {
			if d.Cmp(big.NewInt(x.lo)) >= 0 && (d.Cmp(big.NewInt(x.hi)) <= 0 || x.hi >= maxI) {
				return big.NewInt(1)
			}
		}
		return new(big.Int)
	case OpCmp:
		if e.v(termV(t.args[0])).Cmp(e.v(termV(t.args[1]))) < 0 {
			return big.NewInt(1)
		}
		return new(big.Int)
	case OpHash, OpHst:
		if e.bindMsg && t.op == OpHash {
			for _, p := range t.args {
				if isChunk(p) {
					var b [4]byte
					binary.LittleEndian.PutUint32(b[:], t.id)
					return e.hval("bound", b[:], t.w)
				}
			}
		}
		return e.hval(t.s+string(rune(t.k)), e.seqBytes(t.args), t.w)
	case OpAndN, OpOrN, OpXorN:
		r := new(big.Int).Set(e.eval(t.args[0]))
		for _, a := range t.args[1:] {
			switch t.op {
			case OpAndN:
				r.And(r, e.eval(a))
			case OpOrN:
				r.Or(r, e.eval(a))
			default:
				r.Xor(r, e.eval(a))
			}
		}
		return r
	case OpMul, OpUDiv, OpURem, OpShl, OpLShr, OpAShr, OpSDiv, OpSRem:
		a, b := e.v(termV(t.args[0])), e.v(termV(t.args[1]))
		r := new(big.Int)
		switch t.op {
		case OpMul:
			r.Mul(a, b)
		case OpUDiv, OpURem:
			if b.Sign() == 0 {
				e.bad = true
				return r
			}
			if t.op == OpUDiv {
				r.Div(a, b)
			} else {
				r.Mod(a, b)
			}
		case OpShl:
			r.Lsh(a, uint(b.Uint64()&127))
		case OpLShr:
			r.Rsh(a, uint(b.Uint64()&127))
		default:
			e.bad = true
		}
		return trunc(r, t.w)
	case OpSext:
		a := e.eval(t.args[0])
		w := t.args[0].w
		r := new(big.Int).Set(a)
		if a.Bit(int(w-1)) == 1 {
			r.Sub(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			r.Add(r, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
		return r
	}
	e.bad = true
	return new(big.Int)
}

func (e *Env) factsHold(st *State) bool {
	for _, f := range st.facts {
		d := e.eval(f.t)
		ok := false
		for _, x := range f.ivs {
			if d.Cmp(big.NewInt(x.lo)) >= 0 && (d.Cmp(big.NewInt(x.hi)) <= 0 || x.hi >= maxI) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

type verdict int

const (
	vSame verdict = iota
	vDiff
	vUndecided
)

// compareV compares two values in a state.
func compareV(st *State, a, b V, w int32) verdict {
	if a == b {
		return vSame
	}
	a, b = st.simp(a), st.simp(b)
	if a == b {
		return vSame
	}
	m := substMemoFacts(st)
	a, b = m(a), m(b)
	if a == b {
		return vSame
	}
	tested := 0
	for seed := uint64(1); seed < 400 && tested < 40; seed++ {
		e := newEnv(seed, st)
		if !e.factsHold(st) {
			continue
		}
		x, y := e.v(a), e.v(b)
		if e.bad {
			continue
		}
		tested++
		if x.Cmp(y) != 0 {
			if a.t != nil && a.t.fl&FUnk != 0 || b.t != nil && b.t.fl&FUnk != 0 {
				return vUndecided
			}
			return vDiff
		}
	}
	for seed := uint64(1000); seed < 1040 && tested > 0; seed++ {
		e := newEnv(seed, st)
		e.extreme = true
		if !e.factsHold(st) {
			continue
		}
		x, y := e.v(a), e.v(b)
		if e.bad {
			continue
		}
		if x.Cmp(y) != 0 {
			if a.t != nil && a.t.fl&FUnk != 0 || b.t != nil && b.t.fl&FUnk != 0 {
				return vUndecided
			}
			return vDiff
		}
	}
	if tested > 0 {
		cs := conditions(a, b)
		for seed := uint64(2000); seed < 2060 && len(cs) > 0; seed++ {
			e := newEnv(seed, st)
			e.meet(cs, seed)
			if !e.factsHold(st) {
				continue
			}
			x, y := e.v(a), e.v(b)
			if e.bad {
				continue
			}
			if x.Cmp(y) != 0 {
				if a.t != nil && a.t.fl&FUnk != 0 || b.t != nil && b.t.fl&FUnk != 0 {
					return vUndecided
				}
				return vDiff
			}
		}
	}
	if h := rootHint; h != nil {
		for seed := uint64(1); seed < 60; seed++ {
			e := newEnv(seed, st)
			if !h.apply(e, seed) || !e.factsHold(st) {
				continue
			}
			x, y := e.v(a), e.v(b)
			if e.bad {
				continue
			}
			if x.Cmp(y) != 0 {
				if a.t != nil && a.t.fl&FUnk != 0 || b.t != nil && b.t.fl&FUnk != 0 {
					return vUndecided
				}
				return vDiff
			}
		}
	}
	return vUndecided
}

// rootHint: valuations in which the public root equals the specified root of
// the signature, or differs from it in few bits.
var rootHint *pkHint

type pkHint struct {
	pk   *Term
	root V
	w    int32
}

func (h *pkHint) apply(e *Env, seed uint64) bool {
	e.bindMsg = true
	r := e.v(h.root)
	if _, dep := e.val[h.pk]; dep {
		return false
	}
	d := new(big.Int)
	if seed%3 == 0 {
		d = deltaFor(seed, h.w)
	}
	e.val[h.pk] = new(big.Int).Xor(r, d)
	return true
}

func substMemoFacts(st *State) func(V) V {
	return func(v V) V {
		for _, f := range st.facts {
			if len(f.ivs) == 1 && f.ivs[0].lo == f.ivs[0].hi && f.t.op != OpLin {
				v = subst(v, f.t, uint64(f.ivs[0].lo), substMemo{})
			}
		}
		return v
	}
}
