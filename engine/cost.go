package main

// Number of hash computations of each operation, as a normal form over the
// digits, compared with the work the scheme itself takes.

import (
	"math/big"
)

// cost of the parts of the scheme in hash computations
func (p *PS) leafCost() int64 { return int64(16*p.wlen() + 1) }
func (p *PS) treeCost() int64 { return int64(1)<<uint(p.mh)*(p.leafCost()+1) - 1 }
func (p *PS) forsCost() int64 { return 1 + 3*int64(1)<<uint(p.t) - 1 }

const msgCost = 6 // HMAC, message hash, mask generation

func (p *PS) keygenCost() int64 { return p.treeCost() }
func (p *PS) signCost() int64 {
	return msgCost + int64(p.k)*p.forsCost() + 1 + int64(p.d)*(int64(16*p.wlen())+p.treeCost())
}
func (p *PS) verifyCost() int64 {
	return msgCost + int64(p.k*(1+p.t)) + 1 + int64(p.d)*(int64(15*p.wlen()+1+p.mh))
}

// counted: what a call added to the counter.
func (s *Scn) counted(st *State) V {
	v := st.simp(st.cnt)
	st.cnt = C(0)
	return v
}

// cost of one operation in phases (keygen, sign, verify).
func (s *Scn) cost(phase string, maxBlocks int) {
	s.x.counting = true
	n := int64(s.ps.n)
	switch phase {
	case "keygen":
		rv := mkVar("rng_result", 0, 32, 0)
		varRange[rv] = IV{1, int64(mask(32))}
		src := s.rng("!rng", func(k int64) *Term { return mkVar("rng_bytes", k, int32(8*k), FOpt) }, T(rv), nil)
		whats := []string{"key generation with public key", "key generation"}
		if s.ps.mh > 5 {
			whats = whats[:1] // the long runs: one of the two
		}
		for _, what := range whats {
			st := s.x.freshState()
			priv := s.buf(st, "private_key", 4*n, FJunk)
			pub := Val{}
			if what != "key generation" {
				pub = ptrV(s.buf(st, "public_key", 2*n, FJunk), 0)
			}
			st = s.call1(st, "@ts_gen_key", ptrV(priv, 0), pub, s.psArg(), src)
			s.costs(st, []V{s.counted(st)}, s.ps.keygenCost(), 0, "@ts_gen_key", what)
		}
	case "sign":
		st, ctx := s.initSign(s.newKeyState(), s.rngOK())
		cs := []V{s.counted(st)}
		dest := s.buf(st, "dest", n, 0)
		B := s.ps.blocks()
		// whole trees only: where the work of a tree is done is not fixed
		ref, spread, end := s.ps.signCost(), int64(15*s.ps.d*s.ps.wlen()), B
		if maxBlocks < B {
			trees := int64(maxBlocks-1) / int64(s.ps.t+1)
			end = 1 + int(trees)*(s.ps.t+1)
			ref, spread = msgCost+(trees+1)*s.ps.forsCost(), 0
		}
		for b := 0; b < end; b++ {
			st = s.call1(st, "@ts_sign", ptrV(dest, 0), cV(uint64(n)), ptrV(ctx, 0))
			cs = append(cs, s.counted(st))
		}
		s.res.Info["blocks"] = sprintf("%d of %d", end, B)
		s.costs(st, cs, ref, spread, "@ts_sign", sprintf("signing, %d of %d blocks", end, B))
	case "verify":
		st, ctx := s.initVerify(s.newKeyState())
		sig, _ := s.sigVars(st)
		cs := []V{s.counted(st)}
		for b := 0; b < s.ps.blocks(); b++ {
			st = s.call1(st, "@ts_update_verify", ptrV(sig, int64(b)*n), cV(uint64(n)), ptrV(ctx, 0))
			cs = append(cs, s.counted(st))
		}
		st = s.call1(st, "@ts_verify", ptrV(ctx, 0))
		cs = append(cs, s.counted(st))
		s.costs(st, cs, s.ps.verifyCost(), int64(15*s.ps.d*s.ps.wlen()), "@ts_update_verify", "verification")
	}
}

// costs: the sum of cs stays below ref and a quarter, and varies by no more
// than the chains of the digits do.
func (s *Scn) costs(st *State, cs []V, ref, spread int64, fn, what string) {
	bound := ref + ref/4
	lo, hi := int64(0), int64(0)
	for _, c := range cs {
		a, b := vRange(c, 32, st)
		lo += a
		hi += b
	}
	s.res.Info["hash computations, "+what] = sprintf("%d..%d, the scheme takes %d", lo, hi, ref)
	wh := s.fileOf(fn)
	s.res.Oblig += 2
	ok1, ok2 := hi <= bound, hi-lo <= spread
	if lo > bound {
		s.res.Viols = append(s.res.Viols, Viol{Rule: "hash computations", Where: wh, Msg: sprintf("%s takes at least %d hash computations; the scheme takes %d", what, lo, ref)})
		return
	}
	if !ok1 || !ok2 {
		mn, mx := int64(-1), int64(-1)
		for seed := uint64(1); seed < 160; seed++ {
			e := newEnv(seed, st)
			e.bindMsg = true
			e.extreme = seed >= 100
			sum := big.NewInt(0)
			for _, c := range cs {
				sum.Add(sum, e.v(c))
			}
			if e.bad {
				continue
			}
			k := sum.Int64()
			if mn < 0 || k < mn {
				mn = k
			}
			if k > mx {
				mx = k
			}
		}
		if !ok1 && mx > bound {
			s.res.Viols = append(s.res.Viols, Viol{Rule: "hash computations", Where: wh, Msg: sprintf("%s takes %d hash computations in a valuation of the hash functions; the scheme takes %d", what, mx, ref)})
			return
		}
		if !ok2 && mn >= 0 && mx-mn > spread {
			s.res.Viols = append(s.res.Viols, Viol{Rule: "hash computations vary", Where: wh, Msg: sprintf("%s takes between %d and %d hash computations in valuations of the hash functions; the digits account for a difference of %d", what, mn, mx, spread)})
			return
		}
		s.undecided("%s: between %d and %d hash computations (scheme: %d, spread %d)", what, lo, hi, ref, spread)
	}
	if ok1 {
		s.res.Done++
	}
	if ok2 {
		s.res.Done++
	}
}
