package main

// Round trip: a generated key, a signature it produces, the verdict on it.

import (
	"fmt"
	"os"
	"time"
)

func (s *Scn) round(mb int) {
	st := s.x.freshState()
	n := int64(s.ps.n)
	w := s.ps.w()
	sk := mkVar("sk.seed", 0, w, FSecret)
	pf := mkVar("sk.prf", 0, w, FKeyPrf)
	pd := mkVar("pk.seed", 0, w, FKey)
	whole := cat([]V{T(sk), T(pf), T(pd)}, []int32{w, w, w})
	s.priv = s.buf(st, "private_key", 4*n, FJunk)
	s.pub = s.buf(st, "public_key", 2*n, FJunk)
	rv := mkVar("rng_result", 0, 32, 0)
	varRange[rv] = IV{1, int64(mask(32))}
	asked := int64(0)
	src := s.rng("!seeds", func(k int64) *Term { return nil }, T(rv), func(st *State, r *Region, off, k V) {
		if k.t != nil || off.t != nil || r == nil || asked+int64(k.c) > 3*n {
			unknown("key generation asks for %s random bytes", k)
		}
		s.x.writeCells(st, r, int64(off.c), vCells(slice(whole, 3*w, int32(8*asked), int32(8*k.c)), int32(8*k.c), nil))
		asked += int64(k.c)
	})
	st = s.call1(st, "@ts_gen_key", ptrV(s.priv, 0), ptrV(s.pub, 0), s.psArg(), src)
	if rt := st.simp(st.ret.v); !truthy(st, rt) {
		unknown("key generation returns %s", rt)
	}
	s.priv.ro, s.priv.why = true, "the private key given for signing"
	s.pub.ro, s.pub.why = true, "the public key"
	lt := mkVar("len_message", 0, 64, FMsg)
	varRange[lt] = IV{0, 1 << 60}
	ln := T(lt)
	if s.nullMsg {
		ln = C(0)
	}
	s.msg = newRegion("message", T(lt))
	s.msg.ro, s.msg.why = true, "the message"
	st.addRegion(s.msg, nil)
	s.opt = mkVar("opt_rand", 0, w, FOpt)
	s.sp = &Sp{ps: s.ps, skSeed: T(sk), skPrf: T(pf), pkSeed: T(pd), pkRoot: s.bytes(st, s.pub, n, n), msg: s.msg, msgLen: ln}
	st, ctx := s.initSign(st, s.rngOK())
	B := s.ps.blocks()
	sig := s.buf(st, "signature", n*int64(B), 0)
	tr := os.Getenv("SVC_TRACE") != ""
	for b := 0; b < B; b++ {
		if b >= mb {
			unknown("stopped after %d blocks", b)
		}
		st = s.call1(st, "@ts_sign", ptrV(sig, int64(b)*n), cV(uint64(n)), ptrV(ctx, 0))
		if rt := st.simp(st.ret.v); !isC(rt, n) {
			unknown("signing: block %d: ts_sign returns %s", b, rt)
		}
		if tr && b%20 == 0 {
			fmt.Fprintln(os.Stderr, "sign block", b, "terms", termCount, time.Since(t0s))
		}
	}
	sig.ro, sig.why = true, "the signature fed to the verifier"
	st = s.call1(st, "@ts_init_verify", ptrV(ctx, 0), s.msgArg(), Val{v: s.sp.msgLen}, s.psArg(), ptrV(s.pub, 0))
	for b := 0; b < B; b++ {
		st = s.call1(st, "@ts_update_verify", ptrV(sig, int64(b)*n), cV(uint64(n)), ptrV(ctx, 0))
		if b < B-1 {
			rt := st.simp(st.ret.v)
			s.nonzero(st, rt, "good so far", s.fileOf("@ts_update_verify"), sprintf("honest signature, block %d: ts_update_verify", b))
		}
		if tr && b%20 == 0 {
			fmt.Fprintln(os.Stderr, "verify block", b, "terms", termCount, time.Since(t0s))
		}
	}
	upd := st.simp(st.ret.v)
	st = s.call1(st, "@ts_verify", ptrV(ctx, 0))
	s.accepted(st, upd, s.bytes(st, sig, 0, n), "last ts_update_verify result")
	s.accepted(st, st.simp(st.ret.v), s.bytes(st, sig, 0, n), "ts_verify result")
}

// accepted: v is nonzero for every position of the leaf in the top tree.
func (s *Scn) accepted(st *State, v, R V, what string) {
	s.res.Oblig++
	wh := s.fileOf("@ts_update_verify")
	got := vXor(st.eqV(v, C(0), 32), C(1), 1)
	pos := s.sp.position(s.sp.hashMsg(R))
	_, leaf := s.sp.layerPos(&pos, s.ps.d-1)
	if got.t == nil && got.c == 0 {
		s.res.Viols = append(s.res.Viols, Viol{Rule: "honest signature rejected", Where: wh, Msg: sprintf("%s: an honestly produced signature is never accepted", what)})
		return
	}
	ok := true
	if got.t != nil {
		lf := slice(leaf, 32, 0, int32(s.ps.mh))
		if lf.t == nil {
			ok = false
		}
		substDisc = true
		for l := uint64(0); ok && l < 1<<uint(s.ps.mh); l++ {
			g := substBits(got, lf, int32(s.ps.mh), l)
			if g.t == nil && g.c == 1 {
				continue
			}
			ok = false
			if os.Getenv("SVC_DIFF") != "" {
				fmt.Fprintln(os.Stderr, what, "leaf", lf, "=", l, "\n", clip(showV(g, 6)), "\n", clip(showV(got, 3)))
			}
		}
		substDisc = false
	}
	if ok {
		s.res.Done++
		return
	}
	t0 := time.Now()
	for seed := uint64(1); seed < 180 && time.Since(t0) < 100*time.Second; seed++ {
		e := newEnv(seed, st)
		e.bindMsg = true
		e.extreme = seed >= 140
		g := e.v(got)
		if e.bad {
			continue
		}
		if g.Sign() == 0 {
			s.res.Viols = append(s.res.Viols, Viol{Rule: "honest signature rejected", Where: wh, Msg: sprintf("%s: 0 for a signature the signer produced under the same key (valuation %d of the hash functions)", what, seed)})
			return
		}
	}
	s.undecided("%s: %s", what, clip(showV(got, 3)))
}

// substBits: v with the w bits of d, slices of atoms, set to those of c.
func substBits(v, d V, w int32, c uint64) V {
	lo := int32(0)
	for _, sg := range segsOf(d, w) {
		if sg.p != nil {
			p := fromSegs([]Seg{sg})
			if p.t == nil {
				return v
			}
			v = subst(v, p.t, (c>>uint(lo))&mask(sg.n), substMemo{})
		}
		lo += sg.n
	}
	return v
}
