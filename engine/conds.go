package main

// Valuations directed at the conditions that occur in two terms: values that
// are equal except under a rare condition (a random value of all zero bytes,
// two equal seeds) are separated only if the condition is made to hold.

import "math/big"

type cond struct {
	t   *Term
	ivs []IV
}

// conditions collects the tests in a and b, each with its rarest outcome.
func conditions(a, b V) []cond {
	var out []cond
	seen := map[*Term]bool{}
	have := map[*Term]bool{}
	add := func(t *Term, ivs []IV) {
		if !have[t] && len(out) < 400 {
			have[t] = true
			out = append(out, cond{t, ivs})
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(seen) > 40000 {
			return
		}
		seen[t] = true
		switch t.op {
		case OpCase:
			d := t.args[0]
			if d.op != OpVar || d.w <= 8 {
				best := t.ents[0]
				for _, x := range t.ents {
					if x.hi-x.lo < best.hi-best.lo {
						best = x
					}
				}
				add(d, []IV{{best.lo, best.hi}})
			}
		case OpIn:
			n := int64(0)
			for _, x := range t.ivs {
				if x.hi >= maxI || n > maxI/4 {
					n = maxI
				} else {
					n += x.hi - x.lo + 1
				}
			}
			if w := t.args[0].w; w < 62 && n > int64(1)<<uint(w)/2 {
				var comp []IV
				at := int64(0)
				for _, x := range t.ivs {
					if x.lo > at {
						comp = append(comp, IV{at, x.lo - 1})
					}
					at = x.hi + 1
				}
				if at < int64(1)<<uint(w) {
					comp = append(comp, IV{at, int64(1)<<uint(w) - 1})
				}
				if len(comp) > 0 {
					add(t.args[0], comp)
				}
			} else {
				add(t.args[0], t.ivs)
			}
		}
		for _, x := range t.args {
			walk(x)
		}
		for _, l := range t.lin {
			walk(l.t)
		}
		for _, s := range t.segs {
			if s.p != nil {
				for _, m := range s.p.mons {
					for _, y := range m {
						walk(y.t)
					}
				}
			}
		}
		for _, x := range t.ents {
			if x.v.t != nil {
				walk(x.v.t)
			}
		}
	}
	for _, v := range []V{a, b} {
		if v.t != nil {
			walk(v.t)
		}
	}
	return out
}

// meet makes all of the conditions hold (even seeds up to 2020), or some.
func (e *Env) meet(cs []cond, seed uint64) {
	for i, c := range cs {
		switch {
		case seed < 2010:
		case seed < 2030 && len(cs) < 20:
			if uint64(i) != seed-2010 {
				continue
			}
		case e.rng.Intn(2) == 0:
			continue
		}
		e.require(c.t, big.NewInt(e.pick(c.ivs)), 0)
	}
}

func (e *Env) forceBits(t *Term, lo, n int32, v *big.Int) {
	for i := int32(0); i < n; i += 32 {
		k := min(32, n-i)
		e.force[t] = append(e.force[t], forced{lo + i, k, bigShr(v, i, k).Uint64()})
	}
}

// Only inputs are chosen: a value chosen for a hash or for a message byte
// read through a pointer could contradict another term for the same thing.

// require looks for an assignment under which t has the value v.  It may
// fail; the caller evaluates what came of it.
func (e *Env) require(t *Term, v *big.Int, depth int) {
	if depth > 40 {
		return
	}
	v = trunc(new(big.Int).Set(v), max(t.w, 1))
	switch t.op {
	case OpVar, OpJunk, OpUnk:
		e.forceBits(t, 0, t.w, v)
	case OpCat:
		pos := int32(0)
		for _, s := range t.segs {
			x := bigShr(v, pos, s.n)
			pos += s.n
			if s.p == nil {
				continue
			}
			x.Xor(x, new(big.Int).SetUint64(s.c&mask(s.n)))
			ones := trunc(big.NewInt(-1), s.n)
			zero := new(big.Int)
			for i, m := range s.p.mons {
				if i > 64 {
					break
				}
				for _, y := range m {
					w := zero
					if len(m) > 1 && x.Cmp(ones) == 0 && len(s.p.mons) == 1 {
						w = ones
					} else if i == 0 && len(m) == 1 {
						w = x
					} else if i == 0 && x.Sign() != 0 {
						w = x
					}
					e.bitsOf(y, s.n, w, depth+1)
				}
			}
		}
	case OpIn:
		in := func(d int64) bool {
			for _, x := range t.ivs {
				if d >= x.lo && d <= x.hi {
					return true
				}
			}
			return false
		}
		want := v.Sign() != 0
		for k := 0; k < 40; k++ {
			d := e.pick(t.ivs)
			if !want {
				d = e.rng.Int63n(int64(1) << uint(min(max(t.args[0].w, 1), 62)))
				if k < 8 {
					d = int64(k)
				}
			}
			if in(d) == want {
				e.require(t.args[0], big.NewInt(d), depth+1)
				return
			}
		}
	case OpCase:
		for _, x := range t.ents {
			if x.v.t == nil && new(big.Int).SetUint64(x.v.c).Cmp(v) == 0 {
				e.require(t.args[0], big.NewInt(e.pick([]IV{{x.lo, x.hi}})), depth+1)
				return
			}
		}
		for _, x := range t.ents {
			if x.v.t != nil {
				e.require(t.args[0], big.NewInt(e.pick([]IV{{x.lo, x.hi}})), depth+1)
				e.require(x.v.t, v, depth+1)
				return
			}
		}
	case OpSum, OpLin:
		x := new(big.Int).Set(v)
		if t.op == OpSum {
			x.Sub(x, big.NewInt(t.k))
		}
		done := false
		for _, l := range t.lin {
			c := signed(l.c, t.w)
			if !done && (c == 1 || c == -1) {
				done = true
				y := new(big.Int).Set(x)
				if c < 0 {
					y.Neg(y)
				}
				e.require(l.t, trunc(y, l.t.w), depth+1)
				continue
			}
			e.require(l.t, new(big.Int), depth+1)
		}
	case OpOrN, OpAndN, OpXorN:
		for i, a := range t.args {
			if t.op == OpXorN && i > 0 {
				e.require(a, new(big.Int), depth+1)
			} else {
				e.require(a, v, depth+1)
			}
		}
	case OpSext:
		e.require(t.args[0], v, depth+1)
	}
}

// bitsOf requires n bits of an atom.
func (e *Env) bitsOf(y SL, n int32, v *big.Int, depth int) {
	switch y.t.op {
	case OpVar, OpJunk, OpUnk:
		e.forceBits(y.t, y.lo, n, v)
	default:
		if y.lo == 0 && n == y.t.w || v.Sign() == 0 {
			e.require(y.t, new(big.Int).Lsh(v, uint(y.lo)), depth)
		}
	}
}
