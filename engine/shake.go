package main

// C20: SHAKE256 (FIPS 202) through the incremental interface.

import "fmt"

type shakePrim struct {
	prim
	init, absorbF, finalize, squeeze string
	q                                []nbyte
	base                             map[int]*nreg // squeezing contexts by bytes already taken
	left                             map[int]int
}

func (p *shakePrim) stepMem(st, _ []nbyte) []nbyte {
	bs := p.e.bytesBits(st)
	a := make([][]bit, 25)
	for i := range a {
		a[i] = bs[64*i : 64*i+64]
	}
	var out []bit
	for _, l := range keccakF(p.e, a) {
		out = append(out, l...)
	}
	return bitsBytes(out)
}

func (p *shakePrim) xorByte(a, b nbyte) nbyte {
	x, y := a.bit8(p.e), b.bit8(p.e)
	var o [8]bit
	for i := range o {
		o[i] = p.e.xor(x[i], y[i])
	}
	return mkByte(o[:])
}

// specAbsorb: the sponge state and fill after more data.
func (p *shakePrim) specAbsorb(s []nbyte, fill int, data []nbyte) ([]nbyte, int) {
	s = append([]nbyte{}, s...)
	for _, b := range data {
		s[fill] = p.xorByte(s[fill], b)
		if fill++; fill == p.block {
			s, fill = p.specStep(s, nil), 0
		}
	}
	return s, fill
}

func (p *shakePrim) specPad(s []nbyte, fill int) []nbyte {
	s = append([]nbyte{}, s...)
	s[fill] = p.xorByte(s[fill], nbyte{c: 0x1f})
	s[p.block-1] = p.xorByte(s[p.block-1], nbyte{c: 0x80})
	return s
}

// specSqueeze: n bytes of output, the state and the bytes left in it.
func (p *shakePrim) specSqueeze(s []nbyte, left, n int) (out, ns []nbyte, nl int) {
	for i := 0; i < n; i++ {
		if left == 0 {
			s, left = p.specStep(s, nil), p.block
		}
		out = append(out, s[p.block-left])
		left--
	}
	return out, s, left
}

func (p *shakePrim) absorb(c *nreg, data []nbyte) {
	p.run(c, p.absorbF, ptrTo(c, 0), ptrTo(p.src(data), 0), cnv(uint64(len(data)), 64))
}

func (p *shakePrim) take(c *nreg, n int) []nbyte {
	d := p.e.byteReg("output", n)
	p.run(c, p.squeeze, ptrTo(d, 0), cnv(uint64(n), 64), ptrTo(c, 0))
	return d.mem
}

// natural: the context after fill bytes, with the sponge state replaced.
func (p *shakePrim) natural(s []nbyte, fill int) *nreg {
	c := p.junkCtx("context")
	p.run(c, p.init, ptrTo(c, 0))
	if fill > 0 {
		p.absorb(c, make([]nbyte, fill))
	}
	copy(c.mem[p.so:], s)
	return c
}

// squeezing: a context from which a bytes were taken, with the sponge state replaced.
func (p *shakePrim) squeezing(s []nbyte, a int) (*nreg, int) {
	b, ok := p.base[a]
	if !ok {
		c := p.junkCtx("context")
		p.run(c, p.init, ptrTo(c, 0))
		p.applied = 0
		p.run(c, p.finalize, ptrTo(c, 0))
		p.take(c, a)
		p.base[a], p.left[a] = c, p.block*p.applied-a
		b = c
	}
	c := b.clone()
	copy(c.mem[p.so:], s)
	return c, p.left[a]
}

// end compares the output from an absorbing context with the specified one.
func (p *shakePrim) end(what string, c *nreg, s []nbyte, fill int, cuts ...int) bool {
	k := c.clone()
	p.run(k, p.finalize, ptrTo(k, 0))
	ns, left := p.specPad(s, fill), 0
	good := true
	tot := 0
	for _, n := range cuts {
		got := p.take(k, n)
		var want []nbyte
		want, ns, left = p.specSqueeze(ns, left, n)
		good = p.judge("digest", fmt.Sprintf("%s: output bytes %d..", what, tot), got, want) && good
		tot += n
	}
	return good
}

func (p *shakePrim) after(what string, c *nreg, s []nbyte, fill int) {
	ref := p.natural(s, fill)
	p.res.Oblig++
	if ok, at := p.sameState(c, ref); ok {
		p.res.Done++
	} else if p.end(what, c, s, fill, 7) {
		ok := true
		for _, k := range []int{1, p.block - fill, p.block} {
			d := p.e.varBytes("z", k, FData)
			c2 := c.clone()
			p.absorb(c2, d)
			s2, f2 := p.specAbsorb(s, fill, d)
			ok = p.end(fmt.Sprintf("%s, then %d more bytes", what, k), c2, s2, f2, 7) && ok
		}
		if ok {
			p.undecided("%s: the context differs from the expected one at byte %d, though the output is right", what, at)
		}
	}
}

// afterSq: a squeezing context is the specified one.
func (p *shakePrim) afterSq(what string, c *nreg, s []nbyte, left int) {
	p.res.Oblig++
	at := 0
	for a := p.block; a >= 0; a-- {
		if p.base[a] == nil || p.left[a] != left {
			continue
		}
		ref, _ := p.squeezing(s, a)
		ok, i := p.sameState(c, ref)
		if ok {
			p.res.Done++
			return
		}
		at = i
	}
	got := p.take(c.clone(), p.block+left+3)
	want, _, _ := p.specSqueeze(s, left, p.block+left+3)
	if p.judge("digest", what+", the following output", got, want) {
		p.undecided("%s: the context differs from the expected one at byte %d, though the output is right", what, at)
	}
}

func runShake(e *nets, res *Result, deep bool) {
	p := &shakePrim{base: map[int]*nreg{}, left: map[int]int{}}
	p.e, p.x = e, e.x
	p.res, p.und, p.known = res, map[string]bool{}, map[string]*sumry{}
	p.block, p.sn, p.co, p.inPlace = 136, 200, -1, true
	p.name = "SHAKE256"
	p.init, p.absorbF, p.finalize, p.squeeze = "@ts_shake256_inc_init", "@ts_shake256_inc_absorb", "@ts_shake256_inc_finalize", "@ts_shake256_inc_squeeze"
	for _, f := range []string{p.init, p.absorbF, p.finalize, p.squeeze} {
		if e.m.funcs[f] == nil {
			unknown("function %s not found", f[1:])
		}
	}
	sz, ok := e.m.constU64("@svc_shake_size")
	if !ok {
		unknown("no context size probe")
	}
	p.ctxSz = int(sz)
	p.step = p.stepMem
	B := p.block
	zero := make([]nbyte, 200)

	fromInit := func(n, out int, cuts ...int) {
		what := fmt.Sprintf("output for %d bytes", n)
		p.try(what, func() {
			data := e.varBytes("m", n, FData)
			c := p.junkCtx("context")
			p.run(c, p.init, ptrTo(c, 0))
			at := 0
			for _, k := range append(append([]int{}, cuts...), n) {
				p.absorb(c, data[at:k:k])
				at = k
			}
			s, fill := p.specAbsorb(zero, 0, data)
			p.end(what, c, s, fill, out/3, out-out/3)
		})
	}
	// with the real permutation
	p.noSum = true
	fromInit(3, 40)
	fromInit(B, 9)
	p.noSum = false
	// where the state is
	e.onCall = p.onCall
	okLayout := false
	for off := 0; off+200 <= p.ctxSz && !okLayout; off += 8 {
		p.so = off
		p.known = map[string]*sumry{}
		p.try("layout", func() {
			c := p.junkCtx("context")
			p.run(c, p.init, ptrTo(c, 0))
			p.applied = 0
			p.absorb(c, e.varBytes("m", B, FData))
			p.run(c, p.finalize, ptrTo(c, 0))
			p.take(c, 3)
			okLayout = p.applied == 2
		})
	}
	if !okLayout {
		p.undecided("no function was recognised as the permutation")
		p.noSum, p.so = true, 0
		for _, n := range []int{0, 1, B - 1, B + 1, 2 * B} {
			fromInit(n, B+1, n/2)
		}
		return
	}
	for n := 0; n <= 2*B+1; n++ {
		if n > B && n%B > 2 && n%B < B-2 && !deep {
			continue
		}
		fromInit(n, 2*B+7, n/3)
	}
	p.q = e.varBytes("s", 200, FData)
	data := e.varBytes("d", 6*B, FData)

	// does replacing the state by an arbitrary one model real histories?
	model := true
	for _, n := range []int{1, B - 1, B, B + 3, 2*B + 5, 3 * B} {
		n := n
		model = p.try("state model", func() {
			c := p.junkCtx("context")
			p.run(c, p.init, ptrTo(c, 0))
			p.absorb(c, data[:n])
			s, fill := p.specAbsorb(zero, 0, data[:n])
			if ok, at := p.sameState(c, p.natural(s, fill)); !ok {
				unknown("the context after %d bytes is more than state and fill (byte %d)", n, at)
			}
			p.applied = 0
			p.run(c, p.finalize, ptrTo(c, 0))
			p.take(c, n)
			left := B*p.applied - n
			_, ns, _ := p.specSqueeze(p.specPad(s, fill), 0, n)
			good := false
			for a := 0; a <= B; a++ {
				if r, l := p.squeezing(ns, a); l == left {
					if ok, _ := p.sameState(c, r); ok {
						good = true
					}
				}
			}
			if !good {
				unknown("the context after taking %d bytes is more than state and position", n)
			}
		}) && model
	}
	if !model {
		return
	}
	for fill := 0; fill < B; fill++ {
		fill := fill
		p.try(fmt.Sprintf("finalisation with %d bytes absorbed", fill), func() {
			p.end(fmt.Sprintf("arbitrary state with %d bytes absorbed", fill), p.natural(p.q, fill), p.q, fill, B+1)
		})
		one := func(m int) {
			what := fmt.Sprintf("absorbing %d bytes with %d in the block", m, fill)
			p.try(what, func() {
				c := p.natural(p.q, fill)
				p.absorb(c, data[:m:m])
				s, f := p.specAbsorb(p.q, fill, data[:m])
				p.after(what, c, s, f)
			})
		}
		for m := 0; m <= B-fill; m++ {
			if m < 10 || m > B-fill-10 || m%8 == fill%8 || fill%8 == 0 || deep {
				one(m)
			}
		}
		for _, m := range []int{B - fill + 1, 2*B - fill - 1, 2*B - fill, 2*B - fill + 1, 3*B - fill + 5} {
			one(m)
		}
		if !p.inductAbsorb(fill, data) {
			for m := B - fill + 2; m <= 2*B+B/2; m += 3 {
				one(m)
			}
		}
		if fill < 2 || fill > B-2 || deep {
			for _, m := range []uint64{1<<12 + 5, 1<<16 + 64, 1 << 29, 1<<32 + 67, 1<<35 - 1, 1<<61 - 1<<20} {
				p.longAbsorb(fill, data, m)
			}
		}
	}
	for a := 0; a <= B; a++ {
		a := a
		one := func(b int) {
			what := fmt.Sprintf("squeezing %d bytes after %d", b, a)
			p.try(what, func() {
				c, left := p.squeezing(p.q, a)
				p.applied = 0
				got := p.take(c, b)
				nl := left + B*p.applied - b
				want, ns, l := p.specSqueeze(p.q, left, b)
				if p.judge("digest", what, got, want) {
					if nl == B && l == 0 {
						ns = p.specStep(ns, nil)
					} else if nl != l {
						unknown("the permutation was applied %d times", p.applied)
					}
					p.afterSq(what, c, ns, nl)
				}
			})
		}
		_, left := p.squeezing(p.q, a)
		for b := 0; b <= left+1; b++ {
			if b < 10 || b > left-10 || b%8 == a%8 || a%8 == 0 || deep {
				one(b)
			}
		}
		for _, b := range []int{left + 2, left + B - 1, left + B, left + B + 1, left + 2*B, left + 3*B + 5} {
			one(b)
		}
		if !p.inductSqueeze(a) {
			for b := left + 2; b <= 2*B+B/2; b += 3 {
				one(b)
			}
		}
		if a < 2 || a > B-2 || deep {
			for _, m := range []uint64{1<<12 + 5, 1<<16 + 64, 1 << 29, 1<<32 + 67, 1<<35 - 1, 1<<61 - 1<<20} {
				p.longSqueeze(a, m)
			}
		}
	}
}

func (p *shakePrim) inductAbsorb(fill int, data []nbyte) bool {
	e, B := p.e, p.block
	start := func(st *nreg, off int) func() {
		return func() {
			s := p.src(data)
			p.run(st, p.absorbF, ptrTo(st, 0), ptrTo(s, off), e.lin(e.lenVar(), cnv(uint64(-int64(off)), 64), 1, 64))
		}
	}
	mk := func() (*nreg, func()) {
		st := p.natural(p.q, fill)
		return st, start(st, 0)
	}
	fresh := func(j int) (*nreg, func()) {
		n := j*B - fill
		s, _ := p.specAbsorb(p.q, fill, data[:n])
		st := p.natural(s, 0)
		return st, start(st, n)
	}
	return p.induct(fmt.Sprintf("absorbing any longer input with %d bytes in the block", fill), uint64(B-fill), mk, fresh)
}

func (p *shakePrim) inductSqueeze(a int) bool {
	e, B := p.e, p.block
	var out *nreg
	start := func(st *nreg, off int) func() {
		return func() {
			p.run(st, p.squeeze, ptrTo(out, off), e.lin(e.lenVar(), cnv(uint64(-int64(off)), 64), 1, 64), ptrTo(st, 0))
		}
	}
	_, left := p.squeezing(p.q, a)
	defer func() { p.io = nil }()
	mk := func() (*nreg, func()) {
		out = e.byteReg("output", 6*B)
		p.io = out
		st, _ := p.squeezing(p.q, a)
		return st, start(st, 0)
	}
	fresh := func(j int) (*nreg, func()) {
		s := p.q
		for i := 0; i < j; i++ {
			s = p.specStep(s, nil)
		}
		want, _, _ := p.specSqueeze(p.q, left, left+B*j)
		for i := range want {
			if !e.sameByte(p.ioAt[i], want[i]) {
				unknown("output byte %d", i)
			}
		}
		st, l := p.squeezing(s, B)
		if l != 0 {
			st, l = p.squeezing(s, 0)
		}
		if l != 0 {
			unknown("no context with nothing left")
		}
		return st, start(st, left+B*j)
	}
	return p.induct(fmt.Sprintf("squeezing any longer output after %d bytes", a), uint64(left+B+1), mk, fresh)
}

func (p *shakePrim) longAbsorb(fill int, data []nbyte, m uint64) {
	e, B := p.e, uint64(p.block)
	what := fmt.Sprintf("absorbing %d bytes with %d in the block", m, fill)
	keep := 4*B + m%B
	gap := (m - keep) / B * B
	p.try(what, func() {
		c := p.natural(p.q, fill)
		s := p.src(data[: m-gap : m-gap])
		sk := p.skipper(c, s, gap, int(B), nil)
		e.onHead = sk.head
		steps := e.steps
		p.run(c, p.absorbF, ptrTo(c, 0), ptrTo(s, 0), cnv(m, 64))
		e.onHead = nil
		if !sk.done {
			p.noSkip(what, m, steps)
		}
		st, f := append([]nbyte{}, p.q...), fill
		n := 0
		for _, b := range data[:m-gap] {
			st[f] = p.xorByte(st[f], b)
			if f++; f == p.block {
				st, f = p.specStep(st, nil), 0
				if n++; n == sk.blocks {
					st = bitsBytes(e.uf(13, e.bytesBits(st), 8*p.sn))
				}
			}
		}
		p.after(what, c, st, f)
	})
}

func (p *shakePrim) longSqueeze(a int, m uint64) {
	e, B := p.e, uint64(p.block)
	what := fmt.Sprintf("squeezing %d bytes after %d", m, a)
	keep := 4*B + m%B
	gap := (m - keep) / B * B
	p.try(what, func() {
		c, left := p.squeezing(p.q, a)
		out := e.byteReg("output", int(m-gap))
		sk := p.skipper(c, nil, gap, int(B), out)
		e.onHead = sk.head
		steps := e.steps
		p.run(c, p.squeeze, ptrTo(out, 0), cnv(m, 64), ptrTo(c, 0))
		e.onHead = nil
		if !sk.done {
			p.noSkip(what, m, steps)
		}
		var want []nbyte
		s := p.q
		n := 0
		for i := uint64(0); i < m-gap; i++ {
			if left == 0 {
				if n > 0 && n == sk.blocks {
					s = bitsBytes(e.uf(13, e.bytesBits(s), 8*p.sn))
				}
				s, left = p.specStep(s, nil), int(B)
				n++
			}
			want = append(want, s[int(B)-left])
			left--
		}
		if p.judge("digest", what, out.mem, want) {
			p.afterSq(what, c, s, left)
		}
	})
}
