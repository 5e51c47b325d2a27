package main

// The oracle: SPHINCS+ (simple variants) as term constructors, written from
// the submission document.  Nothing here is taken from the code under
// analysis; the same normal form makes equal computations equal terms.

type PS struct {
	name              string
	n, k, t, h, d, mh int
	sha2              bool
}

var paramSets = []*PS{
	{"shake_128f", 16, 33, 6, 66, 22, 3, false},
	{"shake_128s", 16, 14, 12, 63, 7, 9, false},
	{"shake_192f", 24, 33, 8, 66, 22, 3, false},
	{"shake_192s", 24, 17, 14, 63, 7, 9, false},
	{"shake_256f", 32, 35, 9, 68, 17, 4, false},
	{"shake_256s", 32, 22, 14, 64, 8, 8, false},
	{"sha2_128f", 16, 33, 6, 66, 22, 3, true},
	{"sha2_128s", 16, 14, 12, 63, 7, 9, true},
	{"sha2_192f", 24, 33, 8, 66, 22, 3, true},
	{"sha2_192s", 24, 17, 14, 63, 7, 9, true},
	{"sha2_256f", 32, 35, 9, 68, 17, 4, true},
	{"sha2_256s", 32, 22, 14, 64, 8, 8, true},
}

func psByName(n string) *PS {
	for _, p := range paramSets {
		if p.name == n {
			return p
		}
	}
	return nil
}

func (p *PS) global() string { return "@ts_ps_" + p.name + "_simple" }
func (p *PS) level() int {
	switch p.n {
	case 16:
		return 1
	case 24:
		return 3
	}
	return 5
}
func (p *PS) small() bool { return p.name[len(p.name)-1] == 's' }
func (p *PS) wlen() int   { return 2*p.n + 3 }
func (p *PS) blocks() int { return 1 + p.k*(p.t+1) + p.d*(p.wlen()+p.mh) }
func (p *PS) sigLen() int { return p.n * p.blocks() }
func (p *PS) w() int32    { return int32(8 * p.n) }

// B is a byte string: value plus width in bits (byte 0 lowest).
type B struct {
	v V
	w int32
}

func bcat(xs ...B) B {
	var vs []V
	var ws []int32
	w := int32(0)
	for _, x := range xs {
		if x.w == 0 {
			continue
		}
		vs = append(vs, x.v)
		ws = append(ws, x.w)
		w += x.w
	}
	return B{cat(vs, ws), w}
}

func bzero(n int) B {
	if n == 0 {
		return B{}
	}
	return B{constV(0, int32(8*n)), int32(8 * n)}
}

// constV: a constant of any width.
func constV(c uint64, w int32) V {
	if w <= 64 {
		return C(c)
	}
	var vs []V
	var ws []int32
	for w > 0 {
		k := w
		if k > 64 {
			k = 64
		}
		vs = append(vs, C(c))
		ws = append(ws, k)
		c = 0
		w -= k
	}
	return cat(vs, ws)
}

// be: the low nb bytes of integer v (width w), most significant byte first.
func be(v V, w int32, nb int) B {
	var xs []B
	for i := nb - 1; i >= 0; i-- {
		lo := int32(8 * i)
		if lo >= w {
			xs = append(xs, B{C(0), 8})
		} else if lo+8 > w {
			xs = append(xs, B{zextPlain(slice(v, w, lo, w-lo), w-lo, 8), 8})
		} else {
			xs = append(xs, B{slice(v, w, lo, 8), 8})
		}
	}
	return bcat(xs...)
}

type Adr struct {
	layer         int
	tree          V // 64 bit
	typ           int
	keypair       V // 32 bit
	height, index V // 32 bit (chain / hash for WOTS+)
}

type Sp struct {
	ps      *PS
	skSeed  V
	skPrf   V
	pkSeed  V
	pkRoot  V
	msg     *Region
	msgLen  V
	adrMemo map[Adr]B
}

func (s *Sp) adr(a Adr) B {
	if s.ps.sha2 {
		return bcat(B{C(uint64(a.layer)), 8}, be(a.tree, 64, 8), B{C(uint64(a.typ)), 8}, be(a.keypair, 32, 4), be(a.height, 32, 4), be(a.index, 32, 4))
	}
	return bcat(be(C(uint64(a.layer)), 32, 4), be(a.tree, 64, 12), be(C(uint64(a.typ)), 32, 4), be(a.keypair, 32, 4), be(a.height, 32, 4), be(a.index, 32, 4))
}

func (s *Sp) hash(alg string, data B, nbytes int) V {
	a := algs[alg]
	d := mkDigest(alg, seqData(nil, data.v, data.w), 0, int32(8*a.out))
	return slice(d, int32(8*a.out), 0, int32(8*nbytes))
}

func (s *Sp) nb(v V) B { return B{v, s.ps.w()} }

// thash: the tweakable hash T_l(pk.seed, ADRS, in).
func (s *Sp) thash(a Adr, in ...B) V {
	n := s.ps.n
	body := bcat(append([]B{s.adr(a)}, in...)...)
	if !s.ps.sha2 {
		return s.hash("shake256", bcat(s.nb(s.pkSeed), body), n)
	}
	if n == 16 || len(in) == 1 {
		return s.hash("sha256", bcat(s.nb(s.pkSeed), bzero(64-n), body), n)
	}
	return s.hash("sha512", bcat(s.nb(s.pkSeed), bzero(128-n), body), n)
}

func (s *Sp) prf(a Adr) V {
	if !s.ps.sha2 {
		return s.hash("shake256", bcat(s.nb(s.pkSeed), s.adr(a), s.nb(s.skSeed)), s.ps.n)
	}
	return s.thash(a, s.nb(s.skSeed))
}

// R = PRF_msg(sk.prf, opt_rand, M)
func (s *Sp) prfMsg(opt V) V {
	n := s.ps.n
	if !s.ps.sha2 {
		d := bcat(s.nb(s.skPrf), s.nb(opt))
		parts := seqBytes(seqData(nil, d.v, d.w), s.msg, C(0), s.msgLen)
		return slice(mkDigest("shake256", parts, 0, 1088), 1088, 0, s.ps.w())
	}
	alg, block := "sha256", 64
	if n > 16 {
		alg, block = "sha512", 128
	}
	a := algs[alg]
	key := bcat(s.nb(s.skPrf), bzero(block-n))
	pad := func(c uint64) B {
		p := B{constRep(c, block), int32(8 * block)}
		return B{vXor(key.v, p.v, key.w), key.w}
	}
	in := bcat(pad(0x36), s.nb(opt))
	parts := seqBytes(seqData(nil, in.v, in.w), s.msg, C(0), s.msgLen)
	inner := mkDigest(alg, parts, 0, int32(8*a.out))
	out := bcat(pad(0x5c), B{inner, int32(8 * a.out)})
	return s.hash(alg, out, n)
}

func constRep(c uint64, n int) V {
	var vs []V
	var ws []int32
	for i := 0; i < n; i++ {
		vs = append(vs, C(c))
		ws = append(ws, 8)
	}
	return cat(vs, ws)
}

// the number of digest bytes the parameter set consumes
func (p *PS) digestLen() int {
	return (p.k*p.t+7)/8 + (p.h-p.mh+7)/8 + (p.mh+7)/8
}

// H_msg(R, pk.seed, pk.root, M)
func (s *Sp) hashMsg(R V) B {
	p := s.ps
	m := p.digestLen()
	if !p.sha2 {
		d := bcat(s.nb(R), s.nb(s.pkSeed), s.nb(s.pkRoot))
		parts := seqBytes(seqData(nil, d.v, d.w), s.msg, C(0), s.msgLen)
		return B{slice(mkDigest("shake256", parts, 0, 1088), 1088, 0, int32(8*m)), int32(8 * m)}
	}
	alg := "sha256"
	if p.n > 16 {
		alg = "sha512"
	}
	a := algs[alg]
	d := bcat(s.nb(R), s.nb(s.pkSeed), s.nb(s.pkRoot))
	parts := seqBytes(seqData(nil, d.v, d.w), s.msg, C(0), s.msgLen)
	inner := mkDigest(alg, parts, 0, int32(8*a.out))
	seed := bcat(s.nb(R), s.nb(s.pkSeed), B{inner, int32(8 * a.out)})
	var out []B
	for c, got := 0, 0; got < m; c++ {
		k := int(a.out)
		if k > m-got {
			k = m - got
		}
		out = append(out, B{s.hash(alg, bcat(seed, be(C(uint64(c)), 32, 4)), k), int32(8 * k)})
		got += k
	}
	return bcat(out...)
}

// position selected by a digest
type Pos struct {
	fors []V // each 32 bit
	tree V   // 64 bit
	leaf V   // 32 bit
}

func (s *Sp) position(dg B) Pos {
	p := s.ps
	var pos Pos
	for i := 0; i < p.k; i++ {
		var vs []V
		var ws []int32
		for j := p.t - 1; j >= 0; j-- { // last bit is the least significant
			b := i*p.t + j
			vs = append(vs, slice(dg.v, dg.w, int32(8*(b/8)+7-b%8), 1))
			ws = append(ws, 1)
		}
		vs = append(vs, C(0))
		ws = append(ws, int32(32-p.t))
		pos.fors = append(pos.fors, cat(vs, ws))
	}
	off := (p.k*p.t + 7) / 8
	num := func(bits int) V {
		nb := (bits + 7) / 8
		var vs []V
		var ws []int32
		left := bits
		for i := nb - 1; i >= 0; i-- {
			k := 8
			if k > left {
				k = left
			}
			vs = append(vs, slice(dg.v, dg.w, int32(8*(off+i)), int32(k)))
			ws = append(ws, int32(k))
			left -= k
		}
		if bits < 64 {
			vs = append(vs, C(0))
			ws = append(ws, int32(64-bits))
		}
		off += nb
		return cat(vs, ws)
	}
	pos.tree = num(p.h - p.mh)
	pos.leaf = slice(num(p.mh), 64, 0, 32)
	return pos
}

// ---------- FORS

func (s *Sp) forsIndex(i int, node V) V { return vAdd(C(uint64(i)<<uint(s.ps.t)), node, 32) }

func (s *Sp) forsSk(pos *Pos, i int, node V) V {
	return s.prf(Adr{0, pos.tree, 6, pos.leaf, C(0), s.forsIndex(i, node)})
}

func (s *Sp) forsF(pos *Pos, i int, node V, sk V) V {
	return s.thash(Adr{0, pos.tree, 3, pos.leaf, C(0), s.forsIndex(i, node)}, s.nb(sk))
}

// subtree root of height h whose leftmost leaf is base; gen gives leaves and
// node gives inner node addresses (index of node at level lv over leaf x)
func (s *Sp) subtree(base V, h int, gen func(x V) V, node func(x V, lv int) Adr) V {
	var stack []V
	var lvl []int
	for i := 0; i < 1<<uint(h); i++ {
		x := vAdd(base, C(uint64(i)), 32)
		cur := gen(x)
		l := 0
		for len(lvl) > 0 && lvl[len(lvl)-1] == l {
			left := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			lvl = lvl[:len(lvl)-1]
			l++
			cur = s.thash(node(x, l), s.nb(left), s.nb(cur))
		}
		stack = append(stack, cur)
		lvl = append(lvl, l)
	}
	return stack[0]
}

// sibling subtree base at height h
func sibling(node V, h int) V {
	x := vXor(node, C(1<<uint(h)), 32)
	return vShlC(vLshrC(x, int32(h), 32), int32(h), 32)
}

func bitCase(bit V, zero, one V, w int32) V {
	if bit.t == nil {
		if bit.c == 0 {
			return zero
		}
		return one
	}
	d, ivs := discOf(bit)
	// d in ivs <=> bit = 1
	base := baseIVs(d)
	var ents []CaseEnt
	for _, iv := range isectIVs(base, ivs) {
		ents = append(ents, CaseEnt{iv.lo, iv.hi, one})
	}
	for _, iv := range subIVs(base, ivs) {
		ents = append(ents, CaseEnt{iv.lo, iv.hi, zero})
	}
	return mkCase(d, ents, w)
}

// climb: the parent of cur (index node at height h) with sibling sib
func (s *Sp) climb(node V, h int, cur, sib V, a Adr) V {
	r := s.thash(a, s.nb(sib), s.nb(cur))
	l := s.thash(a, s.nb(cur), s.nb(sib))
	return bitCase(slice(node, 32, int32(h), 1), l, r, s.ps.w())
}

func (s *Sp) forsNode(pos *Pos, i int) func(x V, lv int) Adr {
	return func(x V, lv int) Adr {
		return Adr{0, pos.tree, 3, pos.leaf, C(uint64(lv)), vLshrC(s.forsIndex(i, x), int32(lv), 32)}
	}
}

// ---------- WOTS+

func (s *Sp) wotsSk(layer int, tree, leaf V, c int) V {
	return s.prf(Adr{layer, tree, 5, leaf, C(uint64(c)), C(0)})
}

func (s *Sp) wotsF(layer int, tree, leaf V, c, i int, x V) V {
	return s.thash(Adr{layer, tree, 0, leaf, C(uint64(c)), C(uint64(i))}, s.nb(x))
}

func (s *Sp) wotsPk(layer int, tree, leaf V, xs []V) V {
	var bs []B
	for _, x := range xs {
		bs = append(bs, s.nb(x))
	}
	return s.thash(Adr{layer, tree, 1, leaf, C(0), C(0)}, bs...)
}

func (s *Sp) wotsLeaf(layer int, tree V) func(x V) V {
	return func(x V) V {
		var xs []V
		for c := 0; c < s.ps.wlen(); c++ {
			v := s.wotsSk(layer, tree, x, c)
			for i := 0; i < 15; i++ {
				v = s.wotsF(layer, tree, x, c, i, v)
			}
			xs = append(xs, v)
		}
		return s.wotsPk(layer, tree, x, xs)
	}
}

func (s *Sp) treeNode(layer int, tree V) func(x V, lv int) Adr {
	return func(x V, lv int) Adr {
		return Adr{layer, tree, 2, C(0), C(uint64(lv)), vLshrC(x, int32(lv), 32)}
	}
}

// digits of an n-byte value: nibbles, then the checksum
func (s *Sp) digits(m V) []V { // each 32 bit
	p := s.ps
	var out []V
	sum := C(uint64(30 * p.n))
	for i := 0; i < p.n; i++ {
		for _, lo := range []int{8*i + 4, 8 * i} {
			d := zextPlain(slice(m, p.w(), int32(lo), 4), 4, 32)
			out = append(out, d)
			sum = vSub(sum, d, 32)
		}
	}
	for _, sh := range []int32{8, 4, 0} {
		out = append(out, zextPlain(slice(sum, 32, sh, 4), 4, 32))
	}
	return out
}

// caseDigit: Case over a digit 0..15 of f
func caseDigit(d V, w int32, f func(i int) V) V {
	if d.t == nil {
		return f(int(d.c))
	}
	t := d.t
	// the discriminator is the 4-bit slice itself
	n := slice(d, 32, 0, 4)
	if n.t == nil {
		return f(int(n.c))
	}
	t = n.t
	lo, hi := baseRange(t)
	if hi > 15 {
		hi = 15
	}
	if lo < 0 {
		lo = 0
	}
	var ents []CaseEnt
	for i := lo; i <= hi; i++ {
		ents = append(ents, CaseEnt{i, i, f(int(i))})
	}
	return mkCase(t, ents, w)
}

// layer position
func (s *Sp) layerPos(pos *Pos, j int) (tree V, leaf V) {
	p := s.ps
	if j == 0 {
		return pos.tree, pos.leaf
	}
	tree = vLshrC(pos.tree, int32(p.mh*j), 64)
	prev := vLshrC(pos.tree, int32(p.mh*(j-1)), 64)
	leaf = slice(vAnd(prev, C(mask(int32(p.mh))), 64), 64, 0, 32)
	return
}

// sign yields the signature block by block; yield returns false to stop.
func (s *Sp) sign(opt V, yield func(b int, v V, what string) bool) {
	p := s.ps
	b := 0
	out := func(v V, what string) bool {
		b++
		return yield(b-1, v, what)
	}
	R := s.prfMsg(opt)
	if !out(R, "R") {
		return
	}
	pos := s.position(s.hashMsg(R))
	var roots []B
	for i := 0; i < p.k; i++ {
		idx := pos.fors[i]
		sk := s.forsSk(&pos, i, idx)
		if !out(sk, sprintf("FORS tree %d secret value", i)) {
			return
		}
		cur := s.forsF(&pos, i, idx, sk)
		node := s.forsNode(&pos, i)
		for h := 0; h < p.t; h++ {
			sib := s.subtree(sibling(idx, h), h, func(x V) V { return s.forsF(&pos, i, x, s.forsSk(&pos, i, x)) }, node)
			if !out(sib, sprintf("FORS tree %d authentication node %d", i, h)) {
				return
			}
			cur = s.climb(idx, h, cur, sib, node(idx, h+1))
		}
		roots = append(roots, s.nb(cur))
	}
	m := s.thash(Adr{0, pos.tree, 4, pos.leaf, C(0), C(0)}, roots...)
	for j := 0; j < p.d; j++ {
		tree, leaf := s.layerPos(&pos, j)
		for c, d := range s.digits(m) {
			chain := []V{s.wotsSk(j, tree, leaf, c)}
			for i := 0; i < 15; i++ {
				chain = append(chain, s.wotsF(j, tree, leaf, c, i, chain[i]))
			}
			if !out(caseDigit(d, p.w(), func(i int) V { return chain[i] }), sprintf("layer %d WOTS+ chain %d", j, c)) {
				return
			}
		}
		gen := s.wotsLeaf(j, tree)
		node := s.treeNode(j, tree)
		cur := gen(leaf)
		for h := 0; h < p.mh; h++ {
			sib := s.subtree(sibling(leaf, h), h, gen, node)
			if !out(sib, sprintf("layer %d Merkle authentication node %d", j, h)) {
				return
			}
			cur = s.climb(leaf, h, cur, sib, node(leaf, h+1))
		}
		m = cur
	}
}

// verifyRoot: the root recomputed from signature blocks sig[0..].
func (s *Sp) verifyRoot(sig []V) V {
	p := s.ps
	pos := s.position(s.hashMsg(sig[0]))
	b := 1
	next := func() V { b++; return sig[b-1] }
	var roots []B
	for i := 0; i < p.k; i++ {
		idx := pos.fors[i]
		cur := s.forsF(&pos, i, idx, next())
		node := s.forsNode(&pos, i)
		for h := 0; h < p.t; h++ {
			cur = s.climb(idx, h, cur, next(), node(idx, h+1))
		}
		roots = append(roots, s.nb(cur))
	}
	m := s.thash(Adr{0, pos.tree, 4, pos.leaf, C(0), C(0)}, roots...)
	for j := 0; j < p.d; j++ {
		tree, leaf := s.layerPos(&pos, j)
		var xs []V
		for c, d := range s.digits(m) {
			v := next()
			xs = append(xs, caseDigit(d, p.w(), func(i int) V {
				y := v
				for ; i < 15; i++ {
					y = s.wotsF(j, tree, leaf, c, i, y)
				}
				return y
			}))
		}
		cur := s.wotsPk(j, tree, leaf, xs)
		node := s.treeNode(j, tree)
		for h := 0; h < p.mh; h++ {
			cur = s.climb(leaf, h, cur, next(), node(leaf, h+1))
		}
		m = cur
	}
	return m
}

// keyRoot: the root of the top-layer tree.
func (s *Sp) keyRoot() V {
	j := s.ps.d - 1
	return s.subtree(C(0), s.ps.mh, s.wotsLeaf(j, C(0)), s.treeNode(j, C(0)))
}
