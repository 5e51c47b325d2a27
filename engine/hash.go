package main

// Summaries of the hash primitives.  A hash context is an abstract data type:
// the bytes of the context hold slices of one atom that names the algorithm
// and the sequence of bytes absorbed so far.  (That the code of the primitives
// implements exactly this data type is what the checks of the primitives
// themselves decide.)

import (
	"fmt"
	"os"
	"sort"
)

type hashAlg struct {
	name   string
	block  int64 // bytes per block
	out    int64 // digest bytes (per output block for the sponge)
	size   int64 // bytes of the context
	word   int64 // digest truncation granularity
	sponge bool
}

var algs = map[string]*hashAlg{
	"sha256":   {name: "sha256", block: 64, out: 32, size: 112, word: 4},
	"sha512":   {name: "sha512", block: 128, out: 64, size: 208, word: 8},
	"shake256": {name: "shake256", block: 136, out: 136, size: 208, word: 1, sponge: true},
}

type boundary struct {
	alg *hashAlg
	op  string
}

var boundaries = map[string]boundary{
	"@ts_SHA256_init":                    {algs["sha256"], "init"},
	"@ts_SHA256_update":                  {algs["sha256"], "update"},
	"@ts_SHA256_final":                   {algs["sha256"], "final"},
	"@ts_SHA256_final_trunc":             {algs["sha256"], "trunc"},
	"@ts_SHA256_save_state":              {algs["sha256"], "save"},
	"@ts_SHA256_restore_state_after_64":  {algs["sha256"], "restore"},
	"@ts_SHA512_init":                    {algs["sha512"], "init"},
	"@ts_SHA512_update":                  {algs["sha512"], "update"},
	"@ts_SHA512_final":                   {algs["sha512"], "final"},
	"@ts_SHA512_final_trunc":             {algs["sha512"], "trunc"},
	"@ts_SHA512_save_state":              {algs["sha512"], "save"},
	"@ts_SHA512_restore_state_after_128": {algs["sha512"], "restore"},
	"@ts_shake256_inc_init":              {algs["shake256"], "init"},
	"@ts_shake256_inc_absorb":            {algs["shake256"], "update"},
	"@ts_shake256_inc_finalize":          {algs["shake256"], "finalize"},
	"@ts_shake256_inc_squeeze":           {algs["shake256"], "squeeze"},
}

// curN: hash length of the parameter set under analysis (for provenance).
var curN int64 = 16

// ---------- sequences

func seqArg(v V, w int32) *Term {
	if v.t == nil {
		return constTerm(v.c, w)
	}
	return v.t
}

func isChunk(t *Term) bool { return t.op == OpSeq }

func mkChunk(r *Region, off, n V) *Term {
	fl := uint32(FMsg)
	if r.kind == "data" {
		fl = FData
	}
	return cons(&Term{op: OpSeq, s: "bytes", reg: r, args: []*Term{seqArg(off, 64), seqArg(n, 64)}, fl: fl})
}

// seqData appends fixed-width data to a sequence.
func seqData(parts []*Term, v V, w int32) []*Term {
	if w == 0 {
		return parts
	}
	parts = parts[:len(parts):len(parts)]
	if n := len(parts); n > 0 && !isChunk(parts[n-1]) {
		l := parts[n-1]
		c := cat([]V{termV(l), v}, []int32{l.w, w})
		np := append([]*Term{}, parts...)
		np[n-1] = seqArg(c, l.w+w)
		return np
	}
	return append(parts, seqArg(v, w))
}

// seqBytes appends bytes of a region with symbolic or constant extent.
func seqBytes(parts []*Term, r *Region, off, n V) []*Term {
	if n.t == nil && n.c == 0 {
		return parts
	}
	if k := len(parts); k > 0 && isChunk(parts[k-1]) && parts[k-1].reg == r {
		p := parts[k-1]
		po, pn := termV(p.args[0]), termV(p.args[1])
		if vAdd(po, pn, 64) == off {
			np := append([]*Term{}, parts...)
			np[k-1] = mkChunk(r, po, vAdd(pn, n, 64))
			return np
		}
	}
	return append(parts[:len(parts):len(parts)], mkChunk(r, off, n))
}

func seqCells(parts []*Term, cs []Cell) []*Term {
	for i := 0; i < len(cs); {
		if t := cs[i].t; t != nil && t.op == OpByteAt {
			parts = seqBytes(parts, t.reg, byteOff(t), C(1))
			i++
			continue
		}
		j := i
		for j < len(cs) && !(cs[j].t != nil && cs[j].t.op == OpByteAt) {
			j++
		}
		parts = seqData(parts, cellsV(cs[i:j]), int32(8*(j-i)))
		i = j
	}
	return parts
}

func byteOff(t *Term) V {
	if len(t.args) == 1 {
		return T(t.args[0])
	}
	return C(uint64(t.k))
}

// seqLen: total bytes, or -1.
func seqLen(parts []*Term) int64 {
	n := int64(0)
	for _, p := range parts {
		if isChunk(p) {
			l := termV(p.args[1])
			if l.t != nil {
				return -1
			}
			n += int64(l.c)
		} else {
			n += int64(p.w / 8)
		}
	}
	return n
}

func seqFlags(parts []*Term) uint32 {
	fl := uint32(0)
	for _, p := range parts {
		fl |= p.fl
	}
	return fl
}

// seqTake: the first n bytes.
func seqTake(parts []*Term, n int64) []*Term {
	var out []*Term
	for _, p := range parts {
		if n == 0 {
			break
		}
		if isChunk(p) {
			l := termV(p.args[1])
			if l.t != nil {
				unknown("prefix of a symbolic sequence")
			}
			k := int64(l.c)
			if k > n {
				k = n
			}
			out = append(out, mkChunk(p.reg, termV(p.args[0]), C(uint64(k))))
			n -= k
			continue
		}
		k := int64(p.w / 8)
		if k > n {
			k = n
		}
		out = append(out, seqArg(slice(termV(p), p.w, 0, int32(8*k)), int32(8*k)))
		n -= k
	}
	return out
}

func prfBytes(parts []*Term) int64 {
	n := int64(0)
	for _, p := range parts {
		if p.fl&FPrf == 0 {
			continue
		}
		for _, s := range p.segs {
			if s.p != nil && s.p.fl&FPrf != 0 {
				n += int64(s.n) / 8
			}
		}
		if p.op != OpCat {
			n += int64(p.w) / 8
		}
	}
	return n
}

func hashFlags(parts []*Term) uint32 {
	fl := seqFlags(parts)
	out := fl & (FJunk | FUnk)
	if fl&FSecret != 0 {
		out |= FPrf
	} else if fl&FPrf != 0 && prfBytes(parts) <= curN {
		out |= FPrf
	}
	return out
}

// consHash rebuilds a hash-related term after substitution in its arguments.
func consHash(op Op, s string, k int64, w int32, reg *Region, args []*Term) V {
	switch op {
	case OpHash:
		return mkDigest(s, args, k, w)
	case OpSeq:
		if n := termV(args[1]); n.t == nil && n.c == 0 {
			unknown("empty chunk after substitution")
		}
		return T(mkChunk(reg, termV(args[0]), termV(args[1])))
	}
	return T(mkHst(s, args, k, w))
}

func mkHst(s string, parts []*Term, k int64, w int32) *Term {
	fl := seqFlags(parts)
	if len(s) > 6 && s[len(s)-6:] == "/spent" {
		fl &= FJunk | FUnk
	}
	return cons(&Term{op: OpHst, s: s, k: k, w: w, args: parts, fl: fl})
}

// mkDigest is the digest (or k-th output block) of a sequence.  If the data
// contain Cases on exactly one discriminator, the Case is moved outside.
func mkDigest(s string, parts []*Term, k int64, w int32) V {
	if seqFlags(parts)&FCase != 0 {
		var d *Term
		many := false
		ncase := 0
		for _, p := range parts {
			if !isChunk(p) {
				directCases(p, func(c *Term) {
					ncase++
					if d == nil {
						d = c.args[0]
					} else if d != c.args[0] {
						many = true
					}
				})
			}
		}
		// (a single two-way Case stays inside: trees of nested left/right
		// choices would otherwise be multiplied out)
		if d != nil && !many && (d.w > 1 && d.op != OpLin || ncase > 1) {
			var ivs []IV
			for _, p := range parts {
				if !isChunk(p) {
					directCases(p, func(c *Term) { ivs = refine(ivs, c.ents) })
				}
			}
			if len(ivs) <= 64 {
				var ents []CaseEnt
				for _, iv := range ivs {
					np := make([]*Term, len(parts))
					var memo substMemo
					if d.w > 1 && d.op != OpLin && iv.lo == iv.hi {
						memo = substMemo{}
					}
					for i, p := range parts {
						if isChunk(p) {
							np[i] = p
							continue
						}
						v := pickCases(termV(p), p.w, d, iv.lo)
						if memo != nil {
							v = subst(v, d, uint64(iv.lo), memo)
						}
						np[i] = seqArg(v, p.w)
					}
					ents = append(ents, CaseEnt{iv.lo, iv.hi, mkDigest(s, np, k, w)})
				}
				return mkCase(d, ents, w)
			}
		}
	}
	return T(cons(&Term{op: OpHash, s: s, k: k, w: w, args: parts, fl: hashFlags(parts)}))
}

func directCases(p *Term, f func(*Term)) {
	if p.fl&FCase == 0 {
		return
	}
	if p.op == OpCase {
		f(p)
		return
	}
	for _, s := range p.segs {
		if s.p == nil || s.p.fl&FCase == 0 {
			continue
		}
		for _, m := range s.p.mons {
			for _, x := range m {
				if x.t.op == OpCase {
					f(x.t)
				}
			}
		}
	}
}

// refine: common refinement of a partition with the intervals of a Case.
func refine(ivs []IV, ents []CaseEnt) []IV {
	if ivs == nil {
		for _, e := range ents {
			ivs = append(ivs, IV{e.lo, e.hi})
		}
		return ivs
	}
	var out []IV
	for _, a := range ivs {
		for _, e := range ents {
			lo, hi := a.lo, a.hi
			if e.lo > lo {
				lo = e.lo
			}
			if e.hi < hi {
				hi = e.hi
			}
			if lo <= hi {
				out = append(out, IV{lo, hi})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].lo < out[j].lo })
	return out
}

func pickEnt(c *Term, val int64) V {
	for _, e := range c.ents {
		if e.lo <= val && val <= e.hi {
			return e.v
		}
	}
	return c.ents[0].v
}

// pickCases replaces Cases on d directly below v by their value at d = val.
func pickCases(v V, w int32, d *Term, val int64) V {
	if v.t == nil || v.t.fl&FCase == 0 {
		return v
	}
	if v.t.op == OpCase {
		if v.t.args[0] == d {
			return pickEnt(v.t, val)
		}
		return v
	}
	if v.t.op != OpCat {
		return v
	}
	var out []Seg
	for _, s := range v.t.segs {
		if s.p == nil || s.p.fl&FCase == 0 {
			out = append(out, s)
			continue
		}
		acc := []Seg{{n: s.n, c: s.c}}
		for _, m := range s.p.mons {
			pr := []Seg{{n: s.n, c: mask(s.n)}}
			for _, x := range m {
				xs := []Seg{{n: s.n, p: polySlice1(x.t, x.lo)}}
				if x.t.op == OpCase && x.t.args[0] == d {
					xs = segsOf(slice(pickEnt(x.t, val), x.t.w, x.lo, s.n), s.n)
				}
				if len(m) == 1 {
					pr = xs
				} else {
					pr = bitop(pr, xs, '&')
				}
			}
			if len(s.p.mons) == 1 && s.c == 0 {
				acc = pr
			} else {
				acc = bitop(acc, pr, '^')
			}
		}
		out = append(out, acc...)
	}
	return fromSegs(out)
}

// ---------- contexts in memory

// readCells reads n bytes at a constant offset.
func (x *X) readCells(st *State, r *Region, off, n int64) []Cell {
	out := make([]Cell, n)
	if n == 0 {
		return out
	}
	if r.size.t != nil {
		for i := int64(0); i < n; i++ {
			v := x.loadSym(st, r, C(uint64(off+i)), intTy(8))
			out[i] = vCell(v.v)
		}
		return out
	}
	rm := x.chk(st, r, off, n, false)
	if x.onLoad != nil {
		x.onLoad(st, r, C(uint64(off)), n, x.cur)
	}
	for i := int64(0); i < n; {
		p := rm.pages[(off+i)/pageSz]
		po := (off + i) % pageSz
		c := pageSz - po
		if c > n-i {
			c = n - i
		}
		if p != nil {
			copy(out[i:i+c], p.cells[po:po+c])
		} else {
			for j := int64(0); j < c; j++ {
				out[i+j] = st.cell(rm, off+i+j)
			}
		}
		i += c
	}
	return out
}

func (x *X) writeCells(st *State, r *Region, off int64, cs []Cell) {
	n := int64(len(cs))
	if n == 0 {
		return
	}
	if r.size.t != nil {
		x.event(st, "rowrite", "write to %s: %s", r.name, r.why)
		unknown("write to symbolic-size region")
	}
	x.chk(st, r, off, n, true)
	if x.onStore != nil {
		x.onStore(st, r, C(uint64(off)), n, x.cur)
	}
	rm := st.wmem(r)
	for i := int64(0); i < n; {
		p := st.wpage(rm, off+i)
		po := (off + i) % pageSz
		c := pageSz - po
		if c > n-i {
			c = n - i
		}
		copy(p.cells[po:po+c], cs[i:i+c])
		i += c
	}
}

func (x *X) writeAtom(st *State, r *Region, off int64, t *Term, n int64) {
	x.chk(st, r, off, n, true)
	if x.onStore != nil {
		x.onStore(st, r, C(uint64(off)), n, x.cur)
	}
	rm := st.wmem(r)
	for i := int64(0); i < n; {
		p := st.wpage(rm, off+i)
		po := (off + i) % pageSz
		c := pageSz - po
		if c > n-i {
			c = n - i
		}
		for j := int64(0); j < c; j++ {
			p.cells[po+j] = Cell{t: t, lo: int32(8 * (i + j))}
		}
		i += c
	}
}

// wholeAtom: the atom whose bytes fill [off, off+n), or nil.
func (x *X) wholeAtom(st *State, r *Region, off, n int64) *Term {
	rm := x.chk(st, r, off, n, false)
	c0 := st.cell(rm, off)
	if c0.t == nil || c0.lo != 0 || int64(c0.t.w) != 8*n {
		return nil
	}
	for i := int64(1); i < n; i++ {
		p := rm.pages[(off+i)/pageSz]
		if p == nil {
			if rm.def != c0.t || 8*(off+i) != 8*i {
				return nil
			}
			continue
		}
		c := &p.cells[(off+i)%pageSz]
		if c.t != c0.t || c.lo != int32(8*i) {
			return nil
		}
	}
	return c0.t
}

type hctx struct {
	state string // algorithm plus state suffix
	parts []*Term
	k     int64
}

// hget decodes a hash context: a plain one, or a Case over several.
func (x *X) hget(st *State, a *hashAlg, p Val, size int64) (*Term, *needSplit) {
	p, ns := x.resolve(st, p, false)
	if ns != nil {
		return nil, ns
	}
	if p.v.t != nil {
		return nil, x.mustNeed(st, p.v, "hash context")
	}
	off := int64(p.v.c)
	t := x.wholeAtom(st, p.r, off, size)
	if t != nil {
		if len(st.facts) > 0 && t.op == OpCase {
			v := st.simp(T(t))
			if v.t != nil {
				t = v.t
			}
		}
		if t.op == OpHst {
			return t, nil
		}
		if t.op == OpCase && caseOf(t, OpHst) {
			return t, nil
		}
	}
	cs := x.readCells(st, p.r, off, size)
	zero := true
	for _, c := range cs {
		if c.t != nil || c.c != 0 {
			zero = false
		}
	}
	if zero && a.sponge && size == a.size {
		return mkHst(a.name, nil, 0, int32(8*size)), nil
	}
	v := cellsV(cs)
	if v.t != nil && v.t.fl&FJunk != 0 {
		x.event(st, "uninit", "hash state in %s is (partly) uninitialised: %s", p.r.name, junkName(v.t, 0))
		return mkHst(a.name+"/uninit", []*Term{v.t}, 0, int32(8*size)), nil
	}
	unknown("hash context in %s is not recognised at %s", p.r.name, x.where())
	return nil, nil
}

func caseOf(t *Term, op Op) bool {
	for _, e := range t.ents {
		if e.v.t == nil || e.v.t.op != op && !(e.v.t.op == OpCase && caseOf(e.v.t, op)) {
			return false
		}
	}
	return true
}

// hmap applies f to a context atom, merging Cases of contexts that absorbed
// the same number of bytes into one context with Case data.
func (x *X) hmap(st *State, t *Term, w int32, f func(h *Term) V) V {
	if t.op == OpHst {
		return f(t)
	}
	if u := unlift(t); u != nil {
		return f(u)
	}
	return st.caseMap(t, w, func(v V) V { return x.hmap(st, v.t, w, f) })
}

func unlift(t *Term) *Term {
	d := t.args[0]
	var hs []*Term
	for _, e := range t.ents {
		h := e.v.t
		if h.op == OpCase {
			h = unlift(h)
			if h == nil {
				return nil
			}
		}
		hs = append(hs, h)
	}
	h0 := hs[0]
	for _, h := range hs[1:] {
		if h.s != h0.s || h.k != h0.k || h.w != h0.w || len(h.args) != len(h0.args) {
			return nil
		}
		for i := range h.args {
			if isChunk(h.args[i]) != isChunk(h0.args[i]) || h.args[i].w != h0.args[i].w || isChunk(h.args[i]) && h.args[i] != h0.args[i] {
				return nil
			}
		}
	}
	parts := make([]*Term, len(h0.args))
	for i := range parts {
		same := true
		for _, h := range hs {
			if h.args[i] != h0.args[i] {
				same = false
			}
		}
		if same {
			parts[i] = h0.args[i]
			continue
		}
		w := h0.args[i].w
		lists := make([][]Seg, len(hs))
		for j, h := range hs {
			lists[j] = segsOf(termV(h.args[i]), w)
		}
		for iter := 0; ; iter++ {
			if iter > 40 {
				return nil
			}
			ch := false
			for j := 1; j < len(lists); j++ {
				a, b := alignSegs(lists[0], lists[j])
				if len(a) != len(lists[0]) || len(b) != len(lists[j]) {
					ch = true
				}
				lists[0], lists[j] = a, b
			}
			if !ch {
				break
			}
		}
		var vs []V
		var ws []int32
		for q := range lists[0] {
			n := lists[0][q].n
			ents := make([]CaseEnt, len(hs))
			for j := range hs {
				ents[j] = CaseEnt{t.ents[j].lo, t.ents[j].hi, fromSeg1(lists[j][q])}
			}
			vs = append(vs, mkCase(d, ents, n))
			ws = append(ws, n)
		}
		parts[i] = seqArg(cat(vs, ws), w)
	}
	return mkHst(h0.s, parts, h0.k, h0.w)
}

func (x *X) hput(st *State, p Val, v V, size int64) {
	if v.t == nil {
		unknown("constant hash state")
	}
	x.writeAtom(st, p.r, int64(p.v.c), v.t, size)
}

func (x *X) mustNeed(st *State, v V, what string) *needSplit {
	x.checkFlags(st, v, what)
	if ns := x.need(st, v, 64, 600); ns != nil {
		return ns
	}
	if os.Getenv("SVC_DIFF") != "" {
		k, ls, ok := st.linOf(v, 64)
		fmt.Fprintln(os.Stderr, "NEED", k, ls, ok, v.t.op, st.facts)
		for _, l := range ls {
			fmt.Fprintln(os.Stderr, l.t, st.ivsOf(l.t))
		}
	}
	unknown("symbolic %s %s at %s", what, v, x.where())
	return nil
}

func (x *X) rptr(st *State, p Val, write bool) (Val, *needSplit) {
	p, ns := x.resolve(st, p, write)
	if ns != nil {
		return p, ns
	}
	if p.v.t != nil && p.r.size.t == nil {
		return p, x.mustNeed(st, p.v, "memory address")
	}
	return p, nil
}

func (x *X) hashCall(st *State, b boundary, args []Val, in *Instr) *needSplit {
	a := b.alg
	w := int32(8 * a.size)
	st.ret = Val{}
	switch b.op {
	case "init":
		p, ns := x.rptr(st, args[0], true)
		if ns != nil {
			return ns
		}
		x.writeAtom(st, p.r, int64(p.v.c), mkHst(a.name, nil, 0, w), a.size)
		return nil
	case "update":
		ln := st.simp(args[2].v)
		if ln.t == nil && ln.c == 0 {
			_, ns := x.hget(st, a, args[0], a.size)
			return ns
		}
		t, ns := x.hget(st, a, args[0], a.size)
		if ns != nil {
			return ns
		}
		src, ns := x.rptr(st, args[1], false)
		if ns != nil {
			return ns
		}
		var add func(parts []*Term) []*Term
		if ln.t != nil && src.r.size.t == nil {
			return x.mustNeed(st, ln, "length")
		}
		if src.r.size.t != nil {
			if src.r.noacc {
				x.event(st, "noacc", "read of %s: %s", src.r.name, src.r.why)
			}
			if x.onLoad != nil {
				x.onLoad(st, src.r, src.v, -1, in)
			}
			x.symBounds(st, src.r, src.v, ln)
			add = func(parts []*Term) []*Term { return seqBytes(parts, src.r, src.v, ln) }
		} else {
			cs := x.readCells(st, src.r, int64(src.v.c), int64(ln.c))
			add = func(parts []*Term) []*Term { return seqCells(parts, cs) }
		}
		v := x.hmap(st, t, w, func(h *Term) V {
			s := h.s
			if s != a.name {
				s += "+"
			}
			parts := h.args
			if h.s != a.name && h.k != 0 {
				s += "@"
			}
			np := add(parts)
			if seqFlags(np)&FJunk != 0 && seqFlags(h.args)&FJunk == 0 {
				x.event(st, "uninit", "uninitialised bytes %s are hashed", junkSeq(np))
			}
			return T(mkHst(s, np, 0, w))
		})
		p := args[0]
		p, _ = x.rptr(st, p, true)
		x.hput(st, p, v, a.size)
		return nil
	case "final", "trunc":
		n := a.out
		if b.op == "trunc" {
			nv := st.simp(args[2].v)
			if nv.t != nil {
				return x.mustNeed(st, nv, "digest length")
			}
			n = int64(nv.c) / a.word * a.word
			if n > a.out {
				x.event(st, "oob", "digest of %d bytes requested from %s", n, a.name)
				unknown("digest too long")
			}
		}
		t, ns := x.hget(st, a, args[1], a.size)
		if ns != nil {
			return ns
		}
		dst, ns := x.rptr(st, args[0], true)
		if ns != nil {
			return ns
		}
		v := x.hmap(st, t, w, func(h *Term) V {
			return T(mkHst(h.s+"/spent", h.args, h.k, w))
		})
		d := x.hmap(st, t, int32(8*a.out), func(h *Term) V { x.hashes++; return mkDigest(h.s, h.args, 0, int32(8*a.out)) })
		p, _ := x.rptr(st, args[1], true)
		x.hput(st, p, v, a.size)
		x.writeCells(st, dst.r, int64(dst.v.c), vCells(d, int32(8*a.out), nil)[:n])
		return nil
	case "save":
		t, ns := x.hget(st, a, args[1], a.size)
		if ns != nil {
			return ns
		}
		dst, ns := x.rptr(st, args[0], true)
		if ns != nil {
			return ns
		}
		sz := a.out
		v := x.hmap(st, t, int32(8*sz), func(h *Term) V {
			n := seqLen(h.args)
			if n < 0 {
				unknown("saved state of a symbolic sequence")
			}
			return T(mkHst(h.s+"/saved", seqTake(h.args, n/a.block*a.block), 0, int32(8*sz)))
		})
		x.writeAtom(st, dst.r, int64(dst.v.c), v.t, sz)
		return nil
	case "restore":
		t, ns := x.hget(st, a, args[1], a.out)
		if ns != nil {
			return ns
		}
		p, ns := x.rptr(st, args[0], true)
		if ns != nil {
			return ns
		}
		v := x.hmap(st, t, w, func(h *Term) V {
			s := a.name
			if h.s != a.name+"/saved" || seqLen(h.args) != a.block {
				s = h.s + "/restored"
			}
			return T(mkHst(s, h.args, 0, w))
		})
		x.hput(st, p, v, a.size)
		return nil
	case "finalize":
		t, ns := x.hget(st, a, args[0], a.size)
		if ns != nil {
			return ns
		}
		p, ns := x.rptr(st, args[0], true)
		if ns != nil {
			return ns
		}
		v := x.hmap(st, t, w, func(h *Term) V { return T(mkHst(h.s+"/fin", h.args, h.k, w)) })
		x.hput(st, p, v, a.size)
		return nil
	case "squeeze":
		nv := st.simp(args[1].v)
		if nv.t != nil {
			return x.mustNeed(st, nv, "output length")
		}
		n := int64(nv.c)
		t, ns := x.hget(st, a, args[2], a.size)
		if ns != nil {
			return ns
		}
		dst, ns := x.rptr(st, args[0], true)
		if ns != nil {
			return ns
		}
		if n > 4096 {
			unknown("long squeeze")
		}
		v := x.hmap(st, t, w, func(h *Term) V { return T(mkHst(spongeOut(h.s), h.args, h.k+n, w)) })
		d := x.hmap(st, t, int32(8*n), func(h *Term) V {
			var vs []V
			var ws []int32
			for pos := h.k; pos < h.k+n; {
				blk := pos / a.block
				lo := pos % a.block
				c := a.block - lo
				if c > h.k+n-pos {
					c = h.k + n - pos
				}
				x.hashes++
				s := h.s
				if s == a.name+"/fin" || s == a.name+"/fin/spent" {
					s = a.name
				}
				o := mkDigest(s, h.args, blk, int32(8*a.block))
				vs = append(vs, slice(o, int32(8*a.block), int32(8*lo), int32(8*c)))
				ws = append(ws, int32(8*c))
				pos += c
			}
			return cat(vs, ws)
		})
		p, _ := x.rptr(st, args[2], true)
		if n > 0 {
			x.hput(st, p, v, a.size)
		}
		x.writeCells(st, dst.r, int64(dst.v.c), vCells(d, int32(8*n), nil))
		return nil
	}
	panic("hashCall")
}

// after the first squeeze the context only holds permuted data
func spongeOut(s string) string {
	if len(s) > 6 && s[len(s)-6:] == "/spent" {
		return s
	}
	return s + "/spent"
}

func junkSeq(ps []*Term) string {
	for _, p := range ps {
		if p.fl&FJunk != 0 {
			return junkName(p, 0)
		}
	}
	return "?"
}

// ---------- calls

func (x *X) doCall(st *State, callee string, args []Val, in *Instr) ([]*State, *needSplit) {
	if h, ok := x.hooks[callee]; ok {
		return h(x, st, args, in), nil
	}
	if f, ok := x.m.funcs[callee]; ok {
		if !x.native {
			if b, ok := boundaries[callee]; ok {
				ns := x.hashCall(st, b, args, in)
				if ns != nil {
					return nil, ns
				}
				if x.counting && (b.op == "final" || b.op == "trunc" || b.op == "finalize") {
					st.cnt = vAdd(st.cnt, C(1), 32)
				}
				return []*State{st}, nil
			}
		}
		return x.callFn(st, f, args, in), nil
	}
	name := callee[1:]
	one := []*State{st}
	switch {
	case hasPre(name, "llvm.memcpy"), hasPre(name, "llvm.memmove"), name == "memcpy", name == "memmove":
		ns := x.copyBytes(st, args[0], args[1], args[2].v, hasPre(name, "llvm.memcpy") || name == "memcpy")
		st.ret = args[0]
		return one, ns
	case hasPre(name, "llvm.memset"), name == "memset":
		n := st.simp(args[2].v)
		if n.t != nil {
			return nil, x.mustNeed(st, n, "length")
		}
		st.ret = args[0]
		if n.c == 0 {
			return one, nil
		}
		p, ns := x.rptr(st, args[0], true)
		if ns != nil {
			return nil, ns
		}
		bw := tyW(in.args[1].ty)
		c := vCell(slice(args[1].v, bw, 0, 8))
		if n.c > 1<<20 {
			x.event(st, "oob", "memset of %d bytes", n.c)
			unknown("huge memset")
		}
		cs := make([]Cell, n.c)
		for i := range cs {
			cs[i] = c
		}
		x.writeCells(st, p.r, int64(p.v.c), cs)
		return one, nil
	case name == "memcmp" || name == "bcmp":
		n := st.simp(args[2].v)
		if n.t != nil {
			return nil, x.mustNeed(st, n, "length")
		}
		st.ret = cV(0)
		if n.c == 0 {
			return one, nil
		}
		p, ns := x.rptr(st, args[0], false)
		if ns != nil {
			return nil, ns
		}
		q, ns := x.rptr(st, args[1], false)
		if ns != nil {
			return nil, ns
		}
		a := cellsV(x.readCells(st, p.r, int64(p.v.c), int64(n.c)))
		b := cellsV(x.readCells(st, q.r, int64(q.v.c), int64(n.c)))
		e := st.eqV(a, b, int32(8*n.c))
		x.checkFlags(st, e, "memcmp result")
		if e.t == nil {
			st.ret = cV(1 - e.c)
		} else {
			st.ret = Val{v: zextPlain(vXor(e, C(1), 1), 1, 32)}
		}
		return one, nil
	case hasPre(name, "llvm.bswap"):
		w := tyW(in.ty)
		var vs []V
		var ws []int32
		for i := w/8 - 1; i >= 0; i-- {
			vs = append(vs, slice(args[0].v, w, 8*i, 8))
			ws = append(ws, 8)
		}
		st.ret = Val{v: fold(cat(vs, ws))}
		return one, nil
	case hasPre(name, "llvm.fshl"), hasPre(name, "llvm.fshr"):
		w := tyW(in.ty)
		s := st.simp(args[2].v)
		if s.t != nil {
			return nil, x.mustNeed(st, s, "shift amount")
		}
		k := int32(s.c % uint64(w))
		if hasPre(name, "llvm.fshr") {
			k = (w - k) % w
			if k == 0 {
				st.ret = args[1]
				return one, nil
			}
		}
		if k == 0 {
			st.ret = args[0]
			return one, nil
		}
		st.ret = Val{v: fold(vOr(vShlC(args[0].v, k, w), vLshrC(args[1].v, w-k, w), w))}
		return one, nil
	case hasPre(name, "llvm.umin"), hasPre(name, "llvm.umax"), hasPre(name, "llvm.smin"), hasPre(name, "llvm.smax"):
		w := tyW(in.ty)
		a, b := st.simp(args[0].v), st.simp(args[1].v)
		var lt V
		if name[5] == 'u' {
			lt = st.ultV(a, b, w)
		} else {
			lt = st.sltV(a, b, w)
		}
		if name[6:9] == "max" {
			lt = vXor(lt, C(1), 1)
		}
		if lt.t == nil {
			if lt.c == 1 {
				st.ret = Val{v: a}
			} else {
				st.ret = Val{v: b}
			}
			return one, nil
		}
		d, ivs := discOf(lt)
		cur := st.ivsOf(d)
		return nil, &needSplit{d, [][]IV{isectIVs(cur, ivs), subIVs(cur, ivs)}}
	case name == "svc.barrier":
		if len(args) > 0 {
			st.ret = args[0]
		}
		return one, nil
	case name == "abort" || name == "__assert_fail" || name == "exit":
		x.event(st, "abort", "call of %s", name)
		return nil, nil
	case hasPre(name, "llvm.trap"), hasPre(name, "llvm.ubsantrap"):
		x.event(st, "ub", "trap reached")
		return nil, nil
	}
	x.event(st, "extern", "call of external function %s", name)
	unknown("external call %s", name)
	return nil, nil
}

func hasPre(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func (x *X) copyBytes(st *State, d, s Val, n V, noOverlap bool) *needSplit {
	n = st.simp(n)
	if n.t == nil && n.c == 0 {
		return nil
	}
	if n.t != nil {
		return x.mustNeed(st, n, "length")
	}
	if n.c > 1<<20 {
		x.event(st, "oob", "copy of %d bytes", n.c)
		unknown("huge copy")
	}
	src, ns := x.rptr(st, s, false)
	if ns != nil {
		return ns
	}
	dst, ns := x.rptr(st, d, true)
	if ns != nil {
		return ns
	}
	if dst.v.t != nil {
		x.event(st, "rowrite", "write to %s: %s", dst.r.name, dst.r.why)
		unknown("symbolic destination")
	}
	var cs []Cell
	if src.v.t != nil {
		cs = make([]Cell, n.c)
		for i := range cs {
			cs[i] = vCell(x.loadSym(st, src.r, vAdd(src.v, C(uint64(i)), 64), intTy(8)).v)
		}
	} else {
		cs = x.readCells(st, src.r, int64(src.v.c), int64(n.c))
		if noOverlap && src.r == dst.r {
			a, b := int64(src.v.c), int64(dst.v.c)
			if a != b && a < b+int64(n.c) && b < a+int64(n.c) {
				x.event(st, "ub", "memcpy between overlapping objects")
			}
		}
	}
	x.writeCells(st, dst.r, int64(dst.v.c), cs)
	return nil
}
