package main

// Parser for the textual LLVM IR that clang-18 -O0 (after mem2reg) produces
// for the library.  Only what such modules contain is supported; anything
// else makes the load fail loudly (an analysis error, never a verdict).

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
)

type TKind uint8

const (
	TVoid TKind = iota
	TInt
	TPtr
	TArr
	TStruct
	TMeta
	TLabel
	TFloat
)

type Type struct {
	k      TKind
	bits   int
	elem   *Type
	n      int
	fields []*Type
	offs   []int
	size   int
	align  int
	packed bool
	done   bool
	name   string
}

type Module struct {
	types   map[string]*Type
	globals map[string]*Global
	gorder  []string
	funcs   map[string]*Func
	forder  []string
	decls   map[string]bool
	meta    map[int]string
	locLine map[int]int
	cfg     Config
}

type Global struct {
	name string
	ty   *Type
	isConst,
	isExtern bool
	linkage string
	init    *ConstInit
	region  *Region
	id      int
	initTxt string
}

// ConstInit is a constant initialiser.
type ConstInit struct {
	ty    *Type
	zero  bool
	undef bool
	ival  uint64
	str   []byte
	elems []*ConstInit
	gref  string // global/function reference
	goff  int64
}

type OpKind uint8

const (
	ONone OpKind = iota
	OReg
	OConst
	OGlobal
	OUndef
)

type Operand struct {
	k   OpKind
	reg int
	c   uint64
	g   string
	ty  *Type
	v   Val // resolved constant value (for OConst/OGlobal)
}

type Opcode uint8

const (
	IRet Opcode = iota
	IBr
	ICondBr
	ISwitch
	IUnreachable
	IAlloca
	ILoad
	IStore
	IGep
	ICall
	IPhi
	ISelect
	IIcmp
	IAdd
	ISub
	IMul
	IUDiv
	ISDiv
	IURem
	ISRem
	IShl
	ILShr
	IAShr
	IAnd
	IOr
	IXor
	IZext
	ISext
	ITrunc
	IPtrToInt
	IIntToPtr
	IBitcast
	IFreeze
	IExtractValue
	IInsertValue
	IFloatOp
)

type Instr struct {
	op       Opcode
	dst      int
	ty       *Type // result type or accessed type
	algn     int   // alignment the access assumes, or of the object allocated
	a, b, c  Operand
	args     []Operand
	pred     string
	nsw, nuw bool
	blk      []int // targets
	cases    []uint64
	phiBlk   []int
	gepTy    *Type
	callee   string
	dbg      int
	line     int
	idx      int
	fn       *Func
	uid      int
	gconst   bool    // all gep indices constant
	goff     int64   // constant gep offset
	gsc      []int64 // scales for variable indices (args)
	inb      bool
	gbound   []int64 // array length per variable index, -1 for the pointer step
	junk     *Term
}

type Block struct {
	name  string
	ins   []*Instr
	nphi  int
	ipdom int // -1 = exit
	succ  []int
}

type Func struct {
	name     string
	ret      *Type
	params   []int
	ptypes   []*Type
	blocks   []*Block
	nregs    int
	file     string
	dbg      int
	internal bool
	varargs  bool
	regNames []string
	line     int
	regW     []int32
	live     [][]uint64
}

type lexer struct {
	s   string
	pos int
	tok string
}

func isIdent(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '-' || c == '$'
}

func (l *lexer) next() string {
	s := l.s
	i := l.pos
	for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
		i++
	}
	if i >= len(s) {
		l.pos = i
		l.tok = ""
		return ""
	}
	st := i
	c := s[i]
	switch {
	case c == '%' || c == '@' || c == '!' || c == '#':
		i++
		if i < len(s) && s[i] == '"' {
			i++
			for i < len(s) && s[i] != '"' {
				i++
			}
			i++
		} else {
			for i < len(s) && isIdent(s[i]) {
				i++
			}
		}
	case c == 'c' && i+1 < len(s) && s[i+1] == '"':
		i += 2
		for i < len(s) && s[i] != '"' {
			i++
		}
		i++
	case c == '"':
		i++
		for i < len(s) && s[i] != '"' {
			i++
		}
		i++
	case isIdent(c):
		for i < len(s) && isIdent(s[i]) {
			i++
		}
	case c == ';':
		l.pos = len(s)
		l.tok = ""
		return ""
	default:
		i++
	}
	l.tok = s[st:i]
	l.pos = i
	return l.tok
}

func (l *lexer) expect(t string) {
	if l.tok != t {
		panic(fmt.Sprintf("ir: expected %q got %q in %q", t, l.tok, l.s))
	}
	l.next()
}

func (l *lexer) accept(t string) bool {
	if l.tok == t {
		l.next()
		return true
	}
	return false
}

var tyPtr = &Type{k: TPtr, bits: 64, size: 8, align: 8, done: true}
var tyVoid = &Type{k: TVoid, done: true}
var intTypes = map[int]*Type{}

func intTy(b int) *Type {
	if t, ok := intTypes[b]; ok {
		return t
	}
	sz := (b + 7) / 8
	al := 1
	for al < sz && al < 16 {
		al *= 2
	}
	sz = (sz + al - 1) / al * al
	t := &Type{k: TInt, bits: b, size: sz, align: al, done: true}
	intTypes[b] = t
	return t
}

// alignOf reads an align attribute, if there is one.
func alignOf(l *lexer) int {
	if l.tok != "align" {
		return 0
	}
	l.next()
	n, _ := strconv.Atoi(l.tok)
	return n
}

func (m *Module) parseType(l *lexer) *Type {
	t := l.tok
	switch {
	case t == "void":
		l.next()
		return tyVoid
	case t == "ptr":
		l.next()
		return tyPtr
	case t == "metadata":
		l.next()
		return &Type{k: TMeta}
	case t == "label":
		l.next()
		return &Type{k: TLabel}
	case t == "float" || t == "double":
		l.next()
		n := 8
		if t == "float" {
			n = 4
		}
		return &Type{k: TFloat, bits: n * 8, size: n, align: n, done: true}
	case len(t) > 1 && t[0] == 'i' && t[1] >= '0' && t[1] <= '9':
		b, err := strconv.Atoi(t[1:])
		if err != nil {
			panic("ir: bad type " + t)
		}
		l.next()
		return intTy(b)
	case t == "[":
		l.next()
		n, err := strconv.Atoi(l.tok)
		if err != nil {
			panic("ir: bad array " + l.s)
		}
		l.next()
		l.expect("x")
		e := m.parseType(l)
		l.expect("]")
		return &Type{k: TArr, elem: e, n: n}
	case t == "{" || t == "<":
		packed := false
		if t == "<" {
			packed = true
			l.next()
			if l.tok != "{" {
				panic("ir: vector types unsupported: " + l.s)
			}
		}
		l.next()
		ty := &Type{k: TStruct, packed: packed}
		for l.tok != "}" {
			ty.fields = append(ty.fields, m.parseType(l))
			if !l.accept(",") {
				break
			}
		}
		l.expect("}")
		if packed {
			l.expect(">")
		}
		return ty
	case t[0] == '%':
		l.next()
		if ty, ok := m.types[t]; ok {
			return ty
		}
		ty := &Type{k: TStruct, name: t}
		m.types[t] = ty
		return ty
	}
	panic(fmt.Sprintf("ir: unknown type %q in %q", t, l.s))
}

func (t *Type) layout() *Type {
	if t.done {
		return t
	}
	switch t.k {
	case TArr:
		t.elem.layout()
		t.size = t.elem.size * t.n
		t.align = t.elem.align
	case TStruct:
		off := 0
		al := 1
		t.offs = nil
		for _, f := range t.fields {
			f.layout()
			a := f.align
			if t.packed {
				a = 1
			}
			if a < 1 {
				a = 1
			}
			off = (off + a - 1) / a * a
			t.offs = append(t.offs, off)
			off += f.size
			if a > al {
				al = a
			}
		}
		t.size = (off + al - 1) / al * al
		t.align = al
	}
	t.done = true
	return t
}

var attrWords = map[string]bool{
	"noundef": true, "zeroext": true, "signext": true, "inreg": true, "nocapture": true, "noalias": true,
	"nonnull": true, "readonly": true, "writeonly": true, "readnone": true, "immarg": true, "returned": true,
	"dso_local": true, "internal": true, "private": true, "external": true, "unnamed_addr": true,
	"local_unnamed_addr": true, "hidden": true, "protected": true, "weak": true, "linkonce_odr": true, "common": true,
	"dereferenceable": true, "tail": true, "musttail": true, "notail": true, "allocptr": true, "nofree": true,
	"captures": true, "noreturn": true, "fastcc": true, "coldcc": true, "ccc": true,
}

func (l *lexer) skipAttrs() {
	for {
		if l.tok == "align" {
			l.next()
			l.next()
			continue
		}
		if attrWords[l.tok] {
			l.next()
			if l.tok == "(" {
				for l.tok != ")" {
					l.next()
				}
				l.next()
			}
			continue
		}
		if l.tok == "sret" || l.tok == "byval" || l.tok == "elementtype" {
			panic("ir: by-value aggregates unsupported")
		}
		return
	}
}

func parseIntTok(t string) (uint64, bool) {
	if t == "true" {
		return 1, true
	}
	if t == "false" {
		return 0, true
	}
	if len(t) == 0 {
		return 0, false
	}
	if t[0] == '-' {
		v, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			return 0, false
		}
		return uint64(v), true
	}
	v, err := strconv.ParseUint(t, 10, 64)
	if err != nil {
		return 0, false
	}
	return v, true
}

func parseCStr(t string) []byte {
	t = t[2 : len(t)-1]
	var out []byte
	for i := 0; i < len(t); i++ {
		if t[i] == '\\' {
			v, _ := strconv.ParseUint(t[i+1:i+3], 16, 8)
			out = append(out, byte(v))
			i += 2
		} else {
			out = append(out, t[i])
		}
	}
	return out
}

// parseConst parses a constant of type ty (no registers).
func (m *Module) parseConst(l *lexer, ty *Type) *ConstInit {
	t := l.tok
	ci := &ConstInit{ty: ty}
	switch {
	case t == "zeroinitializer" || t == "null":
		l.next()
		ci.zero = true
		return ci
	case t == "undef" || t == "poison":
		l.next()
		ci.undef = true
		return ci
	case strings.HasPrefix(t, "c\""):
		ci.str = parseCStr(t)
		l.next()
		return ci
	case t == "[" || t == "{" || t == "<":
		end := map[string]string{"[": "]", "{": "}", "<": ">"}[t]
		l.next()
		if t == "<" {
			l.expect("{")
			end = "}"
		}
		for l.tok != end {
			et := m.parseType(l)
			ci.elems = append(ci.elems, m.parseConst(l, et))
			if !l.accept(",") {
				break
			}
		}
		l.expect(end)
		if t == "<" {
			l.expect(">")
		}
		return ci
	case t[0] == '@':
		ci.gref = t
		l.next()
		return ci
	case t == "getelementptr":
		l.next()
		l.accept("inbounds")
		l.expect("(")
		bt := m.parseType(l)
		l.expect(",")
		m.parseType(l)
		base := m.parseConst(l, tyPtr)
		var idx []*ConstInit
		for l.accept(",") {
			l.accept("inrange")
			it := m.parseType(l)
			idx = append(idx, m.parseConst(l, it))
		}
		l.expect(")")
		ci.gref = base.gref
		off := base.goff
		cur := bt.layout()
		for i, ix := range idx {
			v := int64(ix.ival)
			if ix.ty.bits == 32 {
				v = int64(int32(ix.ival))
			}
			if i == 0 {
				off += v * int64(cur.size)
			} else if cur.k == TArr {
				cur = cur.elem.layout()
				off += v * int64(cur.size)
			} else {
				off += int64(cur.offs[v])
				cur = cur.fields[v].layout()
			}
		}
		ci.goff = off
		return ci
	}
	if v, ok := parseIntTok(t); ok {
		ci.ival = v
		if ty.k == TInt && ty.bits < 64 {
			ci.ival &= (1 << uint(ty.bits)) - 1
		}
		l.next()
		return ci
	}
	panic(fmt.Sprintf("ir: constant %q in %q", t, l.s))
}

var reLoc = regexp.MustCompile(`^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)`)
var reMeta = regexp.MustCompile(`^!(\d+) = (.*)$`)

func LoadModule(path string) (m *Module, err error) {
	defer func() {
		if r := recover(); r != nil {
			m = nil
			err = fmt.Errorf("loading %s: %v", path, r)
		}
	}()
	data, e := os.ReadFile(path)
	if e != nil {
		return nil, e
	}
	m = &Module{types: map[string]*Type{}, globals: map[string]*Global{}, funcs: map[string]*Func{}, decls: map[string]bool{}, meta: map[int]string{}, locLine: map[int]int{}}
	lines := strings.Split(string(data), "\n")
	// metadata first
	for _, ln := range lines {
		if strings.HasPrefix(ln, "!") {
			if g := reLoc.FindStringSubmatch(ln); g != nil {
				id, _ := strconv.Atoi(g[1])
				L, _ := strconv.Atoi(g[2])
				m.locLine[id] = L
				continue
			}
			if g := reMeta.FindStringSubmatch(ln); g != nil {
				id, _ := strconv.Atoi(g[1])
				m.meta[id] = g[2]
			}
		}
	}
	// types
	for _, ln := range lines {
		if strings.HasPrefix(ln, "%") && strings.Contains(ln, " = type ") {
			l := &lexer{s: ln}
			l.next()
			name := l.tok
			l.next()
			l.expect("=")
			l.expect("type")
			if l.tok == "opaque" {
				continue
			}
			t := m.parseType(l)
			if ex, ok := m.types[name]; ok {
				ex.fields, ex.packed, ex.k, ex.elem, ex.n = t.fields, t.packed, t.k, t.elem, t.n
			} else {
				t.name = name
				m.types[name] = t
			}
		}
	}
	for _, t := range m.types {
		t.layout()
	}
	var fn []string
	in := false
	for _, ln := range lines {
		if in {
			if ln == "}" {
				in = false
				m.parseFunc(fn)
				continue
			}
			fn = append(fn, ln)
			continue
		}
		if strings.HasPrefix(ln, "define ") {
			in = true
			fn = []string{ln}
		} else if strings.HasPrefix(ln, "declare ") {
			i := strings.Index(ln, "@")
			j := strings.Index(ln[i:], "(")
			m.decls[ln[i:i+j]] = true
		} else if strings.HasPrefix(ln, "@") {
			m.parseGlobal(ln)
		}
	}
	m.link()
	return m, nil
}

func (m *Module) parseGlobal(ln string) {
	l := &lexer{s: ln}
	l.next()
	g := &Global{name: l.tok, initTxt: ln}
	l.next()
	l.expect("=")
	for {
		switch l.tok {
		case "private", "internal", "external", "common", "weak", "linkonce_odr", "extern_weak":
			g.linkage = l.tok
			if l.tok == "external" || l.tok == "extern_weak" {
				g.isExtern = true
			}
			l.next()
			continue
		case "dso_local", "unnamed_addr", "local_unnamed_addr", "hidden", "protected":
			l.next()
			continue
		case "thread_local":
			l.next()
			g.linkage += " thread_local"
			if l.tok == "(" {
				for l.tok != ")" {
					l.next()
				}
				l.next()
			}
			continue
		}
		break
	}
	switch l.tok {
	case "constant":
		g.isConst = true
	case "global":
	default:
		panic("ir: global " + ln)
	}
	l.next()
	g.ty = m.parseType(l).layout()
	if !g.isExtern {
		g.init = m.parseConst(l, g.ty)
	}
	g.id = len(m.gorder)
	m.globals[g.name] = g
	m.gorder = append(m.gorder, g.name)
}

type fnParser struct {
	m    *Module
	f    *Func
	regs map[string]int
	blks map[string]int
}

func (p *fnParser) reg(n string) int {
	if r, ok := p.regs[n]; ok {
		return r
	}
	r := p.f.nregs
	p.f.nregs++
	p.regs[n] = r
	p.f.regNames = append(p.f.regNames, n)
	return r
}

func (p *fnParser) blk(n string) int {
	b, ok := p.blks[n]
	if !ok {
		panic("ir: block " + n + " in " + p.f.name)
	}
	return b
}

func (p *fnParser) operand(l *lexer, ty *Type) Operand {
	if l.tok != "" && l.tok[0] == '%' {
		r := p.reg(l.tok)
		l.next()
		return Operand{k: OReg, reg: r, ty: ty}
	}
	ci := p.m.parseConst(l, ty)
	if ci.undef {
		return Operand{k: OUndef, ty: ty}
	}
	if ci.gref != "" {
		return Operand{k: OGlobal, g: ci.gref, c: uint64(ci.goff), ty: ty}
	}
	return Operand{k: OConst, c: ci.ival, ty: ty}
}

var binops = map[string]Opcode{"add": IAdd, "sub": ISub, "mul": IMul, "udiv": IUDiv, "sdiv": ISDiv, "urem": IURem, "srem": ISRem,
	"shl": IShl, "lshr": ILShr, "ashr": IAShr, "and": IAnd, "or": IOr, "xor": IXor}
var casts = map[string]Opcode{"zext": IZext, "sext": ISext, "trunc": ITrunc, "ptrtoint": IPtrToInt, "inttoptr": IIntToPtr, "bitcast": IBitcast}

var reDbg = regexp.MustCompile(`!dbg !(\d+)`)
var reFile = regexp.MustCompile(`file: !(\d+)`)
var reFilename = regexp.MustCompile(`filename: "([^"]*)"`)
var reLabel = regexp.MustCompile(`^("?[A-Za-z0-9_.$-]+"?):`)
var reLineNo = regexp.MustCompile(`line: (\d+)`)

func (m *Module) parseFunc(lines []string) {
	hdr := lines[0]
	f := &Func{dbg: -1}
	if g := reDbg.FindStringSubmatch(hdr); g != nil {
		f.dbg, _ = strconv.Atoi(g[1])
		if g2 := reFile.FindStringSubmatch(m.meta[f.dbg]); g2 != nil {
			id, _ := strconv.Atoi(g2[1])
			if g3 := reFilename.FindStringSubmatch(m.meta[id]); g3 != nil {
				f.file = g3[1]
				if i := strings.LastIndex(f.file, "/"); i >= 0 {
					f.file = f.file[i+1:]
				}
			}
		}
		if g2 := reLineNo.FindStringSubmatch(m.meta[f.dbg]); g2 != nil {
			f.line, _ = strconv.Atoi(g2[1])
		}
	}
	l := &lexer{s: hdr}
	l.next()
	l.expect("define")
	for {
		if l.tok == "internal" {
			f.internal = true
		}
		if attrWords[l.tok] {
			l.next()
			continue
		}
		break
	}
	l.skipAttrs()
	f.ret = m.parseType(l)
	l.skipAttrs()
	f.name = l.tok
	l.next()
	p := &fnParser{m: m, f: f, regs: map[string]int{}, blks: map[string]int{}}
	l.expect("(")
	np := 0
	for l.tok != ")" {
		if l.tok == "..." || l.tok == "." {
			f.varargs = true
			break
		}
		t := m.parseType(l)
		l.skipAttrs()
		nm := "%" + strconv.Itoa(np)
		if l.tok != "" && l.tok[0] == '%' {
			nm = l.tok
			l.next()
		}
		f.params = append(f.params, p.reg(nm))
		f.ptypes = append(f.ptypes, t)
		np++
		if !l.accept(",") {
			break
		}
	}
	// blocks: the entry block has no label
	cur := &Block{name: "entry"}
	f.blocks = append(f.blocks, cur)
	p.blks["%"+strconv.Itoa(np)] = 0
	p.blks["%entry"] = 0
	var bodies [][]string
	bodies = append(bodies, nil)
	first := true
	for i := 1; i < len(lines); i++ {
		ln := lines[i]
		if g := reLabel.FindStringSubmatch(ln); g != nil {
			if first && len(bodies[0]) == 0 {
				p.blks["%"+g[1]] = 0
				first = false
				continue
			}
			b := &Block{name: g[1]}
			p.blks["%"+g[1]] = len(f.blocks)
			f.blocks = append(f.blocks, b)
			bodies = append(bodies, nil)
			continue
		}
		t := strings.TrimSpace(ln)
		if t == "" || t[0] == ';' || strings.HasPrefix(t, "#dbg_") {
			continue
		}
		// multi-line switch
		if strings.HasPrefix(t, "switch ") {
			for !strings.Contains(t, "]") {
				i++
				t += " " + strings.TrimSpace(lines[i])
			}
		}
		if strings.Contains(t, "@llvm.dbg.") || strings.Contains(t, "@llvm.lifetime.") || strings.Contains(t, "@llvm.assume") {
			continue
		}
		n := len(bodies) - 1
		bodies[n] = append(bodies[n], t)
	}
	for bi, body := range bodies {
		for _, t := range body {
			in := p.parseInstr(t)
			in.fn = f
			in.idx = len(f.blocks[bi].ins)
			if in.op == IPhi {
				f.blocks[bi].nphi++
			}
			f.blocks[bi].ins = append(f.blocks[bi].ins, in)
			switch in.op {
			case IBr, ICondBr, ISwitch:
				f.blocks[bi].succ = append([]int{}, in.blk...)
			}
		}
		if len(body) == 0 {
			panic("ir: empty block in " + f.name)
		}
	}
	f.computeIpdom()
	m.funcs[f.name] = f
	m.forder = append(m.forder, f.name)
}

func (p *fnParser) parseInstr(t string) *Instr {
	in := &Instr{dst: -1, dbg: -1}
	if g := reDbg.FindStringSubmatch(t); g != nil {
		in.dbg, _ = strconv.Atoi(g[1])
		in.line = p.m.locLine[in.dbg]
	}
	// drop trailing metadata
	if i := strings.Index(t, ", !dbg"); i >= 0 {
		t = t[:i]
	}
	if i := strings.Index(t, ", !llvm."); i >= 0 {
		t = t[:i]
	}
	if i := strings.Index(t, ", !srcloc"); i >= 0 {
		t = t[:i]
	}
	m := p.m
	l := &lexer{s: t}
	l.next()
	if l.tok[0] == '%' {
		in.dst = p.reg(l.tok)
		l.next()
		l.expect("=")
	}
	op := l.tok
	l.next()
	if bo, ok := binops[op]; ok {
		in.op = bo
		for l.tok == "nsw" || l.tok == "nuw" || l.tok == "exact" || l.tok == "disjoint" {
			if l.tok == "nsw" {
				in.nsw = true
			}
			if l.tok == "nuw" {
				in.nuw = true
			}
			l.next()
		}
		in.ty = m.parseType(l)
		in.a = p.operand(l, in.ty)
		l.expect(",")
		in.b = p.operand(l, in.ty)
		return in
	}
	if co, ok := casts[op]; ok {
		in.op = co
		if l.tok == "nneg" || l.tok == "nuw" || l.tok == "nsw" {
			l.next()
		}
		st := m.parseType(l)
		in.a = p.operand(l, st)
		l.expect("to")
		in.ty = m.parseType(l)
		return in
	}
	switch op {
	case "ret":
		in.op = IRet
		in.ty = m.parseType(l)
		if in.ty.k != TVoid {
			in.a = p.operand(l, in.ty)
		}
	case "br":
		if l.tok == "label" {
			l.next()
			in.op = IBr
			in.blk = []int{p.blk(l.tok)}
		} else {
			ty := m.parseType(l)
			in.op = ICondBr
			in.a = p.operand(l, ty)
			l.expect(",")
			l.expect("label")
			b1 := p.blk(l.tok)
			l.next()
			l.expect(",")
			l.expect("label")
			b2 := p.blk(l.tok)
			in.blk = []int{b1, b2}
		}
	case "switch":
		in.op = ISwitch
		ty := m.parseType(l)
		in.a = p.operand(l, ty)
		l.expect(",")
		l.expect("label")
		in.blk = []int{p.blk(l.tok)}
		l.next()
		l.expect("[")
		for l.tok != "]" {
			ct := m.parseType(l)
			ci := m.parseConst(l, ct)
			l.expect(",")
			l.expect("label")
			in.cases = append(in.cases, ci.ival)
			in.blk = append(in.blk, p.blk(l.tok))
			l.next()
		}
	case "unreachable":
		in.op = IUnreachable
	case "alloca":
		in.op = IAlloca
		in.ty = m.parseType(l).layout()
		in.a = Operand{k: OConst, c: 1}
		if l.accept(",") {
			if l.tok != "align" {
				ct := m.parseType(l)
				in.a = p.operand(l, ct)
				l.accept(",")
			}
			in.algn = alignOf(l)
		}
	case "load":
		in.op = ILoad
		l.accept("volatile")
		in.ty = m.parseType(l).layout()
		l.expect(",")
		pt := m.parseType(l)
		in.a = p.operand(l, pt)
		l.accept(",")
		in.algn = alignOf(l)
	case "store":
		in.op = IStore
		l.accept("volatile")
		in.ty = m.parseType(l).layout()
		in.a = p.operand(l, in.ty)
		l.expect(",")
		pt := m.parseType(l)
		in.b = p.operand(l, pt)
		l.accept(",")
		in.algn = alignOf(l)
	case "getelementptr":
		in.op = IGep
		for l.tok == "inbounds" || l.tok == "nuw" || l.tok == "nusw" {
			in.inb = true
			l.next()
		}
		bt := m.parseType(l).layout()
		in.gepTy = bt
		l.expect(",")
		pt := m.parseType(l)
		in.a = p.operand(l, pt)
		cur := bt
		i := 0
		in.gconst = true
		arrN := 0
		for l.accept(",") {
			it := m.parseType(l)
			ix := p.operand(l, it)
			sc := int64(0)
			if i == 0 {
				sc = int64(cur.size)
			} else if cur.k == TArr {
				arrN = cur.n
				cur = cur.elem.layout()
				sc = int64(cur.size)
			} else {
				if ix.k != OConst {
					panic("ir: struct gep")
				}
				in.goff += int64(cur.offs[ix.c])
				cur = cur.fields[ix.c].layout()
				i++
				continue
			}
			if ix.k == OConst {
				v := int64(ix.c)
				if it.bits == 32 {
					v = int64(int32(ix.c))
				}
				in.goff += v * sc
			} else {
				in.gconst = false
				in.args = append(in.args, ix)
				in.gsc = append(in.gsc, sc)
				if i > 0 {
					in.gbound = append(in.gbound, int64(arrN))
				} else {
					in.gbound = append(in.gbound, -1)
				}
			}
			i++
		}
	case "icmp":
		in.op = IIcmp
		in.pred = l.tok
		l.next()
		if l.tok == "samesign" {
			l.next()
		}
		in.ty = m.parseType(l)
		in.a = p.operand(l, in.ty)
		l.expect(",")
		in.b = p.operand(l, in.ty)
	case "phi":
		in.op = IPhi
		in.ty = m.parseType(l)
		for l.tok == "[" {
			l.next()
			o := p.operand(l, in.ty)
			l.expect(",")
			in.args = append(in.args, o)
			in.phiBlk = append(in.phiBlk, p.blk(l.tok))
			l.next()
			l.expect("]")
			l.accept(",")
		}
	case "select":
		in.op = ISelect
		ct := m.parseType(l)
		in.a = p.operand(l, ct)
		l.expect(",")
		in.ty = m.parseType(l)
		in.b = p.operand(l, in.ty)
		l.expect(",")
		m.parseType(l)
		in.c = p.operand(l, in.ty)
	case "freeze":
		in.op = IFreeze
		in.ty = m.parseType(l)
		in.a = p.operand(l, in.ty)
	case "tail", "musttail", "notail", "call":
		if op != "call" {
			l.next()
		}
		in.op = ICall
		l.skipAttrs()
		in.ty = m.parseType(l)
		if l.tok == "(" { // full function type
			for l.tok != ")" {
				l.next()
			}
			l.next()
		}
		if l.tok == "asm" {
			// only the empty template (a compiler barrier) is understood
			for l.tok[0] != '"' {
				l.next()
			}
			if l.tok != `""` {
				panic("ir: inline assembly in " + p.f.name)
			}
			in.callee = "@svc.barrier"
			for l.tok != "(" {
				l.next()
			}
		} else if l.tok[0] == '@' {
			in.callee = l.tok
			l.next()
		} else {
			in.a = p.operand(l, tyPtr)
		}
		l.expect("(")
		for l.tok != ")" {
			at := m.parseType(l)
			if at.k == TMeta {
				panic("ir: metadata arg in " + t)
			}
			l.skipAttrs()
			in.args = append(in.args, p.operand(l, at))
			if !l.accept(",") {
				break
			}
		}
	default:
		panic(fmt.Sprintf("ir: instruction %q in %s", t, p.f.name))
	}
	return in
}

// computeIpdom computes immediate postdominators (-1: the function exit).
func (f *Func) computeIpdom() {
	n := len(f.blocks)
	// postdom sets via bitsets on reverse graph; functions are small
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << uint(i%64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64{}, full...)
	}
	pd[n] = make([]uint64, words)
	pd[n][n/64] |= 1 << uint(n%64)
	succ := make([][]int, n)
	for i, b := range f.blocks {
		if len(b.succ) == 0 {
			succ[i] = []int{n}
		} else {
			succ[i] = b.succ
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64{}, full...)
			for _, s := range succ[i] {
				for w := range nw {
					nw[w] &= pd[s][w]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>uint(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		best, bc := n, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]>>uint(j%64)&1 == 1 {
				if c := cnt(pd[j]); c > bc {
					bc = c
					best = j
				}
			}
		}
		if best == n {
			f.blocks[i].ipdom = -1
		} else {
			f.blocks[i].ipdom = best
		}
	}
}
