package main

// Structural analyses of the linked module: call graph, writable globals,
// external calls, stack allocation (C07), and the stack bound over the
// compiler's own frame sizes (C17).

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// apiEntry: the functions a user calls.
var apiEntry = []string{"@ts_gen_key", "@ts_init_sign", "@ts_sign", "@ts_init_verify", "@ts_update_verify", "@ts_verify", "@ts_size_signature", "@ts_size_private_key", "@ts_size_public_key"}

type callSite struct {
	in      *Instr
	direct  string
	targets []string // of an indirect call
	exact   bool     // targets come from a resolved structure field
	user    bool     // a function given by the caller
}

// structFns collects, per structure type and byte offset, the functions stored
// there by constant initialisers.
func (m *Module) structFns() map[string]map[int64][]string {
	out := map[string]map[int64][]string{}
	var walk func(ci *ConstInit)
	walk = func(ci *ConstInit) {
		ty := ci.ty.layout()
		for i, e := range ci.elems {
			if ty.k == TStruct && e.gref != "" && m.funcs[e.gref] != nil {
				if out[ty.name] == nil {
					out[ty.name] = map[int64][]string{}
				}
				out[ty.name][int64(ty.offs[i])] = addStr(out[ty.name][int64(ty.offs[i])], e.gref)
			}
			walk(e)
		}
	}
	for _, n := range m.gorder {
		if g := m.globals[n]; g.init != nil {
			walk(g.init)
		}
	}
	return out
}

func addStr(xs []string, s string) []string {
	for _, x := range xs {
		if x == s {
			return xs
		}
	}
	return append(xs, s)
}

// addressTaken: functions whose address appears anywhere except as a callee.
func (m *Module) addressTaken() []string {
	var out []string
	var walk func(ci *ConstInit)
	walk = func(ci *ConstInit) {
		if ci == nil {
			return
		}
		if ci.gref != "" && m.funcs[ci.gref] != nil {
			out = addStr(out, ci.gref)
		}
		for _, e := range ci.elems {
			walk(e)
		}
	}
	for _, n := range m.gorder {
		walk(m.globals[n].init)
	}
	for _, f := range m.funcs {
		for _, b := range f.blocks {
			for _, in := range b.ins {
				ops := append([]Operand{in.a, in.b, in.c}, in.args...)
				for _, o := range ops {
					if o.k == OGlobal && m.funcs[o.g] != nil {
						out = addStr(out, o.g)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func (m *Module) callSites(f *Func) []callSite {
	sf := m.structFns()
	def := map[int]*Instr{}
	par := map[int]bool{}
	for _, p := range f.params {
		par[p] = true
	}
	for _, b := range f.blocks {
		for _, in := range b.ins {
			if in.dst >= 0 {
				def[in.dst] = in
			}
		}
	}
	var out []callSite
	for _, b := range f.blocks {
		for _, in := range b.ins {
			if in.op != ICall {
				continue
			}
			cs := callSite{in: in}
			if in.callee != "" {
				cs.direct = in.callee
				out = append(out, cs)
				continue
			}
			// where does the pointer come from?
			seen := map[int]bool{}
			exact, user := true, false
			var trace func(o Operand)
			trace = func(o Operand) {
				if o.k == OGlobal {
					cs.targets = addStr(cs.targets, o.g)
					return
				}
				if o.k != OReg || seen[o.reg] {
					if o.k != OReg {
						exact = exact && o.k == OConst
					}
					return
				}
				seen[o.reg] = true
				if par[o.reg] {
					user = true
					return
				}
				d := def[o.reg]
				switch {
				case d == nil:
					exact = false
				case d.op == IPhi:
					for _, a := range d.args {
						trace(a)
					}
				case d.op == ISelect:
					trace(d.b)
					trace(d.c)
				case d.op == ILoad && d.a.k == OReg:
					g := def[d.a.reg]
					if g != nil && g.op == IGep && g.gconst && g.gepTy != nil && g.gepTy.k == TStruct {
						if ts := sf[g.gepTy.name][g.goff]; len(ts) > 0 {
							for _, t := range ts {
								cs.targets = addStr(cs.targets, t)
							}
							return
						}
					}
					exact = false
				default:
					exact = false
				}
			}
			trace(in.a)
			if !exact || user {
				// any function whose address is taken and that takes the same
				// number of arguments; a parameter may also be the caller's
				for _, n := range m.addressTaken() {
					if t := m.funcs[n]; len(t.params) == len(in.args) {
						cs.targets = addStr(cs.targets, n)
					}
				}
			}
			cs.exact, cs.user = exact && !user, user
			out = append(out, cs)
		}
	}
	return out
}

var pureExtern = map[string]bool{"memcpy": true, "memmove": true, "memset": true, "memcmp": true, "bcmp": true, "memchr": true, "strlen": true, "explicit_bzero": true, "__stack_chk_fail": true, "__assert_fail": true, "abort": true, "svc.barrier": true}

// rootOf follows address arithmetic back to a global, if there is only one.
func rootsOf(m *Module, f *Func, o Operand, def map[int]*Instr, seen map[int]bool, out map[string]bool) {
	if o.k == OGlobal {
		out[o.g] = true
		return
	}
	if o.k != OReg || seen[o.reg] {
		return
	}
	seen[o.reg] = true
	d := def[o.reg]
	if d == nil {
		return
	}
	switch d.op {
	case IGep, IBitcast, IFreeze, IIntToPtr, IPtrToInt, IAdd, ISub:
		rootsOf(m, f, d.a, def, seen, out)
		if d.op == IAdd {
			rootsOf(m, f, d.b, def, seen, out)
		}
	case IPhi:
		for _, a := range d.args {
			rootsOf(m, f, a, def, seen, out)
		}
	case ISelect:
		rootsOf(m, f, d.b, def, seen, out)
		rootsOf(m, f, d.c, def, seen, out)
	}
}

// hiddenState is C07's decision on one module.
func (c *Ctx) hiddenState(t *Tune, m *Module) {
	at := func(in *Instr) string {
		return fmt.Sprintf("%s:%d (%s)", in.fn.file, in.line, strings.TrimPrefix(in.fn.name, "@"))
	}
	// functions reachable from the API
	reach := map[string]bool{}
	edges := map[string][]string{}
	fuzzy := map[[2]string]bool{}
	var todo []string
	for _, e := range apiEntry {
		if m.funcs[e] == nil {
			panic("API function " + e + " not found")
		}
		todo = append(todo, e)
	}
	for n := range m.funcs { // every function of the library is in scope
		todo = append(todo, n)
	}
	sort.Strings(todo)
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		f := m.funcs[n]
		if reach[n] || f == nil {
			continue
		}
		reach[n] = true
		for _, cs := range m.callSites(f) {
			c.count("call_sites", 1)
			if cs.direct != "" {
				nm := strings.TrimPrefix(cs.direct, "@")
				if m.funcs[cs.direct] != nil {
					edges[n] = addStr(edges[n], cs.direct)
					todo = append(todo, cs.direct)
				} else {
					c.ok(strings.HasPrefix(nm, "llvm.") && !strings.HasPrefix(nm, "llvm.va_") && !strings.HasPrefix(nm, "llvm.stacksave") || strings.HasPrefix(nm, "llvm.stack") || pureExtern[nm],
						"external-call", at(cs.in), "calls %s, which is neither part of the library nor a pure memory primitive", nm)
				}
				continue
			}
			c.count("indirect_call_sites", 1)
			c.ok(cs.exact || cs.user || len(cs.targets) > 0, "external-call", at(cs.in), "indirect call whose target is not a function of the library or the caller's random source")
			for _, t := range cs.targets {
				if m.funcs[t] == nil {
					c.ok(pureExtern[strings.TrimPrefix(t, "@")], "external-call", at(cs.in), "indirect call of %s", t)
					continue
				}
				if !cs.exact && !containsStr(edges[n], t) {
					fuzzy[[2]string{n, t}] = true
				}
				edges[n] = addStr(edges[n], t)
				todo = append(todo, t)
			}
		}
	}
	// recursion: a cycle in the call graph
	color := map[string]int{}
	var stack []string
	var dfs func(n string)
	dfs = func(n string) {
		color[n] = 1
		stack = append(stack, n)
		for _, t := range edges[n] {
			if color[t] == 1 {
				i := len(stack) - 1
				for stack[i] != t {
					i--
				}
				cyc := append(append([]string{}, stack[i:]...), t)
				sure := true
				for k := 0; k+1 < len(cyc); k++ {
					if fuzzy[[2]string{cyc[k], cyc[k+1]}] {
						sure = false
					}
				}
				f := m.funcs[t]
				if sure {
					c.ok(false, "recursion", f.file+" ("+strings.TrimPrefix(t, "@")+")", "recursive call chain %s", strings.Join(cyc, " > "))
				} else {
					c.undecided("possible recursion through an indirect call: %s", strings.Join(cyc, " > "))
				}
			} else if color[t] == 0 {
				dfs(t)
			}
		}
		stack = stack[:len(stack)-1]
		color[n] = 2
	}
	var names []string
	for n := range reach {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if color[n] == 0 {
			dfs(n)
		}
		c.ok(true, "recursion", "", "")
	}
	c.count("functions", len(names))
	// stack allocation and stores to globals
	written := map[string]*Instr{}
	for _, n := range names {
		f := m.funcs[n]
		def := map[int]*Instr{}
		for _, b := range f.blocks {
			for _, in := range b.ins {
				if in.dst >= 0 {
					def[in.dst] = in
				}
			}
		}
		mark := func(o Operand, in *Instr) {
			rs := map[string]bool{}
			rootsOf(m, f, o, def, map[int]bool{}, rs)
			for r := range rs {
				if written[r] == nil {
					written[r] = in
				}
			}
		}
		for _, b := range f.blocks {
			for _, in := range b.ins {
				switch in.op {
				case IAlloca:
					c.count("stack_allocations", 1)
					c.ok(in.a.k == OConst, "vla", at(in), "stack allocation whose size is not a compile-time constant")
				case IStore:
					c.count("stores", 1)
					mark(in.b, in) // the address
					mark(in.a, in) // a stored address may be written through
				case ICall:
					for i, a := range in.args {
						// a source operand of a copy is only read
						if i == 1 && (strings.HasPrefix(in.callee, "@llvm.mem") || in.callee == "@memcpy" || in.callee == "@memmove") {
							continue
						}
						if in.callee == "@memcmp" || in.callee == "@bcmp" {
							continue
						}
						mark(a, in)
					}
				case IRet:
					mark(in.a, in)
				}
			}
		}
	}
	for _, n := range m.gorder {
		g := m.globals[n]
		if strings.HasPrefix(n, "@svc_") || g.isExtern || strings.HasPrefix(n, "@llvm.") {
			continue
		}
		c.count("globals", 1)
		if g.isConst {
			c.ok(true, "writable-global", "", "")
			continue
		}
		if w := written[n]; w != nil {
			c.ok(false, "writable-global", at(w), "writable global or static object %s is written or escapes here", strings.TrimPrefix(n, "@"))
		} else {
			c.undecided("global %s is not constant but nothing in the library writes it", n)
		}
	}
	for _, n := range m.gorder {
		if g := m.globals[n]; g.isExtern && m.globals[n].init == nil {
			c.ok(false, "external-data", strings.TrimPrefix(n, "@"), "refers to data defined outside the library")
		}
	}
}

func containsStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// ---------- stack bound

type ramFig struct{ ctx, key, sig, ver int }

// the documented figures (ramspace.out)
var documented = map[string]ramFig{
	"sha2_128f": {472, 976, 1024, 992}, "sha2_128s": {568, 1072, 1120, 1088},
	"sha2_192f": {768, 1296, 1456, 1408}, "sha2_192s": {912, 1440, 1600, 1552},
	"sha2_256f": {872, 1408, 1568, 1536}, "sha2_256s": {1032, 1568, 1728, 1696},
	"shake_128f": {672, 1104, 1120, 928}, "shake_128s": {768, 1200, 1216, 1024},
	"shake_192f": {776, 1216, 1232, 1040}, "shake_192s": {920, 1360, 1376, 1184},
	"shake_256f": {880, 1312, 1328, 1136}, "shake_256s": {1040, 1472, 1488, 1296},
}

type gnode struct {
	name  string
	stack int
	dyn   bool
	out   []string
	ind   bool
	where string
}

var reNode = regexp.MustCompile(`^node: \{ title: "([^"]*)" label: "([^"]*)"`)
var reEdge = regexp.MustCompile(`^edge: \{ sourcename: "([^"]*)" targetname: "([^"]*)"`)
var reBytes = regexp.MustCompile(`(\d+) bytes \(([a-z,]+)\)`)

func (c *Ctx) stackBound(ps *PS) {
	t := minimalTune(ps)
	doc := documented[ps.name]
	mp, err := c.moduleLocked(t)
	if err != nil {
		panic(err)
	}
	m, err := LoadModule(mp)
	if err != nil {
		panic(err)
	}
	d := filepath.Join(c.dir, "su-"+ps.name)
	os.MkdirAll(d, 0755)
	nodes := map[string]*gnode{}
	for _, s := range libSources() {
		base := strings.TrimSuffix(filepath.Base(s), ".c")
		args := append([]string{"-Os", "-fomit-frame-pointer", "-fno-stack-protector", "-w", "-fstack-usage", "-fcallgraph-info=su", "-I" + repoDir, "-c", "-o", filepath.Join(d, base+".o")}, t.flags()...)
		if o, err := runCmd(d, "gcc", append(args, s)...); err != nil {
			panic(fmt.Sprintf("gcc %s (%s): %v\n%s", s, t, err, o))
		}
		f, err := os.Open(filepath.Join(d, base+".ci"))
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			if g := reNode.FindStringSubmatch(sc.Text()); g != nil {
				b := reBytes.FindStringSubmatch(g[2])
				if b == nil {
					continue
				}
				n := nodes[g[1]]
				if n == nil {
					n = &gnode{name: g[1]}
					nodes[g[1]] = n
				}
				n.stack, _ = strconv.Atoi(b[1])
				n.dyn = strings.HasPrefix(b[2], "dynamic") && !strings.Contains(b[2], "bounded")
				if p := strings.Split(g[2], `\n`); len(p) > 1 {
					q := strings.Split(p[1], ":")
					n.where = filepath.Base(q[0])
					if len(q) > 1 {
						n.where += ":" + q[1]
					}
				}
				c.count("frames", 1)
			} else if g := reEdge.FindStringSubmatch(sc.Text()); g != nil {
				n := nodes[g[1]]
				if n == nil {
					n = &gnode{name: g[1]}
					nodes[g[1]] = n
				}
				if g[2] == "__indirect_call" {
					n.ind = true
				} else {
					n.out = addStr(n.out, g[2])
				}
				c.count("call_edges", 1)
			}
		}
		f.Close()
	}
	// a static function's title is "file.c:name"
	short := func(n string) string {
		if i := strings.LastIndex(n, ":"); i >= 0 {
			n = n[i+1:]
		}
		if i := strings.Index(n, "."); i >= 0 {
			n = n[:i]
		}
		return n
	}
	byIR := map[string][]string{}
	for n := range nodes {
		byIR[short(n)] = append(byIR[short(n)], n)
	}
	// targets of the indirect calls in a compiled function: those of its
	// source function and of everything inlined into it
	indOf := func(n string) []string {
		var out []string
		seen := map[string]bool{}
		var walk func(f string)
		walk = func(f string) {
			if seen[f] || m.funcs[f] == nil {
				return
			}
			seen[f] = true
			for _, cs := range m.callSites(m.funcs[f]) {
				if cs.direct != "" {
					if len(byIR[cs.direct[1:]]) == 0 {
						walk(cs.direct)
					}
					continue
				}
				if cs.user && len(cs.targets) > 0 {
					// the random source is not part of the library
					continue
				}
				for _, t := range cs.targets {
					if _, ok := byIR[t[1:]]; ok {
						out = addStr(out, t[1:])
					}
				}
			}
		}
		walk("@" + short(n))
		return out
	}
	memo := map[string]int{}
	path := map[string]string{}
	on := map[string]bool{}
	var depth func(n string) int
	depth = func(n string) int {
		if v, ok := memo[n]; ok {
			return v
		}
		g := nodes[n]
		if g == nil { // external primitive: one return address
			return 8
		}
		if on[n] {
			c.ok(false, "recursion", g.where+" ("+short(n)+")", "%s: recursive call: the stack has no bound", ps.name)
			return 0
		}
		on[n] = true
		c.ok(!g.dyn, "dynamic-stack", g.where+" ("+short(n)+")", "%s: the frame has no static bound", ps.name)
		best, bp := 0, ""
		outs := append([]string{}, g.out...)
		if g.ind {
			for _, t := range indOf(n) {
				outs = append(outs, byIR[t]...)
			}
		}
		for _, o := range outs {
			if v := depth(o); v > best {
				best, bp = v, path[o]
				if bp == "" {
					bp = short(o)
				}
			}
		}
		on[n] = false
		memo[n] = g.stack + best
		path[n] = fmt.Sprintf("%s(%d)", short(n), g.stack)
		if bp != "" {
			path[n] += ">" + bp
		}
		return memo[n]
	}
	entry := func(fs ...string) (int, string) {
		best, bp := 0, ""
		for _, f := range fs {
			if len(byIR[f]) == 0 {
				panic("function " + f + " not found in the compiler's call graph")
			}
			for _, n := range byIR[f] {
				if v := depth(n); v > best {
					best, bp = v, path[n]
				}
			}
		}
		return best, bp
	}
	sz, ok := m.constU64("@svc_ctx_size")
	if !ok {
		panic("no context size")
	}
	key, kp := entry("ts_gen_key")
	sig, sp := entry("ts_init_sign", "ts_sign")
	ver, vp := entry("ts_init_verify", "ts_update_verify", "ts_verify")
	lim := func(d int) int { return d + d/4 }
	c.ok(int(sz) <= lim(doc.ctx), "context-size", "tiny_sphincs.h (struct ts_context)", "%s: the context takes %d bytes, documented %d", ps.name, sz, doc.ctx)
	c.ok(key <= lim(doc.key), "keygen-stack", kp, "%s: key generation may use %d bytes, documented %d", ps.name, key, doc.key)
	c.ok(sig+int(sz) <= lim(doc.sig), "sign-ram", sp, "%s: signing may use %d bytes (context %d), documented %d", ps.name, sig+int(sz), sz, doc.sig)
	c.ok(ver+int(sz) <= lim(doc.ver), "verify-ram", vp, "%s: verification may use %d bytes (context %d), documented %d", ps.name, ver+int(sz), sz, doc.ver)
	c.mu.Lock()
	c.samples = append(c.samples, fmt.Sprintf("%s: ctx %d/%d keygen %d/%d sign %d/%d verify %d/%d (static bound/documented); deepest signing path %s", ps.name, sz, doc.ctx, key, doc.key, sig+int(sz), doc.sig, ver+int(sz), doc.ver, sp))
	c.mu.Unlock()
}

var modMu sync.Mutex

func (c *Ctx) moduleLocked(t *Tune) (string, error) {
	p, err := buildIR(t, filepath.Join(c.dir, "m"))
	modMu.Lock()
	c.mods[t.id()], c.modErr[t.id()] = p, err
	modMu.Unlock()
	return p, err
}

// parDo runs f on 0..n-1 in parallel, turning panics into analysis errors.
func (c *Ctx) parDo(n int, what func(i int) string, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					c.mu.Lock()
					c.results = append(c.results, &Result{Job: what(i), Error: fmt.Sprint(r)})
					c.mu.Unlock()
				}
			}()
			f(i)
		}(i)
	}
	wg.Wait()
}
