package main

// The check driver: for one property, which modules are built from /repo's
// current sources, which analyses run on them, and how their findings become
// a verdict and an evidence file.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Job struct {
	tune *Tune
	spec string
	mem  int // GB
	secs int
}

type Plan struct {
	jobs      []Job
	local     func(c *Ctx)                     // structural analyses that run in this process
	rules     map[string]bool                  // kinds of events that violate this property
	only      func(rule string) bool           // which job findings count for this property
	onlyEvent func(job, kind, msg string) bool // further events that count
}

type Check struct {
	id        string
	technique string
	note      string
	explain   string
	rules     []string
	plan      func(thorough bool) *Plan
}

type Ctx struct {
	id       string
	thorough bool
	dir      string
	seed     int
	mods     map[string]string
	modErr   map[string]error
	oblig    int
	done     int
	viols    []Viol
	und      []string
	units    map[string]int
	samples  []string
	results  []*Result
	deadline time.Time
	pl       *Plan
	stop     atomic.Bool
	procMu   sync.Mutex
	procs    []*os.Process
	mu       sync.Mutex
	vper     map[string]map[string]string // tuning -> unit:function -> variant
	vunits   map[string][]string
}

func (c *Ctx) left() time.Duration { return time.Until(c.deadline) }

func (c *Ctx) ok(cond bool, rule, where, f string, a ...interface{}) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.oblig++
	if cond {
		c.done++
		return true
	}
	c.viols = append(c.viols, Viol{Rule: rule, Where: where, Msg: fmt.Sprintf(f, a...)})
	return false
}

func (c *Ctx) undecided(f string, a ...interface{}) {
	c.mu.Lock()
	c.und = append(c.und, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *Ctx) count(k string, n int) {
	c.mu.Lock()
	c.units[k] += n
	c.mu.Unlock()
}

// module builds (once) the linked module of a tuning.
func (c *Ctx) module(t *Tune) (string, error) {
	id := t.id()
	if e, ok := c.modErr[id]; ok && e != nil {
		return "", e
	}
	if p, ok := c.mods[id]; ok {
		return p, nil
	}
	p, err := buildIR(t, c.dir)
	c.mods[id], c.modErr[id] = p, err
	return p, err
}

const maxParallel = 8
const memBudget = 26 // GB

// fresh: the findings of a result that count and are not listed as known.
func (c *Ctx) fresh(pl *Plan, r *Result) (vs []Viol) {
	for _, v := range r.Viols {
		if pl.only == nil || pl.only(v.Rule) {
			vs = append(vs, v)
		}
	}
	for _, v := range r.Events {
		if pl.rules[v.Rule] || pl.onlyEvent != nil && pl.onlyEvent(r.Job, v.Rule, v.Msg) {
			vs = append(vs, v)
		}
	}
	for i := range vs {
		vs[i].Msg = r.Job + ": " + vs[i].Msg
	}
	return
}

func isKnown(known []string, v Viol) bool {
	for _, k := range known {
		if k == v.Rule+" @ "+v.Where {
			return true
		}
	}
	return false
}

func (c *Ctx) runJobs(pl *Plan, total time.Duration) {
	jobs := pl.jobs
	known := knownFindings(c.id)
	deadline := time.Now().Add(total)
	type done struct {
		i int
		r *Result
	}
	// the heaviest first
	order := make([]int, len(jobs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return jobs[order[a]].secs > jobs[order[b]].secs })
	res := make([]*Result, len(jobs))
	ch := make(chan done)
	run, mem, next := 0, 0, 0
	pend := append([]int{}, order...)
	_ = next
	for len(pend) > 0 || run > 0 {
		started := false
		for k, i := range pend {
			j := jobs[i]
			if run < maxParallel && (mem+j.mem <= memBudget || run == 0) {
				pend = append(pend[:k:k], pend[k+1:]...)
				run++
				mem += j.mem
				started = true
				go func(i int, j Job) {
					ch <- done{i, c.spawn(j, deadline)}
				}(i, j)
				break
			}
		}
		if started {
			continue
		}
		d := <-ch
		run--
		mem -= jobs[d.i].mem
		res[d.i] = d.r
		for _, v := range c.fresh(pl, d.r) {
			if !isKnown(known, v) && !c.stop.Load() {
				// the verdict is settled: end the other analyses soon
				c.stop.Store(true)
				for _, i := range pend {
					res[i] = &Result{Job: jobs[i].spec + "@" + jobs[i].tune.String(), Unknown: []string{"not started: a violation was found before"}}
				}
				pend = nil
				time.AfterFunc(5*time.Second, c.killAll)
			}
		}
	}
	c.results = append(c.results, res...)
}

func (c *Ctx) spawn(j Job, deadline time.Time) *Result {
	name := j.spec + "@" + j.tune.String()
	fail := func(f string, a ...interface{}) *Result {
		return &Result{Job: name, Error: fmt.Sprintf(f, a...)}
	}
	mod, err := c.mods[j.tune.id()], c.modErr[j.tune.id()]
	if err != nil {
		return fail("%v", err)
	}
	secs := time.Duration(j.secs) * time.Second
	if left := time.Until(deadline); secs > left {
		secs = left
	}
	if secs < time.Second {
		return &Result{Job: name, Unknown: []string{"not started: time budget of the check exhausted"}}
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "job", mod, j.spec)
	cmd.Env = append(os.Environ(), fmt.Sprintf("SVC_MEM=%d", j.mem), fmt.Sprintf("SVC_SECS=%d", int(secs.Seconds())), fmt.Sprintf("SVC_TUNE=%s", j.tune.id()))
	tm := time.AfterFunc(secs+10*time.Second, func() {
		c.procMu.Lock()
		defer c.procMu.Unlock()
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	var ob bytes.Buffer
	cmd.Stdout = &ob
	c.procMu.Lock()
	err = cmd.Start()
	if err == nil {
		c.procs = append(c.procs, cmd.Process)
	}
	c.procMu.Unlock()
	if err == nil {
		err = cmd.Wait()
	}
	tm.Stop()
	out := ob.Bytes()
	r := &Result{}
	if jerr := json.Unmarshal(out, r); jerr != nil {
		return &Result{Job: name, Unknown: []string{fmt.Sprintf("analysis process ended early (%v)", err)}}
	}
	r.Job = name
	return r
}

func (c *Ctx) killAll() {
	c.procMu.Lock()
	defer c.procMu.Unlock()
	for _, p := range c.procs {
		p.Kill()
	}
}

// known findings: lines "known: property=<id> <rule> @ <where>"
func knownFindings(id string) (pats []string) {
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		if p := "known: property=" + id + " "; strings.HasPrefix(t, p) {
			pats = append(pats, strings.TrimPrefix(t, p))
		}
	}
	return
}

var verifDir = "/verif"

func checkMain(id, tier string) int {
	t0 := time.Now()
	var ck *Check
	for i := range checks {
		if checks[i].id == id {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	dir, err := os.MkdirTemp("", "svc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	c := &Ctx{id: id, thorough: tier == "thorough", dir: dir, seed: seed, mods: map[string]string{}, modErr: map[string]error{}, units: map[string]int{}}
	pl := ck.plan(c.thorough)
	c.pl = pl
	need := map[string]*Tune{}
	var ids []string
	for _, j := range pl.jobs {
		if _, ok := need[j.tune.id()]; !ok {
			need[j.tune.id()] = j.tune
			ids = append(ids, j.tune.id())
		}
	}
	sort.Strings(ids)
	var wg sync.WaitGroup
	sem := make(chan bool, 3)
	var mu sync.Mutex
	for _, k := range ids {
		wg.Add(1)
		go func(k string) {
			defer wg.Done()
			sem <- true
			p, err := buildIR(need[k], dir)
			<-sem
			mu.Lock()
			c.mods[k], c.modErr[k] = p, err
			mu.Unlock()
		}(k)
	}
	wg.Wait()
	budget := 760 * time.Second
	if c.thorough {
		budget = 3 * time.Hour
	}
	if os.Getenv("SVC_BUDGET") != "" {
		b, _ := strconv.Atoi(os.Getenv("SVC_BUDGET"))
		budget = time.Duration(b) * time.Second
	}
	c.deadline = t0.Add(budget)
	c.runJobs(pl, c.left())
	func() {
		if pl.local == nil || c.stop.Load() {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("SVC_PANIC") != "" {
					panic(r)
				}
				c.results = append(c.results, &Result{Job: "structural", Error: fmt.Sprint(r)})
			}
		}()
		pl.local(c)
	}()
	return c.finish(ck, pl, t0, tier)
}

func (c *Ctx) finish(ck *Check, pl *Plan, t0 time.Time, tier string) int {
	type jobSum struct {
		Job       string            `json:"job"`
		Oblig     int               `json:"obligations"`
		Done      int               `json:"discharged"`
		Info      map[string]string `json:"info,omitempty"`
		Unknown   []string          `json:"unknown,omitempty"`
		Undecided []string          `json:"undecided,omitempty"`
		Error     string            `json:"error,omitempty"`
		WallS     float64           `json:"wall_s"`
	}
	var sums []jobSum
	fset := map[string]bool{}
	var steps, calls, br, acc, hs, joins int64
	symbr := 0
	errs := 0
	complete := 0
	for _, r := range c.results {
		js := jobSum{Job: r.Job, Oblig: r.Oblig, Done: r.Done, Info: r.Info, Unknown: r.Unknown, Undecided: r.Undecided, Error: r.Error, WallS: r.WallS}
		c.oblig += r.Oblig
		c.done += r.Done
		steps += r.Steps
		calls += r.Calls
		br += r.Branches
		acc += r.Accesses
		hs += r.Hashes
		joins += r.Splits
		symbr += r.SymBr
		for _, f := range r.Funcs {
			fset[f] = true
		}
		c.viols = append(c.viols, c.fresh(pl, r)...)
		if r.Error != "" {
			errs++
		} else if len(r.Unknown) == 0 && len(r.Undecided) == 0 {
			complete++
		}
		sums = append(sums, js)
	}
	var fl []string
	for f := range fset {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	known := knownFindings(c.id)
	var fresh []Viol
	kn := map[string]bool{}
	for _, v := range c.viols {
		key := v.Rule + " @ " + v.Where
		if isKnown(known, v) {
			kn[key] = true
		} else {
			fresh = append(fresh, v)
		}
	}
	rules := append([]string{}, ck.rules...)
	for k := range pl.rules {
		rules = append(rules, "no "+k+" event")
	}
	sort.Strings(rules)
	cov := map[string]interface{}{
		"explanation":                 ck.explain,
		"rule":                        strings.Join(rules, "; "),
		"obligations":                 c.oblig,
		"discharged":                  c.done,
		"analyses":                    len(c.results),
		"analyses_complete":           complete,
		"functions_analysed":          fl,
		"ir_instructions_interpreted": steps,
		"calls_analysed":              calls,
		"branches_evaluated":          br,
		"symbolic_branch_sites":       symbr,
		"memory_accesses_checked":     acc,
		"hash_applications":           hs,
		"joins":                       joins,
		"jobs":                        sums,
		"structural_units":            c.units,
		"structural_undecided":        c.und,
		"samples":                     c.samples,
	}
	for _, r := range c.results {
		if len(c.samples) < 40 && r.Error == "" {
			c.samples = append(c.samples, fmt.Sprintf("%s: %d/%d obligations, %d calls, %d hash applications %v", r.Job, r.Done, r.Oblig, r.Calls, r.Hashes, r.Info))
		}
	}
	for k, v := range map[string]*[]string{"samples": &c.samples, "functions_analysed": &fl, "structural_undecided": &c.und} {
		if *v == nil {
			*v = []string{}
		}
		cov[k] = *v
	}
	level := "other"
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": c.seed, "level": level,
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
	}
	fmt.Printf("%s (%s): %d/%d obligations discharged, %d analyses (%d complete, %d in error), %.1f s\n", c.id, tier, c.done, c.oblig, len(c.results), complete, errs, time.Since(t0).Seconds())
	for _, s := range sums {
		if s.Error != "" || len(s.Unknown) > 0 || len(s.Undecided) > 0 {
			fmt.Printf("  not decided: %s: %s\n", s.Job, clip(s.Error+strings.Join(append(s.Unknown, s.Undecided...), " | ")))
		}
	}
	for _, s := range c.und {
		fmt.Printf("  not decided: %s\n", clip(s))
	}
	if len(fresh) > 0 {
		rp := filepath.Join(verifDir, "evidence", c.id+".violation.json")
		vb, _ := json.MarshalIndent(fresh, "", " ")
		os.WriteFile(rp, append(vb, '\n'), 0644)
		for i, v := range fresh {
			if i >= 12 {
				fmt.Printf("  ... and %d more\n", len(fresh)-i)
				break
			}
			fmt.Printf("  [%s] %s: %s", v.Rule, v.Where, clip(v.Msg))
			if v.Stack != "" {
				fmt.Printf(" (path %s)", v.Stack)
			}
			fmt.Println()
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
		return 1
	}
	os.Remove(filepath.Join(verifDir, "evidence", c.id+".violation.json"))
	if len(c.results)+c.oblig == 0 || len(c.results) > 0 && errs == len(c.results) {
		fmt.Fprintln(os.Stderr, "nothing could be analysed: the analysis is not in a position to give a verdict")
		return 2
	}
	return 0
}

var assumptions = []string{
	"clang-18 -O0 IR (after mem2reg) represents the source; target x86-64, little endian, 8-bit bytes",
	"the analysis engine (/verif/engine) implements its transfer functions and normal forms correctly",
	"hash primitives are replaced by their specification at their call boundary except in C18-C20, which decide that specification",
}
