package main

// Variants of a function: its IR text differs between tunings. Every variant
// that occurs in no tuning already analysed gets an analysis of its own.

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

var reVStr = regexp.MustCompile(`@[\w.]+`)
var reVAnon = regexp.MustCompile(`\.anon(\.\d+)?`)
var reVArr = regexp.MustCompile(`\[\d+ x`)
var reVAlign = regexp.MustCompile(`,? ?align \d+`)
var reVMeta = regexp.MustCompile(`,? !\w+( !\d+)?`)
var reVAttr = regexp.MustCompile(` #\d+`)
var reVNum = regexp.MustCompile(`\bi64 (?:noundef )?\d+\b`)
var reVSz = regexp.MustCompile(`@svc_sz\w* = .*constant i64 (\d+)`)
var reVDef = regexp.MustCompile(`^define .*@([\w.]+)\(`)
var reVGlob = regexp.MustCompile(`^@([\w.]+) = (.*)$`)

// unitVariants maps the functions and tables of one unit's IR to a text that
// does not depend on array sizes or the size of the context.
func unitVariants(ll string) map[string]string {
	out := map[string]string{}
	priv := map[string]string{}
	szs := map[string]bool{}
	for _, m := range reVSz.FindAllStringSubmatch(ll, -1) {
		szs[m[1]] = true
	}
	norm := func(ln string) string {
		ln = reVAlign.ReplaceAllString(ln, "")
		ln = reVMeta.ReplaceAllString(ln, "")
		ln = reVAttr.ReplaceAllString(ln, "")
		ln = reVAnon.ReplaceAllString(ln, ".anon")
		return reVArr.ReplaceAllString(ln, "[ x")
	}
	lines := strings.Split(ll, "\n")
	for _, ln := range lines {
		if m := reVGlob.FindStringSubmatch(ln); m != nil && !strings.HasPrefix(m[1], "svc_sz") {
			t := norm(m[2])
			if strings.HasPrefix(m[2], "private ") || strings.HasPrefix(m[2], "internal ") {
				priv[m[1]] = t
			} else if !strings.HasPrefix(m[2], "external ") {
				out[m[1]] = t
			}
		}
	}
	res := func(ln string) string {
		return reVStr.ReplaceAllStringFunc(ln, func(s string) string {
			if t, ok := priv[s[1:]]; ok {
				return "{" + t + "}"
			}
			return s
		})
	}
	cur, name := []string(nil), ""
	for _, ln := range lines {
		if m := reVDef.FindStringSubmatch(ln); m != nil {
			name, cur = m[1], []string{}
		}
		if cur == nil {
			continue
		}
		if ln == "}" {
			out[name] = strings.Join(cur, "\n")
			cur = nil
			continue
		}
		ln = norm(ln)
		if strings.Contains(ln, "@llvm.mem") || strings.Contains(ln, "@memset") || strings.Contains(ln, "@memcpy") || strings.Contains(ln, "@memmove") {
			ln = reVNum.ReplaceAllStringFunc(ln, func(s string) string {
				if szs[s[strings.LastIndexByte(s, ' ')+1:]] {
					return "i64 SZ"
				}
				return s
			})
		}
		cur = append(cur, res(ln))
	}
	return out
}

// variants: per tuning, "unit:function" to variant.
func (c *Ctx) variants(tunes []*Tune) (map[string]map[string]string, map[string][]string) {
	d := filepath.Join(c.dir, "variants")
	os.MkdirAll(d, 0755)
	srcs := libSources()
	type entry struct {
		once sync.Once
		v    map[string]string
	}
	memo := map[[32]byte]*entry{}
	var mu sync.Mutex
	per := map[string]map[string]string{}
	units := map[string][]string{}
	c.parDo(len(tunes), func(i int) string { return tunes[i].String() }, func(i int) {
		t := tunes[i]
		mine := map[string]string{}
		for _, s := range srcs {
			cmd := exec.Command("gcc", append(append([]string{"-E", "-P", "-I" + repoDir}, t.flags()...), s)...)
			cmd.Dir = d
			pp, err := cmd.Output()
			if err != nil {
				return // the compile matrix reports it
			}
			h := sha256.Sum256(pp)
			mu.Lock()
			e := memo[h]
			if e == nil {
				e = &entry{}
				memo[h] = e
			}
			mu.Unlock()
			e.once.Do(func() {
				f := filepath.Join(d, fmt.Sprintf("%x.c", h[:8]))
				if strings.Contains(string(pp), "struct ts_context {") {
					pp = append(pp, "\nconst unsigned long svc_sz = sizeof(struct ts_context);\n"...)
				}
				os.WriteFile(f, pp, 0644)
				cl := exec.Command("clang-18", "-S", "-emit-llvm", "-O0", "-w", "-fno-builtin", "-o", "-", f)
				cl.Dir = d
				ll, err := cl.Output()
				os.Remove(f)
				if err == nil {
					e.v = unitVariants(string(ll))
				}
			})
			if e.v == nil {
				return
			}
			b := filepath.Base(s)
			var fs []string
			for k, v := range e.v {
				mine[b+":"+k] = v
				fs = append(fs, k)
			}
			mu.Lock()
			units[b] = append(units[b], fs...)
			mu.Unlock()
		}
		mu.Lock()
		per[t.id()] = mine
		mu.Unlock()
	})
	c.count("tunings_with_variants", len(per))
	return per, units
}

// uncovered picks tunings whose functions have a variant that none of base has.
func (c *Ctx) uncovered(per map[string]map[string]string, base []*Tune, keep func(fn string) bool, max int) []*Tune {
	have := map[string]bool{}
	key := func(f, v string) string { return f + "\x00" + v }
	for _, t := range base {
		for f, v := range per[t.id()] {
			have[key(f, v)] = true
		}
	}
	var ids []string
	for id := range per {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	all, missing := map[string]bool{}, map[string][]string{}
	for _, id := range ids {
		for f, v := range per[id] {
			if !keep(f) {
				continue
			}
			all[key(f, v)] = true
			if !have[key(f, v)] {
				missing[id] = append(missing[id], key(f, v))
			}
		}
	}
	var out []*Tune
	for len(out) < max {
		best, bn := "", 0
		for _, id := range ids {
			k := 0
			for _, x := range missing[id] {
				if !have[x] {
					k++
				}
			}
			if k > bn {
				best, bn = id, k
			}
		}
		if bn == 0 {
			break
		}
		why := ""
		for _, x := range missing[best] {
			if !have[x] {
				why += " " + strings.SplitN(x, "\x00", 2)[0]
			}
			have[x] = true
		}
		t := parseTune(best)
		c.samples = append(c.samples, fmt.Sprintf("tuning %s has function variants of its own:%s", t, clip(why)))
		out = append(out, t)
	}
	c.count("function_variants", len(all))
	left := 0
	for _, id := range ids {
		for _, x := range missing[id] {
			if !have[x] {
				left++
			}
		}
	}
	if left > 0 {
		c.undecided("%d function variants occur only in tunings that are not analysed", left)
	}
	return out
}

// variantJobs analyses the tunings whose code occurs in no tuning of base.
func (c *Ctx) variantJobs(keep func(unit string, defs map[string]bool) bool, base []*Tune, max int, mk func(t *Tune) []Job) {
	tunes := allTunes()
	for _, t := range base {
		if t == nil {
			tunes = append(tunes, nil)
		}
	}
	if c.vper == nil {
		c.vper, c.vunits = c.variants(tunes)
	}
	kept := map[string]bool{}
	for u, fs := range c.vunits {
		defs := map[string]bool{}
		for _, f := range fs {
			defs["@"+f] = true
		}
		kept[u] = keep(u, defs)
	}
	extra := c.uncovered(c.vper, base, func(fn string) bool { return kept[strings.SplitN(fn, ":", 2)[0]] }, max)
	var jobs []Job
	for _, t := range extra {
		js := mk(t)
		if len(js) > 0 {
			c.moduleLocked(t)
			jobs = append(jobs, js...)
		}
	}
	if len(jobs) == 0 || c.stop.Load() {
		return
	}
	pl := *c.pl
	pl.jobs = jobs
	c.runJobs(&pl, c.left())
}

func definesPrimitive(defs map[string]bool) bool {
	for n := range boundaries {
		if defs[n] {
			return true
		}
	}
	return false
}
