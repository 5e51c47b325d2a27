package main

// C16, first half: every combination of the tune settings compiles, links
// and defines exactly the promised parameter sets.

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
)

func allTunes() (out []*Tune) {
	for b := 0; b < 32; b++ {
		t := Tune{L5: b & 1, L3: b >> 1 & 1, SHAKE: b >> 2 & 1, SHA2: b >> 3 & 1, S: b >> 4 & 1}
		if t.SHAKE+t.SHA2 == 0 {
			continue
		}
		for o := 0; o < 2; o++ {
			for k := 0; k < 3; k++ {
				u := t
				u.sha2o, u.shko = o, k
				out = append(out, &u)
			}
		}
	}
	return
}

type objSyms struct {
	def, undef []string
	err        string
}

var reSet = regexp.MustCompile(`^ts_ps_`)

// promiseProbe is a user of everything a tuning promises.
func promiseProbe(t *Tune) string {
	var b strings.Builder
	b.WriteString("#include \"tiny_sphincs.h\"\nconst struct ts_parameter_set *const svc_sets[] = {\n")
	for _, p := range paramSets {
		if t.offers(p) {
			b.WriteString("&" + p.global()[1:] + ",\n")
		}
	}
	b.WriteString("0 };\nstruct ts_context svc_context_object;\n")
	b.WriteString("void *svc_api[] = { (void*)ts_gen_key, (void*)ts_init_sign, (void*)ts_sign, (void*)ts_init_verify, (void*)ts_update_verify, (void*)ts_verify, (void*)ts_size_signature, (void*)ts_size_public_key, (void*)ts_size_private_key };\n")
	return b.String()
}

func (c *Ctx) tuneMatrix() {
	d := filepath.Join(c.dir, "matrix")
	os.MkdirAll(d, 0755)
	tunes := allTunes()
	srcs := libSources()
	if len(srcs) < 5 {
		panic("library sources not found")
	}
	memo := map[[32]byte]*sync.Once{}
	res := map[[32]byte]*objSyms{}
	var mu sync.Mutex
	compile := func(pp []byte, src string) *objSyms {
		h := sha256.Sum256(pp)
		mu.Lock()
		o := memo[h]
		if o == nil {
			o = &sync.Once{}
			memo[h] = o
			res[h] = &objSyms{}
		}
		r := res[h]
		mu.Unlock()
		o.Do(func() {
			obj := filepath.Join(d, fmt.Sprintf("%x.o", h[:8]))
			cf := filepath.Join(d, fmt.Sprintf("%x.i", h[:8]))
			os.WriteFile(cf, pp, 0644)
			if out, err := runCmd(d, "gcc", "-x", "cpp-output", "-O0", "-w", "-c", "-o", obj, cf); err != nil {
				r.err = clip(out)
				return
			}
			out, err := runCmd(d, "nm", obj)
			if err != nil {
				r.err = clip(out)
				return
			}
			for _, ln := range strings.Split(out, "\n") {
				f := strings.Fields(ln)
				if len(f) == 2 && f[0] == "U" {
					r.undef = append(r.undef, f[1])
				} else if len(f) == 3 && strings.ContainsAny(f[1], "TDBRCGSVW") {
					r.def = append(r.def, f[2])
				}
			}
			os.Remove(obj)
			os.Remove(cf)
		})
		return r
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, t := range tunes {
		wg.Add(1)
		go func(t *Tune) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			probe := filepath.Join(d, t.id()+"_probe.c")
			os.WriteFile(probe, []byte(promiseProbe(t)), 0644)
			defs := map[string]string{}
			need := map[string]string{}
			okAll := true
			for _, s := range append(append([]string{}, srcs...), probe) {
				base := filepath.Base(s)
				cmd := exec.Command("gcc", append(append([]string{"-E", "-P", "-I" + repoDir}, t.flags()...), s)...)
				cmd.Dir = d
				var eb strings.Builder
				cmd.Stderr = &eb
				pp, err := cmd.Output()
				if err != nil {
					okAll = c.ok(false, "compiles", base, "tuning %s does not preprocess: %s", t, clip(eb.String()))
					continue
				}
				r := compile(pp, s)
				if r.err != "" {
					if s == probe {
						okAll = c.ok(false, "offers promised sets", "tiny_sphincs.h", "tuning %s: a user of the promised parameter sets does not compile: %s", t, r.err)
					} else {
						okAll = c.ok(false, "compiles", base, "tuning %s does not compile: %s", t, r.err)
					}
					continue
				}
				c.ok(true, "compiles", base, "")
				for _, n := range r.def {
					if o, ok := defs[n]; ok {
						okAll = c.ok(false, "links", base, "tuning %s: %s is defined here and in %s", t, n, o)
					}
					defs[n] = base
				}
				for _, n := range r.undef {
					need[n] = base
				}
			}
			c.count("tunings", 1)
			c.count("translation_units", len(srcs)+1)
			if !okAll {
				return
			}
			for n, by := range need {
				if _, ok := defs[n]; ok || pureExtern[n] || n == "_GLOBAL_OFFSET_TABLE_" {
					continue
				}
				c.ok(false, "links", by, "tuning %s: %s is used but not defined", t, n)
			}
			for _, p := range paramSets {
				_, have := defs[p.global()[1:]]
				c.ok(have == t.offers(p), "offers exactly the promised sets", p.global()[1:], "tuning %s: promised %v, defined %v", t, t.offers(p), have)
			}
			for n := range defs {
				if reSet.MatchString(n) {
					known := false
					for _, p := range paramSets {
						if p.global()[1:] == n {
							known = true
						}
					}
					c.ok(known, "offers exactly the promised sets", defs[n], "tuning %s: unknown parameter set %s", t, n)
				}
			}
		}(t)
	}
	wg.Wait()
	c.count("distinct_preprocessed_units", len(memo))
}
