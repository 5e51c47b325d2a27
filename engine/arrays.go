package main

// C05, other tunings: every array (in a structure or a local variable) of a
// tuning is compared with the same array in the minimal tuning of each
// parameter set the tuning offers. Where it is smaller, that set is
// interpreted in that tuning.

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

var reDI = regexp.MustCompile(`^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$`)
var reDIf = regexp.MustCompile(`(\w+): (?:"([^"]*)"|!(\d+)|([^,()]+))`)
var reDIl = regexp.MustCompile(`^!(\d+) = !\{(.*)\}$`)

type diNode struct {
	kind string
	f    map[string]string
}

// arrayTable maps "struct.member...." and "function:variable" to sizes in bits.
func arrayTable(ll string) map[string]int64 {
	nodes := map[string]*diNode{}
	lists := map[string][]string{}
	var order []string
	for _, ln := range strings.Split(ll, "\n") {
		if !strings.HasPrefix(ln, "!") {
			continue
		}
		if m := reDI.FindStringSubmatch(ln); m != nil {
			n := &diNode{m[2], map[string]string{}}
			for _, f := range reDIf.FindAllStringSubmatch(m[3], -1) {
				n.f[f[1]] = f[2] + f[3] + strings.TrimSpace(f[4])
			}
			nodes[m[1]] = n
			order = append(order, m[1])
		} else if m := reDIl.FindStringSubmatch(ln); m != nil {
			for _, e := range strings.Split(m[2], ",") {
				lists[m[1]] = append(lists[m[1]], strings.TrimPrefix(strings.TrimSpace(e), "!"))
			}
		}
	}
	out := map[string]int64{}
	var walk func(id, path string, d int)
	walk = func(id, path string, d int) {
		n := nodes[id]
		if n == nil || d > 12 {
			return
		}
		switch n.kind {
		case "DIDerivedType":
			if n.f["tag"] != "DW_TAG_pointer_type" {
				walk(n.f["baseType"], path, d+1)
			}
		case "DICompositeType":
			switch n.f["tag"] {
			case "DW_TAG_array_type":
				sz, _ := strconv.ParseInt(n.f["size"], 10, 64)
				out[path] = sz
				walk(n.f["baseType"], path+"[]", d+1)
			case "DW_TAG_structure_type", "DW_TAG_union_type":
				for _, e := range lists[n.f["elements"]] {
					if m := nodes[e]; m != nil && m.kind == "DIDerivedType" {
						walk(m.f["baseType"], path+"."+m.f["name"], d+1)
					}
				}
			}
		}
	}
	fn := func(id string) string {
		for d := 0; d < 20; d++ {
			n := nodes[id]
			if n == nil {
				return ""
			}
			if n.kind == "DISubprogram" {
				return n.f["name"]
			}
			id = n.f["scope"]
		}
		return ""
	}
	for _, id := range order {
		n := nodes[id]
		switch n.kind {
		case "DICompositeType":
			if n.f["name"] != "" {
				walk(id, n.f["name"], 0)
			}
		case "DILocalVariable":
			if f := fn(n.f["scope"]); f != "" {
				walk(n.f["type"], f+":"+n.f["name"], 0)
			}
		}
	}
	return out
}

func (c *Ctx) arraySizes() {
	d := filepath.Join(c.dir, "arrays")
	os.MkdirAll(d, 0755)
	tunes := allTunes()
	tabs := map[string]map[string]int64{}
	type once struct {
		o sync.Once
		t map[string]int64
		e string
	}
	memo := map[[32]byte]*once{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	srcs := libSources()
	for _, t := range tunes {
		wg.Add(1)
		go func(t *Tune) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			tab := map[string]int64{}
			for _, s := range srcs {
				cmd := exec.Command("clang-18", append(append([]string{"-E", "-P", "-w", "-I" + repoDir}, t.flags()...), s)...)
				cmd.Dir = d
				pp, err := cmd.Output()
				if err != nil {
					tab = nil // C16 reports settings that do not compile
					break
				}
				h := sha256.Sum256(pp)
				mu.Lock()
				o := memo[h]
				if o == nil {
					o = &once{}
					memo[h] = o
				}
				mu.Unlock()
				o.o.Do(func() {
					f := filepath.Join(d, fmt.Sprintf("%x.i", h[:8]))
					os.WriteFile(f, pp, 0644)
					cm := exec.Command("clang-18", "-x", "cpp-output", "-g", "-fstandalone-debug", "-O0", "-w", "-S", "-emit-llvm", "-o", "-", f)
					cm.Dir = d
					out, err := cm.Output()
					os.Remove(f)
					if err != nil {
						o.e = err.Error()
						return
					}
					o.t = arrayTable(string(out))
				})
				if o.t == nil {
					tab = nil
					break
				}
				for k, v := range o.t {
					if old, ok := tab[k]; ok && old < v {
						continue
					}
					tab[k] = v
				}
			}
			mu.Lock()
			tabs[t.id()] = tab
			mu.Unlock()
		}(t)
	}
	wg.Wait()
	nArr := 0
	var extra []Job
	for _, t := range tunes {
		tt := tabs[t.id()]
		if tt == nil {
			c.undecided("array sizes of tuning %s: does not compile", t)
			continue
		}
		for _, p := range paramSets {
			if !t.offers(p) {
				continue
			}
			m := tabs[minimalTune(p).id()]
			small := ""
			for k, v := range m {
				w, ok := tt[k]
				if ok && w < v {
					small = fmt.Sprintf("%s has %d bytes in %s and %d in %s", k, w/8, t, v/8, minimalTune(p))
				}
				nArr++
			}
			if small == "" {
				c.ok(true, "array sizes", "", "")
				continue
			}
			if len(extra) < 24 {
				c.undecided("array sizes: %s; %s is interpreted there", small, p.name)
				extra = append(extra, Job{t, fmt.Sprintf("sign:%s:%d", p.name, min(p.forsEnd()+p.wlen()+p.mh, 3*(p.t+1)+2)), 4, 100}, Job{t, "verify:" + p.name, 3, 100}, Job{t, "keygen:" + p.name, 3, 100})
			}
		}
	}
	c.count("tunings_compared", len(tunes))
	c.count("array_size_comparisons", nArr)
	if len(extra) == 0 {
		return
	}
	seen := map[string]bool{}
	for _, j := range extra {
		if !seen[j.tune.id()] {
			seen[j.tune.id()] = true
			c.moduleLocked(j.tune)
		}
	}
	pl := *c.pl
	pl.jobs = extra
	c.runJobs(&pl, c.left())
}
