package main

// From /repo's current sources to the linked, mem2reg'd module.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

var repoDir = envOr("SVC_REPO", "/repo")

// Tune is one setting of tune.h; nil means the file's own defaults.
type Tune struct {
	L5, L3, SHAKE, SHA2, S, sha2o, shko int
}

func (t *Tune) flags() []string {
	if t == nil {
		return nil
	}
	return []string{"-DTUNE_H_",
		fmt.Sprintf("-DTS_SUPPORT_L5=%d", t.L5), fmt.Sprintf("-DTS_SUPPORT_L3=%d", t.L3),
		fmt.Sprintf("-DTS_SUPPORT_SHAKE=%d", t.SHAKE), fmt.Sprintf("-DTS_SUPPORT_SHA2=%d", t.SHA2),
		fmt.Sprintf("-DTS_SUPPORT_S=%d", t.S), fmt.Sprintf("-DTS_SHA2_OPTIMIZATION=%d", t.sha2o),
		fmt.Sprintf("-DTS_SHAKE256_OPT=%d", t.shko)}
}

func (t *Tune) String() string {
	if t == nil {
		return "default"
	}
	return fmt.Sprintf("L5=%d,L3=%d,SHAKE=%d,SHA2=%d,S=%d,SHA2_OPT=%d,SHAKE_OPT=%d", t.L5, t.L3, t.SHAKE, t.SHA2, t.S, t.sha2o, t.shko)
}

func (t *Tune) id() string {
	if t == nil {
		return "default"
	}
	return fmt.Sprintf("t%d%d%d%d%d%d%d", t.L5, t.L3, t.SHAKE, t.SHA2, t.S, t.sha2o, t.shko)
}

func parseTune(id string) *Tune {
	if len(id) != 8 {
		return nil
	}
	d := func(i int) int { return int(id[i] - '0') }
	return &Tune{d(1), d(2), d(3), d(4), d(5), d(6), d(7)}
}

// offers: the sets the settings promise.
func (t *Tune) offers(p *PS) bool {
	fam := t.SHAKE
	if p.sha2 {
		fam = t.SHA2
	}
	lv := p.n == 16 || p.n == 24 && (t.L3 == 1 || t.L5 == 1) || p.n == 32 && t.L5 == 1
	return fam == 1 && lv && (!p.small() || t.S == 1)
}

// the minimal tuning offering one set
func minimalTune(p *PS) *Tune {
	t := &Tune{shko: 2}
	if p.sha2 {
		t.SHA2 = 1
	} else {
		t.SHAKE = 1
	}
	if p.n == 24 {
		t.L3 = 1
	}
	if p.n == 32 {
		t.L5 = 1
	}
	if p.small() {
		t.S = 1
	}
	return t
}

// libSources: every C file of the library proper.
func libSources() []string {
	fs, _ := filepath.Glob(filepath.Join(repoDir, "*.c"))
	var out []string
	for _, f := range fs {
		b := filepath.Base(f)
		if strings.HasPrefix(b, "test_") || strings.HasPrefix(b, "get_space") || b == "ramspace.c" || b == "stack.c" {
			continue
		}
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

const probeSrc = `#include "tiny_sphincs.h"
extern const unsigned long svc_ctx_size, svc_big_enough;
const unsigned long svc_ctx_size = sizeof(struct ts_context);
`

// a file of its own: the library may do without these types
const probePrim = `#include "tiny_sphincs.h"
#include "sha2.h"
#include "fips202.h"
extern const unsigned long svc_sha256_size, svc_sha512_size, svc_shake_size;
const unsigned long svc_sha256_size = sizeof(SHA256_CTX);
const unsigned long svc_sha512_size = sizeof(SHA512_CTX);
const unsigned long svc_shake_size = sizeof(SHAKE256_CTX);
`

func runCmd(dir string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	err := c.Run()
	return o.String(), err
}

// buildIR writes the linked module for a tuning and returns its path.
func buildIR(t *Tune, dir string) (string, error) {
	d := filepath.Join(dir, t.id())
	if err := os.MkdirAll(d, 0755); err != nil {
		return "", err
	}
	srcs := libSources()
	if len(srcs) < 5 {
		return "", fmt.Errorf("only %d library sources found in %s", len(srcs), repoDir)
	}
	probe := filepath.Join(d, "svc_probe.c")
	os.WriteFile(probe, []byte(probeSrc), 0644)
	srcs = append(srcs, probe)
	prim := filepath.Join(d, "svc_probe_prim.c")
	os.WriteFile(prim, []byte(probePrim), 0644)
	srcs = append(srcs, prim)
	outs := make([]string, len(srcs))
	errs := make([]error, len(srcs))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, s := range srcs {
		wg.Add(1)
		go func(i int, s string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			outs[i] = filepath.Join(d, strings.TrimSuffix(filepath.Base(s), ".c")+".ll")
			args := append([]string{"-O0", "-Xclang", "-disable-O0-optnone", "-g", "-S", "-emit-llvm", "-w", "-I" + repoDir}, t.flags()...)
			o, err := runCmd(d, "clang-18", append(args, "-o", outs[i], s)...)
			if err != nil && s == prim {
				outs[i] = ""
			} else if err != nil {
				errs[i] = fmt.Errorf("compiling %s (%s): %v\n%s", s, t, err, o)
			}
		}(i, s)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return "", e
		}
	}
	if outs[len(outs)-1] == "" {
		outs = outs[:len(outs)-1]
	}
	all := filepath.Join(d, "all.linked")
	if o, err := runCmd(d, "llvm-link-18", append(append([]string{}, outs...), "-S", "-o", all)...); err != nil {
		return "", fmt.Errorf("linking (%s): %v\n%s", t, err, o)
	}
	m := filepath.Join(d, "module.ll")
	if o, err := runCmd(d, "opt-18", "-passes=mem2reg", "-S", all, "-o", m); err != nil {
		return "", fmt.Errorf("mem2reg (%s): %v\n%s", t, err, o)
	}
	return m, nil
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
