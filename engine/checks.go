package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func setsF() (out []*PS) {
	for _, p := range paramSets {
		if !p.small() {
			out = append(out, p)
		}
	}
	return
}
func setsS() (out []*PS) {
	for _, p := range paramSets {
		if p.small() {
			out = append(out, p)
		}
	}
	return
}

func (p *PS) forsEnd() int { return 1 + p.k*(p.t+1) }

// onlyRules selects the job findings that count for a property; a finding
// about previous memory contents carries the underlying rule in parentheses.
func onlyRules(names ...string) func(string) bool {
	return func(r string) bool {
		if strings.HasPrefix(r, "depends on previous memory contents (") {
			r = strings.TrimSuffix(strings.TrimPrefix(r, "depends on previous memory contents ("), ")")
		}
		for _, n := range names {
			if r == n {
				return true
			}
		}
		return false
	}
}

func kinds(ks ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

// signJobs: whole signatures for the f sets, starts for the s sets.
func signJobs(th bool, tuneOf func(*PS) *Tune) (out []Job) {
	for _, s := range setsF() {
		out = append(out, Job{tuneOf(s), "sign:" + s.name, 2, 300})
	}
	for _, s := range setsS() {
		if th {
			out = append(out, Job{tuneOf(s), "sign:" + s.name, 13, 6000})
		} else {
			out = append(out, Job{tuneOf(s), fmt.Sprintf("sign:%s:%d", s.name, 1+2*(s.t+1)+2), 2, 150})
		}
	}
	return
}

func defTune(*PS) *Tune { return nil }

var signRules = []string{"signature content", "signature length", "signature end"}
var keyRules = []string{"private key seed", "private key prf", "private key root", "public key root", "public key pk.seed"}

func verifyJobs(t *Tune) (out []Job) {
	for _, p := range paramSets {
		out = append(out, Job{t, "verify:" + p.name, 3, 200})
	}
	return
}

const techAI = "abstract interpretation of the LLVM IR over a value-numbering normal form (Herbrand terms + intervals, joins at post-dominators), compared with an independent term-level specification"

const techNet = "abstract interpretation of the LLVM IR over bit-level normal forms (hashed GF(2) polynomials and modular linear forms) with the compression function as a verified summary, compared with an independent specification; loops generalised to every length by state matching"

// primJobs: the analyses of the hash primitives.
func primJobs(th bool, names ...string) (out []Job) {
	d := ""
	if th {
		d = ":deep"
	}
	for _, n := range names {
		if n != "shake" {
			out = append(out, Job{nil, "prim:" + n + d, 2, 600})
			continue
		}
		for o := 0; o < 3; o++ {
			out = append(out, Job{&Tune{1, 1, 1, 1, 1, 0, o}, "prim:shake" + d, 2, 600})
		}
	}
	return
}

var checks = []Check{
	{
		id: "C01", technique: techAI,
		note:    "One request of arbitrary (symbolic) size at every position of the signature, followed by the rest; with the start state of every position shown equal however it was reached, this covers all sequences by induction. Whole signatures for sha2_128f and shake_128f, the first blocks of the other sets (all f sets thorough; s sets to the end only as far as memory allows). All positions of a block, all sizes 0..2^32-1.",
		explain: "ts_sign is abstractly interpreted with a symbolic request size from every byte position; the bytes written, the returned count and the continuation (the rest of the signature) are compared, as normal forms, with the one-piece signature; bytes of the buffer beyond the returned count must keep their previous value.",
		rules:   []string{"return value is min(requested, remaining)", "bytes returned are those of the one-piece signature at that position", "the continuation is the same from every state that reaches the position", "requests after the end return 0 and write nothing"},
		plan: func(th bool) *Plan {
			p := &Plan{only: onlyRules("sliced output", "sliced length", "writes beyond the request", "end of signature", "request sizes covered", "signature length", "signature end", "advertised size")}
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "sizes:" + s.name, 2, 60})
				switch {
				case s.small():
					n := 1 + (s.t + 1) + 3
					if th {
						n = 1 + 3*(s.t+1)
					}
					p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("slices:%s:%d", s.name, n), 4, 300})
				case th:
					p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("slices:%s:%d:thorough", s.name, 1<<20), 8, 5000})
				case s.n == 16:
					p.jobs = append(p.jobs, Job{nil, "slices:" + s.name, 5, 500})
				default:
					p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("slices:%s:%d", s.name, 2*(s.t+1)+3), 4, 300})
					p.jobs = append(p.jobs, Job{nil, "sign:" + s.name, 2, 300})
				}
			}
			return p
		},
	},
	{
		id: "C02", technique: techAI,
		note:    "All 12 sets, a chunk of arbitrary (symbolic) size at every position of the signature, all contents; all chunkings follow by induction over positions.",
		explain: "ts_update_verify is abstractly interpreted with a symbolic chunk size from every byte position of a symbolic signature; the verdict after feeding the rest in one piece is compared with the one-piece verdict.",
		rules:   []string{"verdict after (any chunk, rest) equals the one-piece verdict", "intermediate results report good so far"},
		plan: func(th bool) *Plan {
			p := &Plan{only: onlyRules("verdict depends on chunking", "last update agrees with the verdict", "chunk sizes covered", "good so far")}
			for _, s := range paramSets {
				j := "chunks:" + s.name
				if th {
					j += ":thorough"
				}
				p.jobs = append(p.jobs, Job{nil, j, 3, 400})
			}
			return p
		},
	},
	{
		id: "C03", technique: techAI,
		note:    "All 12 sets, all contents, too short and too long inputs with the surplus delivered in the same or later calls.",
		explain: "The verdict's normal form after every possible total number of bytes (shorter, exact, longer; surplus in the same call or later) is compared with: false unless the total is the advertised size and the recomputed root equals the public root.",
		rules:   []string{"verdict false before completion", "verdict = (specified root equals public root) at the advertised size", "verdict false after surplus input"},
		plan: func(th bool) *Plan {
			p := &Plan{only: onlyRules("success without a complete signature", "success after too much input", "verdict", "good so far", "last update agrees with the verdict", "advertised size")}
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "accept:" + s.name, 3, 400})
				p.jobs = append(p.jobs, Job{nil, "sizes:" + s.name, 2, 60})
			}
			return p
		},
	},
	{
		id: "C04", technique: techAI,
		note:    "Context states: never initialised (zeroed), and every state reached at any block of signing (f sets quick: 250 blocks; s sets a prefix) and verifying, including completed and failed ones, with fully symbolic data. Wrong calls of several sizes.",
		explain: "From every state reachable at a block boundary (and one byte into a block) the calls that are wrong for the phase are abstractly interpreted; their result must be 0 and the context and the buffers must keep their previous values.",
		rules:   []string{"wrong-phase calls return 0", "wrong-phase calls change no byte of the context", "wrong-phase calls write no caller memory"},
		plan: func(th bool) *Plan {
			p := &Plan{only: onlyRules("wrong phase result", "wrong phase changes the context", "zeroed context", "success without a complete signature", "success after too much input"), rules: kinds("rowrite")}
			for _, s := range paramSets {
				n, m, t := 250, 4, 300
				if s.small() {
					n = s.t + 6
				}
				if s.small() && th {
					n = 3 * (s.t + 1)
				}
				if !s.small() && th {
					n, m, t = 1<<20, 8, 3000
				}
				p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("phase:%s:%d", s.name, n), m, t})
			}
			return p
		},
	},
	{
		id: "C05", technique: techAI + "; array sizes of all 144 tunings compared through the compiler's type information",
		note:    "Every access, shift, division and signed operation on every path of key generation, signing and verification above the hash primitives, for all inputs, in the minimal tuning of each set and in the default; the primitives themselves in the analyses of C18-C20. For every other tuning each array is shown at least as large as in the minimal tuning of every set it offers (else those sets are interpreted there too). s-set signatures: a prefix in quick.",
		explain: "Every load, store, memcpy, array index, shift, division and signed operation met while abstractly interpreting the library on symbolic inputs is checked against the object's bounds, initialisation and the operation's domain.",
		rules:   []string{"access inside a live object", "no use of uninitialised bytes", "shift < width, divisor nonzero, no signed overflow", "array index within the array type", "no access assumes more alignment than the object has"},
		plan: func(th bool) *Plan {
			p := &Plan{only: func(string) bool { return false }, rules: kinds("oob", "uninit", "ub", "badptr", "abort", "vla", "misaligned")}
			p.jobs = append(p.jobs, signJobs(th, minimalTune)...)
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{minimalTune(s), "verify:" + s.name, 3, 200}, Job{minimalTune(s), "keygen:" + s.name, 2, 300}, Job{minimalTune(s), "rng:" + s.name, 2, 60}, Job{nil, "hmsg:" + s.name, 3, 140})
				if th {
					p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("sign:%s:%d", s.name, 1+2*(s.t+1)+2), 2, 150})
					p.jobs = append(p.jobs, Job{nil, "accept:" + s.name, 3, 300})
				}
			}
			p.jobs = append(p.jobs, Job{nil, "accept:sha2_192f", 3, 300}, Job{nil, "accept:shake_128s", 3, 300})
			p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("slices:sha2_128f:%d", 120), 4, 300}, Job{nil, fmt.Sprintf("slices:shake_192s:%d", 20), 4, 300})
			p.jobs = append(p.jobs, primJobs(th, "sha256", "sha512", "shake")...)
			p.local = func(c *Ctx) { c.arraySizes() }
			return p
		},
	},
	{
		id: "C06", technique: techAI,
		note:    "The context, the stack and the output buffers start as arbitrary unknown bytes; no result, branch or address may depend on them. Same coverage as C12-C14.",
		explain: "Previous contents of the context, of locals and of output buffers are symbols of their own; any hash input, branch, address, output or return value whose normal form mentions one is reported.",
		rules:   []string{"no result depends on previous memory contents"},
		plan: func(th bool) *Plan {
			p := &Plan{only: func(r string) bool { return strings.HasPrefix(r, "depends on previous memory contents") }, rules: kinds("uninit")}
			p.jobs = append(p.jobs, signJobs(th, defTune)...)
			p.jobs = append(p.jobs, verifyJobs(nil)...)
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "keygen:" + s.name, 2, 300}, Job{nil, "hmsg:" + s.name, 3, 140})
			}
			return p
		},
	},
	{
		id: "C08", technique: techAI,
		note:    "All accesses of key generation, signing and verification to caller memory, for all inputs: inputs are read-only objects, outputs have exactly the advertised size, the message becomes inaccessible after ts_init_sign and after the first block of verification. Same coverage as C12-C14; request sizes symbolic as in C01.",
		explain: "Caller buffers are objects with access rights; each access met during abstract interpretation is checked against them, and each output byte beyond the reported count must keep its previous value.",
		rules:   []string{"no write to an input", "no access to the message outside its documented lifetime", "no write outside the advertised or reported size"},
		plan: func(th bool) *Plan {
			base := onlyRules("writes beyond the request", "failed keygen writes", "sliced length", "signature length")
			junk := onlyRules(append(append([]string{"sliced output"}, signRules...), keyRules...)...)
			p := &Plan{only: func(r string) bool {
				return base(r) || strings.HasPrefix(r, "depends on previous memory contents") && junk(r)
			}, rules: kinds("rowrite", "noacc", "oob")}
			p.jobs = append(p.jobs, signJobs(th, defTune)...)
			p.jobs = append(p.jobs, verifyJobs(nil)...)
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "keygen:" + s.name, 2, 300}, Job{nil, "rng:" + s.name, 2, 60}, Job{nil, "hmsg:" + s.name, 3, 140})
				n := s.t + 4
				if !s.small() {
					n = 3 * (s.t + 1)
				}
				p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("slices:%s:%d", s.name, n), 4, 300})
			}
			p.jobs = append(p.jobs, primJobs(th, "sha256", "sha512", "shake")...)
			return p
		},
	},
	{
		id: "C09", technique: techAI + ", with secrecy labels on the seeds",
		note:    "sk.seed and sk.prf bytes carry a label that only the keyed-hash constructions remove; outputs and the context after every block of signing, the keys after key generation; verification gets an object of exactly the public key size. Same coverage as C12-C14.",
		explain: "After ts_init_sign and after every signature block each byte of the output and of the context is inspected: its normal form must not contain a secret seed byte outside a hash application; reads in verification outside the 2n public-key bytes are reported.",
		rules:   []string{"no secret seed byte outside a hash in any output", "no secret seed byte outside a hash in the context", "verification reads only the public key"},
		plan: func(th bool) *Plan {
			p := &Plan{only: onlyRules("secret in output", "secret in context"), rules: kinds("secret")}
			p.jobs = append(p.jobs, signJobs(th, defTune)...)
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "keygen:" + s.name, 2, 300}, Job{nil, "rng:" + s.name, 2, 60})
			}
			for _, j := range verifyJobs(nil) {
				p.jobs = append(p.jobs, j)
			}
			p.onlyEvent = func(job, kind, msg string) bool {
				return strings.HasPrefix(job, "verify:") && kind == "oob" && strings.Contains(msg, "of public_key")
			}
			return p
		},
	},
	{
		id: "C10", technique: techAI,
		note:    "All 12 sets; the random source's return value and the bytes it leaves are arbitrary (symbolic), including partial writes followed by failure.",
		explain: "ts_gen_key and ts_init_sign are abstractly interpreted with absent, failing and working random sources (return value symbolic: zero or any nonzero); results, writes and number and size of calls are compared with the protocol.",
		rules:   []string{"failing calls of ts_gen_key return 0 and write nothing", "the source is asked once, for 3n (key) or n (signing) bytes", "failed source: deterministic signature, context independent of what the source wrote"},
		plan: func(th bool) *Plan {
			p := &Plan{}
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "rng:" + s.name, 2, 100})
			}
			return p
		},
	},
	{
		id: "C11", technique: techAI + ", with taint labels on secrets",
		note:    "Secret seeds, the optional randomness and every keyed or secret chain/leaf value are labelled; each branch condition, address and length met in key generation and signing is inspected. Same coverage as C12-C14; the primitives are analysed on their own with all data labelled. At the level of LLVM IR; machine-code effects are out of reach.",
		explain: "Each symbolic branch condition, pointer and length evaluated during abstract interpretation is inspected for a label of secret data.",
		rules:   []string{"no branch, address or length depends on labelled data"},
		plan: func(th bool) *Plan {
			p := &Plan{only: func(string) bool { return false }, rules: kinds("taint")}
			p.jobs = append(p.jobs, signJobs(th, defTune)...)
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "keygen:" + s.name, 2, 300}, Job{nil, "rng:" + s.name, 2, 60})
				if !s.small() {
					p.jobs = append(p.jobs, Job{minimalTune(s), fmt.Sprintf("sign:%s:%d", s.name, s.forsEnd()+s.wlen()+2), 2, 150})
				}
			}
			p.jobs = append(p.jobs, primJobs(th, "sha256", "sha512", "shake")...)
			return p
		},
	},
	{
		id: "C12", technique: techAI,
		note:    "All messages, keys and randomisers at once: every byte of the produced signature is shown to have the same normal form as the specification's term. Quick: all of the signature for the six f sets; for the s sets R and six FORS trees (n = 24, 32) or all of FORS, the first Merkle layer and the WOTS+ chains of the second (n = 16); thorough: whole signatures of the s sets too. Hash functions are uninterpreted here (C18-C20 decide them).",
		explain: "ts_init_sign/ts_sign are abstractly interpreted on symbolic key, randomiser and message; each n-byte block of the signature is compared, as a normal form over hash atoms, with the block the SPHINCS+ specification defines. A difference is reported only if a valuation of the atoms separates the two sides.",
		rules:   []string{"every block returned by ts_sign equals the specified block for all inputs", "every request returns n until the advertised end, then 0"},
		plan: func(th bool) *Plan {
			p := &Plan{}
			for _, s := range setsF() {
				p.jobs = append(p.jobs, Job{nil, "sign:" + s.name, 2, 300})
			}
			for _, s := range setsS() {
				if th {
					p.jobs = append(p.jobs, Job{nil, "sign:" + s.name, 13, 6000})
				} else {
					n := 1 + 6*(s.t+1) // FORS node indices beyond 16 bits
					if s.n == 16 {
						n = s.forsEnd() + 2*s.wlen() + s.mh + 1 // trees of height 9
					}
					p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("sign:%s:%d", s.name, n), 4, 300})
				}
			}
			return p
		},
	},
	{
		id: "C13", technique: techAI,
		note:    "All messages, public keys and signature contents at once, all 12 parameter sets, complete signatures: the verdict's condition is shown to be the byte-wise equality of the specified root and the public root.",
		explain: "ts_init_verify/ts_update_verify/ts_verify are abstractly interpreted on a fully symbolic signature, message and public key; the normal form of the verdict is compared with the specified root computation.",
		rules:   []string{"verdict is nonzero exactly if the specified root equals the public root", "ts_update_verify is nonzero before the last block"},
		plan:    func(th bool) *Plan { return &Plan{jobs: verifyJobs(nil)} },
	},
	{
		id: "C14", technique: techAI,
		note:    "All seeds at once, all 12 parameter sets, with and without the public-key output.",
		explain: "ts_gen_key is abstractly interpreted with symbolic seeds; the private and public key bytes are compared with the seeds and the specified top-tree root.",
		rules:   []string{"private key = seeds || specified root", "public key = third seed || specified root", "private key is the same without a public key buffer"},
		plan: func(th bool) *Plan {
			p := &Plan{}
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "keygen:" + s.name, 2, 300})
				if !s.small() || th {
					p.jobs = append(p.jobs, Job{nil, "keygen:" + s.name + ":nopub", 2, 300})
				}
			}
			return p
		},
	},
	{
		id: "C15", technique: "constant evaluation of the size functions and " + techAI,
		note:    "Sizes are evaluated for all 12 exported sets; the hash family and the per-level functions are decided by comparing the first signature blocks, the key pair (f sets) and the verifier's root with the specification instantiated with the published parameters.",
		explain: "ts_size_* are interpreted on each exported parameter set; the first signature blocks (R, FORS secret value and path), key generation and the complete verification of each set are compared with the specification instantiated with the parameters SPHINCS+ publishes for that name.",
		rules:   []string{"advertised sizes are 4n, 2n, n(1+k(t+1)+d(2n+3)+h)", "first blocks and verified root are those of the named parameter set"},
		plan: func(th bool) *Plan {
			p := &Plan{local: func(c *Ctx) {
				c.variantJobs(func(u string, defs map[string]bool) bool {
					for n := range defs {
						if strings.HasPrefix(n, "@ts_size_") || strings.HasPrefix(n, "@ts_ps_") {
							return true
						}
					}
					return false
				}, []*Tune{nil}, 8, func(t *Tune) (out []Job) {
					for _, s := range paramSets {
						if t.offers(s) {
							out = append(out, Job{t, "sizes:" + s.name, 2, 60})
						}
					}
					return
				})
			}}
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "sizes:" + s.name, 2, 60})
				p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("sign:%s:%d", s.name, 1+s.t+2), 3, 100})
				if !s.small() || th {
					p.jobs = append(p.jobs, Job{nil, "keygen:" + s.name, 2, 300})
				}
			}
			p.jobs = append(p.jobs, verifyJobs(nil)...)
			return p
		},
	},
	{
		id: "C18", technique: techNet,
		note:    "Every chaining value, buffered bytes, data and total length (below 2^61 bytes); every buffer fill and every input length: enumerated up to a few blocks, beyond by matching the loop state after a block with the state of a fresh call (length symbolic), plus selected lengths up to 2^61; all word-multiple digest truncations; save/restore of the state after one block.",
		explain: "The compression function's IR is evaluated to normal forms over GF(2) monomials and modular sums and compared with the FIPS 180-4 step function (constants computed from primes); init/update/final are then interpreted with that function uninterpreted, from an arbitrary state with every fill.",
		rules:   []string{"compression function equals FIPS 180-4 for every chaining value and block", "update leads to the specified state", "final (and its truncations) yields the specified padded digest"},
		plan:    func(th bool) *Plan { return &Plan{jobs: primJobs(th, "sha256")} },
	},
	{
		id: "C19", technique: techNet,
		note:    "Every chaining value, buffered bytes, data and total length (below 2^61 bytes); every buffer fill and every input length: enumerated up to a few blocks, beyond by matching the loop state after a block with the state of a fresh call (length symbolic), plus selected lengths up to 2^61; all word-multiple digest truncations; save/restore of the state after one block.",
		explain: "The compression function's IR is evaluated to normal forms over GF(2) monomials and modular sums and compared with the FIPS 180-4 step function (constants computed from primes); init/update/final are then interpreted with that function uninterpreted, from an arbitrary state with every fill.",
		rules:   []string{"compression function equals FIPS 180-4 for every chaining value and block", "update leads to the specified state", "final (and its truncations) yields the specified padded digest"},
		plan:    func(th bool) *Plan { return &Plan{jobs: primJobs(th, "sha512")} },
	},
	{
		id: "C20", technique: techNet,
		note:    "All three TS_SHAKE256_OPT permutations on every 1600-bit state; absorbing and squeezing from an arbitrary sponge state at every position, lengths enumerated up to three blocks, beyond by matching the loop state after a block with the state of a fresh call (length symbolic), plus selected lengths up to 2^61.",
		explain: "The permutation's IR is evaluated to normal forms over GF(2) monomials and compared with Keccak-f[1600] written from FIPS 202; init/absorb/finalize/squeeze are then interpreted with the permutation uninterpreted, from an arbitrary state and position.",
		rules:   []string{"permutation equals Keccak-f[1600] on every state", "absorbing and finalising lead to the specified state", "every output byte is the specified one"},
		plan:    func(th bool) *Plan { return &Plan{jobs: primJobs(th, "shake")} },
	},
	{
		id: "C21", technique: techAI,
		note:    "Any message, of any length (the message is one symbolic byte string of symbolic length), all 12 sets, signer and verifier. Code that walks the message in a way the symbolic length cannot follow is analysed at some 500 lengths one by one instead (reported as not fully decided).",
		explain: "The normal form of R and of every hash atom over message bytes that the first FORS block (signer) and the context after the first block (verifier) depend on is compared with the specified PRF_msg and H_msg terms over the symbolic message.",
		rules:   []string{"R = PRF_msg(sk.prf, opt, M)", "the only message digests are H_msg(R, pk.seed, pk.root, M)"},
		plan: func(th bool) *Plan {
			p := &Plan{}
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "hmsg:" + s.name, 3, 140})
			}
			return p
		},
	},
	{
		id: "C22", technique: techAI,
		note:    "All digests and all signed values at once; signer side for the f sets through FORS and the first two WOTS+ layers (s sets: FORS prefix quick, more thorough), verifier side complete for all 12 sets.",
		explain: "Which FORS leaf, tree, leaf and WOTS+ chain positions are used shows in the hash addresses and chain lengths of the produced blocks and of the verified root; these normal forms are compared with the specified bit selections of the digest.",
		rules:   []string{"FORS indices, tree and leaf index select the specified addresses", "WOTS+ digits are the nibbles and the three checksum nibbles"},
		plan: func(th bool) *Plan {
			p := &Plan{}
			for _, s := range paramSets {
				n := s.forsEnd() + 2*s.wlen() + s.mh
				m := 4
				if s.small() {
					n = 1 + 2*(s.t+1) + 2
					if th {
						n, m = s.forsEnd()+2*s.wlen()+s.mh, 10
					}
				}
				p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("sign:%s:%d", s.name, n), m, 300 + m*100})
			}
			p.jobs = append(p.jobs, verifyJobs(nil)...)
			return p
		},
	},
	{
		id: "C23", technique: techAI + "; key generation, signing and verification composed",
		note:    "The six f sets, default tuning: every seed, message, message length and randomiser at once, for every behaviour of the hash functions; the whole signature in one-block requests. The s sets are beyond the reach of the composition (their signatures are compared with the specification in C12 and their verification in C13).",
		explain: "One abstract execution of ts_gen_key, ts_sign over the whole signature and ts_update_verify over those very bytes, on symbolic seeds, message and randomiser; the normal form of the verdict must be the constant 1 for every digest (the position of the leaf in the top tree is substituted value by value).",
		rules:   []string{"every intermediate ts_update_verify reports success", "the last ts_update_verify and ts_verify return nonzero for every digest and every leaf of the top tree"},
		plan: func(th bool) *Plan {
			p := &Plan{only: onlyRules("honest signature rejected", "good so far")}
			for _, s := range paramSets {
				if !s.small() {
					p.jobs = append(p.jobs, Job{nil, "round:" + s.name, 4, 250})
					if s.n == 16 {
						p.jobs = append(p.jobs, Job{nil, "round:" + s.name + ":null", 4, 200})
					}
				}
			}
			if th {
				for _, s := range paramSets {
					if !s.small() {
						for o := 0; o < 2; o++ {
							t := minimalTune(s)
							t.sha2o = o
							p.jobs = append(p.jobs, Job{t, "round:" + s.name, 4, 600})
						}
					}
				}
			}
			return p
		},
	},
	{
		id: "C25", technique: techAI + "; cost analysis with a counter of hash computations in the abstract state",
		note:    "All inputs; key generation and verification of all 12 sets, signing of the six f sets completely and of the s sets for whole leading FORS trees (more in thorough). Counts hash computations (not compression calls, whose number follows from the message length).",
		explain: "A counter in the abstract state is advanced at every finished hash computation and joined like any other value; its normal form over the digit values bounds the work of every operation from both sides and is compared with the number the scheme takes.",
		rules:   []string{"hash computations of an operation <= 1.25 * what the scheme takes", "the number varies by no more than the chain lengths (15 per chain)"},
		plan: func(th bool) *Plan {
			p := &Plan{only: onlyRules("hash computations", "hash computations vary")}
			for _, s := range paramSets {
				p.jobs = append(p.jobs, Job{nil, "cost:" + s.name + ":keygen", 2, 200}, Job{nil, "cost:" + s.name + ":verify", 3, 200})
				if s.small() {
					n, m := 1+(s.t+1), 3
					if th {
						n, m = 1+4*(s.t+1), 8
					}
					p.jobs = append(p.jobs, Job{nil, fmt.Sprintf("cost:%s:sign:%d", s.name, n), m, 200})
				} else {
					p.jobs = append(p.jobs, Job{nil, "cost:" + s.name + ":sign", 3, 300})
				}
			}
			return p
		},
	},
	{
		id: "C16", technique: "exhaustive compile-and-link matrix over the tune settings, and " + techAI,
		note:    "All 144 legal settings are compiled and their symbols checked; keys, signature starts and verdicts are compared with one specification in the minimal tuning of each set with either SHA2 precomputation setting (so equal across tunings); which SHAKE permutation is compiled in does not change the analysed functions above the sponge, and C20 decides each permutation.",
		explain: "Every combination of the tune settings is preprocessed and compiled, duplicate or missing symbols and the set of defined ts_ps_* objects are compared with what the settings promise; then key generation, verification and signing are abstractly interpreted in several tunings and compared with the same specification.",
		rules:   []string{"every legal setting compiles and links", "exactly the promised parameter sets are defined", "keys, signatures and verdicts have the specified normal form in every analysed tuning"},
		plan: func(th bool) *Plan {
			var base []*Tune
			p := &Plan{}
			p.local = func(c *Ctx) {
				c.tuneMatrix()
				if c.stop.Load() || len(c.viols) > 0 {
					return
				}
				c.variantJobs(func(u string, defs map[string]bool) bool { return !definesPrimitive(defs) }, base, 6, func(t *Tune) (out []Job) {
					for _, s := range paramSets {
						if t.offers(s) {
							out = append(out, Job{t, "sizes:" + s.name, 2, 60}, Job{t, "verify:" + s.name, 3, 150}, Job{t, fmt.Sprintf("sign:%s:%d", s.name, s.t+3), 3, 100})
							if !s.small() {
								out = append(out, Job{t, "keygen:" + s.name, 2, 150})
							}
						}
					}
					return
				})
				c.variantJobs(func(u string, defs map[string]bool) bool { return definesPrimitive(defs) }, []*Tune{nil, {1, 1, 1, 1, 1, 0, 0}, {1, 1, 1, 1, 1, 1, 0}, {1, 1, 1, 1, 1, 0, 1}, {1, 1, 1, 1, 1, 0, 2}}, 3, func(t *Tune) (out []Job) {
					if t.SHA2 == 1 {
						out = append(out, Job{t, "prim:sha256", 2, 300})
						if t.L3+t.L5 > 0 {
							out = append(out, Job{t, "prim:sha512", 2, 300})
						}
					}
					if t.SHAKE == 1 {
						out = append(out, Job{t, "prim:shake", 2, 300})
					}
					return
				})
			}
			for _, s := range paramSets {
				for o := 0; o < 2; o++ {
					t := minimalTune(s)
					t.sha2o = o
					if !s.sha2 && o == 1 {
						t.shko = 1
						t.sha2o = 0
						if !th {
							continue
						}
					}
					n := s.forsEnd() + s.wlen() + s.mh + 2
					if s.small() && !th {
						n = 1 + s.t + 2
					}
					p.jobs = append(p.jobs, Job{t, fmt.Sprintf("sign:%s:%d", s.name, n), 2, 150})
					if !s.small() || th {
						p.jobs = append(p.jobs, Job{t, "keygen:" + s.name, 2, 150})
					}
					p.jobs = append(p.jobs, Job{t, "verify:" + s.name, 3, 150})
				}
			}
			// both families, precomputation off, L3 only / L1 only with S
			for _, t := range []*Tune{{0, 1, 1, 1, 1, 0, 0}, {0, 0, 1, 1, 1, 1, 0}, {1, 1, 1, 1, 0, 0, 2}} {
				for _, s := range paramSets {
					if t.offers(s) && !s.small() {
						p.jobs = append(p.jobs, Job{t, "verify:" + s.name, 3, 150}, Job{t, fmt.Sprintf("sign:%s:%d", s.name, s.t+3), 3, 100})
					}
				}
			}
			// SHAKE alone, with the setting that only concerns SHA-2
			p.jobs = append(p.jobs, Job{&Tune{0, 0, 1, 0, 0, 1, 0}, "verify:shake_128f", 3, 150}, Job{&Tune{0, 0, 1, 0, 0, 1, 0}, "sign:shake_128f:20", 3, 100}, Job{&Tune{0, 0, 1, 0, 0, 1, 0}, "keygen:shake_128f", 2, 150})
			for _, j := range p.jobs {
				base = append(base, j.tune)
			}
			return p
		},
	},
	{
		id: "C07", technique: "call-graph, effect and allocation analysis over the linked LLVM IR of the library",
		note:    "Exact on the linked IR of each analysed tuning: every global, store, call site and stack allocation of every function is inspected; indirect calls are resolved through the parameter-set tables.",
		explain: "Every function of the library (all tunings below) is inspected: writable globals that are written or escape, external calls, stack allocations of non-constant size, cycles in the call graph with indirect calls resolved through the parameter-set structures.",
		rules:   []string{"no written or escaping writable global", "external calls only to pure memory primitives or the caller's random source", "no dynamic stack allocation", "acyclic call graph"},
		plan: func(th bool) *Plan {
			return &Plan{local: func(c *Ctx) {
				ts := []*Tune{nil, {1, 1, 1, 1, 1, 0, 1}, {1, 1, 1, 1, 1, 1, 2}}
				if th {
					ts = append(ts, &Tune{1, 1, 1, 1, 1, 1, 0}, &Tune{0, 1, 1, 1, 1, 0, 2}, &Tune{0, 0, 1, 0, 0, 0, 1}, &Tune{0, 0, 0, 1, 0, 1, 0}, &Tune{0, 1, 0, 1, 1, 1, 0})
				}
				c.parDo(len(ts), func(i int) string { return ts[i].String() }, func(i int) {
					mp, err := c.moduleLocked(ts[i])
					if err != nil {
						panic(err)
					}
					m, err := LoadModule(mp)
					if err != nil {
						panic(err)
					}
					if len(m.funcs) < 20 {
						panic("fewer than 20 functions in the linked library")
					}
					c.hiddenState(ts[i], m)
				})
			}}
		},
	},
	{
		id: "C17", technique: "worst-case stack bound: compiler frame sizes summed over the call graph, indirect calls resolved from the IR",
		note:    "For the twelve minimal tunings, with gcc -Os -fomit-frame-pointer: maximum over all call paths, compared with the documented figures plus a quarter. The figures are those of ramspace.out, kept in the checker.",
		explain: "gcc's per-function frame sizes and call graph (-fstack-usage, -fcallgraph-info) for each minimal tuning; indirect calls resolved through the parameter-set tables of the same tuning's IR; the deepest path of each API function plus the context size is compared with the documented figure.",
		rules:   []string{"context, key generation, signing and verification RAM <= 1.25 * documented", "no frame without static bound", "no recursion"},
		plan: func(th bool) *Plan {
			return &Plan{local: func(c *Ctx) {
				c.parDo(len(paramSets), func(i int) string { return "stack:" + paramSets[i].name }, func(i int) { c.stackBound(paramSets[i]) })
			}}
		},
	},
}

func writeManifest() {
	type ent struct {
		Property  string `json:"property"`
		Quick     string `json:"quick_cmd"`
		Thorough  string `json:"thorough_cmd"`
		Technique string `json:"technique"`
		Level     string `json:"level"`
		Note      string `json:"level_note"`
	}
	type na struct {
		Property string `json:"property"`
		Reason   string `json:"reason"`
	}
	var es []ent
	have := map[string]bool{}
	for i := 1; i <= 30; i++ {
		id := fmt.Sprintf("C%02d", i)
		for _, c := range checks {
			if c.id == id {
				es = append(es, ent{id, "bash check.sh " + id + " quick", "bash check.sh " + id + " thorough", c.technique, "other", c.note})
				have[id] = true
			}
		}
	}
	var nas []na
	b, _ := os.ReadFile(filepath.Join(verifDir, "properties.jsonl"))
	for _, ln := range strings.Split(string(b), "\n") {
		var p struct{ Id string }
		if json.Unmarshal([]byte(ln), &p) == nil && p.Id != "" && !have[p.Id] {
			r := naReason[p.Id]
			if r == "" {
				r = "No check built yet."
			}
			nas = append(nas, na{p.Id, r})
		}
	}
	m := map[string]interface{}{"version": 1, "setup_cmd": "bash setup.sh", "checks": es, "not_applicable": nas}
	out, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(verifDir, "MANIFEST.json"), append(out, '\n'), 0644)
}

var naReason = map[string]string{
	"C24": "Unforgeability is a computational-complexity statement about an adversary; no static analysis of the source can decide it.",
}
