//go:build go1.22

package main

// C08: published responses stay inside the masking range and proving terminates.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C08", gen: zvGenC08, exec: zvExecC08, quick: 16000, deep: 600000,
		rule:   "one evaluation is one published proof with its response, its number of entropy draws and its verdict, or one transcript at or beyond a bound judged by the verifier; distinct cases differ in group pair, sizes, secret class, entropy pattern and bound",
		reals:  []string{"voteproof.Setup, Prove, Verify, ProofUnmarshalJSON, group implementations"},
		stubs:  []string{"entropy source (stuck, extreme or steered for a while, then normal)", "transcripts at the bounds are made by an own prover that uses the challenge derivation learnt from an honest proof", "a transparent group in part of the runs"},
		assume: []string{"after recovery 2000 draws suffice: each attempt succeeds with probability one half or more"},
	})
}

func zvGenC08(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	c := &p.Cfg
	c.FF = r.Pick("m160", "m200", "m256", "tf384", "tg192", "m264", "m512")
	c.EC = r.Pick("p256", "r255", "k256", "p384", "tg", "tg", "tg384")
	if r.Chance(1, 4) {
		c.FF, c.EC = r.Pick("tf384", "tg192"), r.Pick("tg", "tg384")
	}
	bg := zvOrderBits(c.FF)
	if b := zvOrderBits(c.EC); b < bg {
		bg = b
	}
	c.N = r.PickInt(8, 8, 16, 16, 24) // Bx
	c.Nodes = r.PickInt(1, 1, 1, 2, 3, 5, 8, 12, 20)
	max := bg - 1 - c.N - c.Nodes
	if max > 256 {
		max = 256
	}
	c.Bc = r.PickInt(8, 8, 16, 32, 64, max/8*8, max)
	if c.Bc > max {
		c.Bc = max
	}
	if c.Bc > 256 {
		c.Bc = 256
	}
	if r.Chance(1, 3) { // the whole length of the smaller group
		c.Nodes = bg - 1 - c.N - c.Bc
	}
	p.Quantum, p.Budget = r.PickInt(0, 30, 500), r.PickInt(10, 100)
	n := 6
	for i := 0; i < n; i++ {
		st := zvStep{At: int64(r.Intn(3000)), S: r.Sub()}
		switch (idx + i) % 6 {
		case 0:
			st.K = "prove"
			st.Faults = []zvFault{{At: r.Intn(3), Kind: r.Pick("zeros", "ones", "low", "zeros", "ones"), Count: r.PickInt(1, 2, 3, 4, 5, 6, 7, 8, 13, 40, 120)}}
			if idx%24 == 0 { // stuck for very long
				st.Faults[0] = zvFault{At: 0, Kind: r.Pick("zeros", "zeros", "low"), Count: r.PickInt(270, 420, 540, 1100, 2100, 4400)}
				if idx%240 == 0 && c.FF[0] == 't' && c.EC[0] == 't' {
					st.Faults[0].Count = r.PickInt(20000, 42000)
				}
			} else if r.Chance(1, 3) {
				st.Faults = append(st.Faults, zvFault{At: st.Faults[0].At + st.Faults[0].Count + r.Intn(4), Kind: r.Pick("zeros", "ones", "lead"), Count: r.PickInt(1, 4, 8)})
			}
		case 1:
			st.K = "edge"
			st.A = int64(r.Intn(8))
		case 2, 3:
			st.K = "verify"
			st.A = int64(r.Intn(12))
		case 4:
			st.K = "shift"
			st.A = int64(r.Intn(6))
		default:
			st.K = "fresh"
			st.A = 12
		}
		p.Steps = append(p.Steps, st)
	}
	if idx%5 == 3 { // sizes that leave no room for masking
		p.Steps = append(p.Steps, zvStep{K: "noroom", At: int64(r.Intn(3000)), S: r.Sub(), A: int64(r.PickInt(0, 0, 0, -1, -2, -8, -c.Bc, -c.Bc-c.N, -c.Bc-c.N-1))})
	}
	zvAddNeighbours(p, r, "sigma")
	return p
}

func zvExecC08(e *zvEngine) {
	cfg := e.plan.Cfg
	var par, ver voteproof.ProofParams
	mk := func() (voteproof.ProofParams, error) {
		q, err := zvC10Params(zvCfg{FF: cfg.FF, EC: cfg.EC, N: cfg.N, Bc: 8})
		if err != nil {
			return q, err
		}
		return voteproof.Setup(uint8(cfg.N), uint16(cfg.Bc), uint16(cfg.N+cfg.Bc+cfg.Nodes+1), 1, 100, voteproof.AlgebraicParameters{GFF: q.GFF, GEC: q.GEC})
	}
	e.spawn("setup", 0, 1, nil, 0, func(t *zvTask) {
		var err error
		if par, err = mk(); err == nil {
			ver, err = mk()
		}
		if err != nil {
			panic(err)
		}
	}).onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("setup-panic", "set-up for %s/%s with %d/%d/%d bits fails: %s", cfg.FF, cfg.EC, cfg.N, cfg.Bc, cfg.Nodes, t.panicText())
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	np, nq := par.GFF.I.N(), par.GEC.I.N()
	one := big.NewInt(1)
	tb := uint(cfg.N + cfg.Bc)
	lo := new(big.Int).Lsh(one, tb)
	hi := new(big.Int).Lsh(one, tb+uint(cfg.Nodes))
	inside := func(z *big.Int) bool { return z != nil && z.Cmp(lo) >= 0 && z.Cmp(hi) < 0 }
	where := fmt.Sprintf("%s/%s, sizes %d/%d/%d", cfg.FF, cfg.EC, cfg.N, cfg.Bc, cfg.Nodes)
	_, transparent := par.GEC.I.(*zvTG)
	if _, ok := par.GFF.I.(*zvTG); !ok {
		transparent = false
	}
	var freshs zvRetries
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		if st.K == "neighbour" {
			zvNeighbour(e, i, st)
			continue
		}
		rng := zvNewRNG(st.S, 51)
		top := new(big.Int).Lsh(one, uint(cfg.N))
		x := rng.Big(top)
		switch rng.Intn(4) {
		case 0:
			x = new(big.Int)
		case 1:
			x = new(big.Int).Sub(top, one)
		}
		rp := rng.BigNZ(np)
		s := &zvStatement{xp: x, x1: x, x2: x, ry: rp, rp: rp, r1: rng.BigNZ(nq), r2: rng.BigNZ(nq)}
		judge := func(proof voteproof.SigmaProof, want bool, must bool, what string) {
			for _, mem := range []bool{true, false} {
				ok := false
				vt := e.spawn(fmt.Sprintf("verify%d", i), e.now, 2, nil, 0, func(t *zvTask) {
					q := proof
					if !mem {
						js, err := json.Marshal(&proof)
						if err != nil {
							panic(err)
						}
						if q, err = voteproof.ProofUnmarshalJSON(js, ver.GFF.I, ver.GEC.I); err != nil {
							return
						}
					}
					q.Params = ver
					ok = q.Verify(s.comm(&ver))
				})
				vt.onEnd = func(t *zvTask) {
					e.eval(cfg.FF, cfg.EC, cfg.N, cfg.Nodes, st.K, what, mem, x.BitLen())
					e.probe(fmt.Sprintf("%s inside=%v accepted=%v", st.K, want, ok))
					if t.panicV != nil {
						ok = false
					}
					if ok && !want {
						e.fail("outside-accepted", "%s: a proof whose response is outside the masking range (%s) is accepted (in memory %v)", where, what, mem)
					}
					if must && want && !ok {
						e.fail("inside-rejected", "%s: a proof whose response is inside the masking range (%s, secret of %d bits) is rejected (in memory %v) %s", where, what, x.BitLen(), mem, t.panicText())
					}
				}
			}
		}
		switch st.K {
		case "noroom":
			// Set-up refuses; should it not, proving must still end in the masking range.
			var q voteproof.ProofParams
			var err error
			made := false
			t := e.spawn(fmt.Sprintf("noroom%d", i), st.At, st.S, nil, 0, func(t *zvTask) {
				if q, err = voteproof.Setup(uint8(cfg.N), uint16(cfg.Bc), uint16(cfg.N+cfg.Bc+1+int(st.A)), 1, 100, voteproof.AlgebraicParameters{GFF: par.GFF, GEC: par.GEC}); err != nil {
					return
				}
				voteproof.Prove(x, rp, s.r1, s.r2, q)
				made = true
			})
			t.cap, t.readCap = 4_000_000, 5000
			t.onEnd = func(t *zvTask) {
				e.eval("noroom", cfg.FF, cfg.EC, cfg.N, cfg.Bc, st.A)
				e.probe(fmt.Sprintf("no room for masking: refused=%v", err != nil))
				if err != nil {
					return
				}
				if !made {
					e.fail("no-termination", "%s/%s: set-up accepts sizes %d/%d that leave %d bits for masking, and proving does not finish (%s)", cfg.FF, cfg.EC, cfg.N, cfg.Bc, st.A, t.panicText())
					return
				}
				if st.A <= 0 {
					e.fail("outside-published", "%s/%s: set-up accepts sizes %d/%d that leave %d bits for masking, and a proof is published although no response can be in the range", cfg.FF, cfg.EC, cfg.N, cfg.Bc, st.A)
				}
			}
		case "prove", "edge":
			fs := st.Faults
			what := zvFaultKinds(fs)
			if st.K == "edge" {
				// steer k so that the response falls on or next to a bound
				k := new(big.Int)
				cx := new(big.Int).Mul(new(big.Int).Sub(new(big.Int).Lsh(one, uint(cfg.Bc/8*8)), one), x)
				switch st.A {
				case 0:
					k.Sub(lo, one)
				case 1:
					k.Set(lo)
				case 2:
					k.Sub(hi, one)
				case 3:
					k.Sub(lo, cx)
				case 4:
					k.Sub(lo, big.NewInt(int64(1+rng.Intn(3))))
				case 5:
					k.Sub(hi, rng.BigNZ(new(big.Int).Add(cx, big.NewInt(2))))
				case 6:
					k.Sub(lo, rng.BigNZ(new(big.Int).Add(cx, big.NewInt(2))))
				default:
					k.Sub(hi, new(big.Int).Add(cx, one))
				}
				if k.Sign() < 0 || k.Cmp(hi) >= 0 {
					k.Sub(lo, one)
				}
				b := make([]byte, (hi.BitLen()-1+7)/8)
				k.FillBytes(b)
				fs = []zvFault{{At: 0, Kind: "pat", Pat: hex.EncodeToString(b), Count: 4}}
				what = fmt.Sprint("edge", st.A)
			}
			end := 0
			for _, f := range fs {
				if x := f.At + f.Count; x > end {
					end = x
				}
			}
			var proof voteproof.SigmaProof
			made := false
			t := e.spawn(fmt.Sprintf("%s%d", st.K, i), st.At, st.S, fs, 0, func(t *zvTask) {
				proof = voteproof.Prove(x, rp, s.r1, s.r2, par)
				made = true
			})
			t.cap = 4_000_000 + 4000*int64(end)
			t.readCap = end + 5000
			t.onEnd = func(t *zvTask) {
				if _, stuck := t.panicV.(zvStuck); stuck || (made && t.ent.reads-end > 2000 && !e.serial) {
					e.fail("no-termination", "%s: with entropy %s for %d draws and normal entropy afterwards proving has not finished after %d draws", where, what, end, t.ent.reads)
					return
				}
				if t.panicV != nil || !made {
					e.fail("prover-fails", "%s: proving with entropy %s fails: %s", where, what, t.panicText())
					return
				}
				e.probe(fmt.Sprintf("proofs retried=%v", t.ent.reads > 8))
				if !inside(proof.Z) {
					e.fail("outside-published", "%s: with entropy %s a proof is published whose response lies outside the masking range", where, what)
					return
				}
				judge(proof, true, true, what)
			}
		case "shift":
			// the equations still hold, but the response is outside
			var proof voteproof.SigmaProof
			made := false
			t := e.spawn(fmt.Sprintf("shift%d", i), st.At, st.S, nil, 0, func(t *zvTask) {
				proof = voteproof.Prove(x, rp, s.r1, s.r2, par)
				made = true
			})
			t.onEnd = func(t *zvTask) {
				if !made {
					return
				}
				pq := new(big.Int).Mul(np, nq)
				if np.Cmp(nq) == 0 {
					pq = new(big.Int).Set(np)
				}
				k := big.NewInt([]int64{1, -1, 2, -2, 1, 1 << 30}[st.A])
				proof.Z = new(big.Int).Add(proof.Z, k.Mul(k, pq))
				if st.A == 4 {
					proof.Z.Neg(proof.Z)
				}
				if inside(proof.Z) {
					return
				}
				judge(proof, false, false, fmt.Sprint("shift", st.A))
			}
		case "verify":
			fsl := zvLearn()
			if !fsl.sigmaOK && !(fsl.sigmaPup && transparent) {
				e.probe("challenge derivation unknown")
				continue
			}
			var proof voteproof.SigmaProof
			what := ""
			e.oracle(func() {
				k := new(big.Int)
				switch st.A {
				case 0:
					k.Sub(lo, one)
				case 1:
					k.Set(lo)
				case 2:
					k.Sub(hi, one)
				case 3:
					k.Set(hi)
				case 4:
					k.SetInt64(0)
				case 5:
					k.SetInt64(1)
				case 6:
					k.Add(hi, rng.Big(hi))
				case 7:
					k = rng.Big(lo)
				case 8:
					k.Neg(rng.BigNZ(hi))
				case 9:
					k.Add(hi, new(big.Int).Mul(np, nq))
				case 10:
					k.Sub(hi, rng.BigNZ(lo))
				default:
					k.Add(lo, rng.Big(new(big.Int).Sub(hi, lo)))
				}
				tp, t1, t2 := rng.BigNZ(np), rng.BigNZ(nq), rng.BigNZ(nq)
				proof.W = par.GFF.I.Element().BaseScale(tp)
				proof.Kp, proof.Kq1, proof.Kq2 = zvPed(k, tp, par.GFF), zvPed(k, t1, par.GEC), zvPed(k, t2, par.GEC)
				var c *big.Int
				if fsl.sigmaOK {
					c = zvSigmaHash(fsl.sigma, s.comm(&par), proof.W, proof.Kp, proof.Kq1, proof.Kq2, par.Bc)
				} else if !zvQuiet(func() { c = zvAskSigma(s.comm(&par), proof.W, proof.Kp, proof.Kq1, proof.Kq2, par) }) {
					return
				}
				proof.Challenge = c
				proof.Z = new(big.Int).Add(k, new(big.Int).Mul(c, x))
				ma := func(t, r, n *big.Int) *big.Int {
					v := new(big.Int).Mul(c, r)
					return v.Mod(v.Add(v, t), n)
				}
				proof.Sp, proof.Sq1, proof.Sq2 = ma(tp, rp, np), ma(t1, s.r1, nq), ma(t2, s.r2, nq)
				proof.Params = par
				what = fmt.Sprint("transcript", st.A)
			})
			if what == "" {
				e.probe("challenge derivation unknown")
				continue
			}
			judge(proof, inside(proof.Z), true, what)
		case "fresh":
			if !transparent || e.serial {
				continue
			}
			for k := int64(0); k < st.A; k++ {
				var proof voteproof.SigmaProof
				made := false
				t := e.spawn(fmt.Sprintf("fresh%d.%d", i, k), st.At, st.S+uint64(k), nil, 0, func(t *zvTask) {
					proof = voteproof.Prove(x, rp, s.r1, s.r2, par)
					made = true
				})
				t.ent.keep = true
				t.onEnd = func(t *zvTask) {
					if !made {
						e.fail("prover-fails", "%s: proving fails: %s", where, t.panicText())
						return
					}
					if !inside(proof.Z) {
						e.fail("outside-published", "%s: a proof is published whose response lies outside the masking range", where)
						return
					}
					e.oracle(func() {
						freshs.add(t, &proof, x, &par)
						e.eval("fresh", cfg.FF, cfg.EC, cfg.Nodes, t.ent.reads)
					})
				}
			}
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	freshs.check(e, where)
}

// zvRetries collects, for proofs made in transparent groups, which draws of the entropy source
// they were made from.
type zvRetries struct {
	min int
	fs  []struct{ reads, first int }
}

func (z *zvRetries) add(t *zvTask, proof *voteproof.SigmaProof, x *big.Int, par *voteproof.ProofParams) {
	z.addLog(t.ent.log, proof, x, par)
}

func (z *zvRetries) addLog(log []string, proof *voteproof.SigmaProof, x *big.Int, par *voteproof.ProofParams) {
	z.fs = append(z.fs, struct{ reads, first int }{len(log), zvLocate(log, zvSigmaNonces(nil, proof, x, par))})
	if z.min == 0 || len(log) < z.min {
		z.min = len(log)
	}
}

// check: a proof made after retries uses only what was drawn in the last attempt. It says
// nothing unless all proofs made in one attempt consist of values as they were drawn.
func (z *zvRetries) check(e *zvEngine, where string) {
	once := 0
	for _, f := range z.fs {
		if f.reads == z.min {
			if f.first < 0 {
				e.probe("draws not located")
				return
			}
			once++
		}
	}
	if once < 3 {
		return
	}
	for _, f := range z.fs {
		if f.reads == z.min {
			continue
		}
		e.probe("retried proofs with located draws")
		// (a draw may be rejected once in 2^60 or less in these groups)
		if f.first < 0 {
			e.fail("derived-retry", "%s: a proof made in %d draws uses a blinding factor that was never drawn, unlike proofs made in one attempt (%d draws): a retry derives it from earlier randomness", where, f.reads, z.min)
			return
		}
		if f.reads-f.first > z.min {
			e.fail("stale-retry", "%s: a proof made in %d draws uses draw %d, although one attempt takes %d: a retry reuses earlier randomness", where, f.reads, f.first, z.min)
			return
		}
	}
}

// zvLocate returns the index of the first of the draws behind the given factors, or -1 if not
// all of them can be found.
func zvLocate(log []string, ns []zvNonce) int {
	first := len(log)
	for _, n := range ns {
		found := -1
		for i, h := range log {
			b, _ := hex.DecodeString(h)
			v := new(big.Int).SetBytes(b)
			m := new(big.Int).Lsh(big.NewInt(1), uint(new(big.Int).Sub(n.mod, big.NewInt(1)).BitLen()))
			if v.Mod(v, m).Cmp(n.v) == 0 {
				found = i
			}
		}
		if found < 0 {
			return -1
		}
		if found < first {
			first = found
		}
	}
	return first
}
