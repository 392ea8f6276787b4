//go:build go1.22

package main

// C10: the cross-group proof ties ciphertext and both commitments to one secret.

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C10", gen: zvGenC10, exec: zvExecC10, quick: 8000, deep: 250000,
		rule:   "one evaluation is one proof (honest, altered or forged) judged against one statement; distinct cases differ in group pair, sizes, secret class, strategy or altered component, and way of delivery",
		reals:  []string{"voteproof.Setup, Prove, Verify, ProofUnmarshalJSON, group implementations"},
		stubs:  []string{"Byzantine provers (own implementation, learns the challenge derivation from an honest proof)", "entropy, scheduling (simulated)", "a transparent group replaces one or both groups in part of the runs"},
		assume: []string{"forgeries that need a discrete logarithm or a hash collision are out of reach", "false statements are tried with challenges of 64 bits or more", "the verifier uses its own parameters, as the collector does"},
	})
}

var zvC10FF = []string{"m256", "m264", "m320", "m512", "m200", "tf384", "m160", "tg192", "m257"}
var zvC10EC = []string{"p256", "r255", "k256", "p384", "tg", "tg384", "tg"}

func zvGenC10(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	c := &p.Cfg
	c.FF, c.EC = zvC10FF[r.Intn(len(zvC10FF))], zvC10EC[r.Intn(len(zvC10EC))]
	if r.Chance(1, 60) {
		c.FF = "m3072"
	}
	bg := zvOrderBits(c.FF)
	if b := zvOrderBits(c.EC); b < bg {
		bg = b
	}
	c.N = r.PickInt(8, 16, 16, 24, 32) // length of the secret
	max := bg - 2 - c.N
	if max > 256 {
		max = 256
	}
	switch r.Intn(4) {
	case 0:
		c.Bc = max / 8 * 8
	case 1:
		c.Bc = 64 + r.Intn(max-64+1)
	default:
		c.Bc = (64 + r.Intn(max-64+1)) / 8 * 8
	}
	p.Quantum, p.Budget = r.PickInt(0, 30, 500), r.PickInt(10, 300)
	for i := 0; i < 5; i++ {
		st := zvStep{At: int64(r.Intn(2000)), S: r.Sub()}
		switch (idx + i) % 5 {
		case 0:
			st.K = "honest"
			if r.Chance(1, 3) {
				st.Faults = []zvFault{{At: r.Intn(4), Kind: r.Pick("zeros", "ones", "low", "lead"), Count: r.PickInt(1, 1, 3)}}
			}
		case 1:
			st.K = "alter"
		case 2:
			st.K = "other-statement"
		default:
			st.K = "forge"
			st.Str = zvSigmaStrategies[(idx*2+i)%len(zvSigmaStrategies)]
		}
		p.Steps = append(p.Steps, st)
	}
	if r.Chance(1, 4) { // any challenge length, honest only
		c.Bc = r.Range(8, 64)
		if r.Chance(1, 3) {
			// sizes after the order of the curve, as the repository's set-up has them, also if the other group is smaller
			c.Str = "curve"
			c.FF, c.EC = r.Pick("m200", "m160", "m256"), r.Pick("p256", "k256", "p384", "tg384")
			c.Bc = 8 * r.Range(8, 27)
		}
		for i := range p.Steps {
			p.Steps[i].K, p.Steps[i].Str = "honest", ""
		}
	}
	zvAddNeighbours(p, r, "sigma", "sigma", "range")
	return p
}

func zvC10Params(c zvCfg) (voteproof.ProofParams, error) {
	var ff, gc voteproof.GroupParameters
	ff.I, gc.I = zvGroup(c.FF), zvGroup(c.EC)
	for _, g := range []*voteproof.GroupParameters{&ff, &gc} {
		g.F, g.N, g.G = g.I.P(), g.I.N(), g.I.Generator()
		h, err := zvMapOrScale(g.I)
		if err != nil {
			return voteproof.ProofParams{}, err
		}
		g.H = h
	}
	bg := gc.N.BitLen()
	if b := ff.N.BitLen(); b < bg && c.Str != "curve" {
		bg = b
	}
	return voteproof.Setup(uint8(c.N), uint16(c.Bc), uint16(bg), 1, 100, voteproof.AlgebraicParameters{GFF: ff, GEC: gc})
}

// zvMapOrScale: the second generator of a group; mod-p groups have no hashing.
func zvMapOrScale(g group.Group) (e group.Element, err error) {
	defer func() {
		if recover() != nil {
			e, err = g.Element().BaseScale(new(big.Int).Add(zvKey(zvCfg{FF: "m256"}), big.NewInt(2))), nil
		}
	}()
	return g.Element().MapToGroup("second generator")
}

func zvExecC10(e *zvEngine) {
	cfg := e.plan.Cfg
	var par, ver voteproof.ProofParams
	e.spawn("setup", 0, 1, nil, 0, func(t *zvTask) {
		var err error
		if par, err = zvC10Params(cfg); err == nil {
			ver, err = zvC10Params(cfg)
		}
		if err != nil {
			panic(err)
		}
	}).onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("setup-panic", "set-up for %s/%s with %d/%d bits fails: %s", cfg.FF, cfg.EC, cfg.N, cfg.Bc, t.panicText())
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	np, nq := par.GFF.I.N(), par.GEC.I.N()
	top := new(big.Int).Lsh(big.NewInt(1), uint(cfg.N))
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		if st.K == "neighbour" {
			zvNeighbour(e, i, st)
			continue
		}
		rng := zvNewRNG(st.S, 31)
		x := rng.Big(top)
		switch rng.Intn(5) {
		case 0:
			x = new(big.Int)
		case 1:
			x = new(big.Int).Sub(top, big.NewInt(1))
		case 2:
			x = big.NewInt(1)
		}
		rp := rng.BigNZ(np)
		s := &zvStatement{xp: x, x1: x, x2: x, ry: rp, rp: rp, r1: rng.Big(nq), r2: rng.Big(nq)}
		if rng.Chance(1, 8) {
			s.r1 = new(big.Int)
		}
		truth := true
		what := ""
		var proof voteproof.SigmaProof
		var comm voteproof.VerCommitments
		made := false
		var draft *zvSigmaMessage
		var orig *zvSigmaMessage // an accepted proof the verifier has seen before the altered one
		t := e.spawn(fmt.Sprintf("%s%d", st.K, i), st.At, st.S, st.Faults, 0, func(t *zvTask) {
			if st.K == "forge" {
				e.oracle(func() {
					made = zvQuiet(func() {
						d := rng.BigNZ(top)
						y := new(big.Int).Xor(x, d)
						switch rng.Intn(4) {
						case 0:
							s.xp = y
						case 1:
							s.x1 = y
						case 2:
							s.x2 = y
						default:
							s.ry = rng.BigNZ(np)
						}
						if st.Str == "crt" || st.Str == "neg-z" || st.Str == "late-Kp" {
							s.xp, s.x1, s.x2 = x, y, y
						}
						if st.Str == "late-Kq1" {
							s.xp, s.x1, s.x2 = x, y, x
						}
						if st.Str == "late-Kq2" {
							s.xp, s.x1, s.x2 = x, x, y
						}
						if st.Str == "late-W" {
							s.xp, s.x1, s.x2 = x, x, x
							s.ry = rng.BigNZ(np)
						}
						var ok bool
						if proof, comm, ok = zvForgeSigma(st.Str, s, par, rng); !ok {
							panic("not possible here")
						}
						truth = s.holds(np, nq)
						draft = zvSigmaDraft
					})
				})
				return
			}
			proof = voteproof.Prove(s.xp, s.rp, s.r1, s.r2, par)
			made = true
			e.oracle(func() {
				comm = s.comm(&par)
				if st.S&1 == 0 && st.K != "honest" {
					orig = &zvSigmaMessage{proof, comm}
				}
				switch st.K {
				case "alter":
					what = zvAlterSigma(&proof, rng, par)
					truth = what == ""
				case "other-statement":
					what, truth = zvAlterStatement(s, &comm, rng, par)
				}
			})
		})
		t.onEnd = func(t *zvTask) {
			if t.panicV != nil {
				e.fail("honest-prover-fails", "%s/%s, sizes %d/%d: proving fails: %s", cfg.FF, cfg.EC, cfg.N, cfg.Bc, t.panicText())
			}
			if !made || e.vio != nil {
				e.probe("no-proof/" + st.Str)
				return
			}
			for _, mem := range []bool{true, false} {
				ok := false
				msg := ""
				vt := e.spawn(fmt.Sprintf("verify%d", i), e.now, 2, nil, 0, func(t *zvTask) {
					if draft != nil {
						d := draft.p
						d.Params = ver
						zvQuiet(func() { d.Verify(draft.c) })
					}
					if orig != nil {
						d := orig.p
						d.Params = ver
						zvQuiet(func() { d.Verify(orig.c) })
					}
					q := proof
					if !mem {
						js, err := json.Marshal(&proof)
						if err != nil {
							panic(err)
						}
						if q, err = voteproof.ProofUnmarshalJSON(js, ver.GFF.I, ver.GEC.I); err != nil {
							msg = err.Error()
							return
						}
					}
					q.Params = ver
					ok = q.Verify(comm)
				})
				vt.onEnd = func(t *zvTask) {
					e.eval(cfg.FF, cfg.EC, cfg.N, cfg.Bc/32, st.K, st.Str, what, mem, x.BitLen() == 0)
					e.probe(fmt.Sprintf("%s accepted=%v", st.K, ok))
					if t.panicV != nil {
						msg, ok = "panic: "+t.panicText(), false
					}
					if ok && !truth {
						e.fail("false-statement-accepted", "%s/%s, sizes %d/%d: a proof made by %s %s %s for a false statement is accepted (in memory %v)", cfg.FF, cfg.EC, cfg.N, cfg.Bc, st.K, st.Str, what, mem)
					}
					if !ok && st.K == "honest" {
						e.fail("honest-rejected", "%s/%s, sizes %d/%d: an honest proof (secret of %d bits, entropy %s) is rejected (in memory %v) %s", cfg.FF, cfg.EC, cfg.N, cfg.Bc, x.BitLen(), zvFaultKinds(st.Faults), mem, msg)
					}
				}
			}
		}
	}
	e.run()
}

// zvAlterSigma changes one component; the altered proof must not be accepted.
func zvAlterSigma(p *voteproof.SigmaProof, r *zvRNG, par voteproof.ProofParams) string {
	type slot struct {
		name string
		e    *group.Element
		s    **big.Int
		g    group.Group
		n    *big.Int
	}
	np, nq := par.GFF.I.N(), par.GEC.I.N()
	sl := []slot{{"W", &p.W, nil, par.GFF.I, nil}, {"Kp", &p.Kp, nil, par.GFF.I, nil}, {"Kq1", &p.Kq1, nil, par.GEC.I, nil}, {"Kq2", &p.Kq2, nil, par.GEC.I, nil},
		{"Challenge", nil, &p.Challenge, nil, nil}, {"Z", nil, &p.Z, nil, nil}, {"Sp", nil, &p.Sp, nil, np}, {"Sq1", nil, &p.Sq1, nil, nq}, {"Sq2", nil, &p.Sq2, nil, nq}}
	s := sl[r.Intn(len(sl))]
	if s.e != nil {
		old := *s.e
		var nw group.Element
		switch r.Intn(4) {
		case 0:
			nw = s.g.Element().Add(old, s.g.Generator())
		case 1:
			nw = s.g.Element().Negate(old)
		case 2:
			nw = s.g.Identity()
		default:
			nw = s.g.Element().BaseScale(r.BigNZ(s.g.N()))
		}
		if zvEl(nw) == zvEl(old) {
			return ""
		}
		*s.e = nw
		return s.name
	}
	old := *s.s
	var nw *big.Int
	switch r.Intn(6) {
	case 0:
		nw = new(big.Int).Add(old, big.NewInt(1))
	case 1:
		nw = new(big.Int).Neg(old)
	case 2:
		nw = new(big.Int)
	case 3:
		nw = new(big.Int).Add(old, np)
	case 4:
		nw = new(big.Int).Add(old, new(big.Int).Mul(np, nq))
	default:
		nw = r.Big(nq)
	}
	if s.n != nil && new(big.Int).Mod(nw, s.n).Cmp(new(big.Int).Mod(old, s.n)) == 0 || nw.Cmp(old) == 0 {
		return ""
	}
	*s.s = nw
	return s.name
}

// zvAlterStatement keeps the honest proof and presents it for another statement.
func zvAlterStatement(s *zvStatement, c *voteproof.VerCommitments, r *zvRNG, par voteproof.ProofParams) (string, bool) {
	np, nq := par.GFF.I.N(), par.GEC.I.N()
	one := big.NewInt(1)
	what := r.Pick("xp", "x1", "x2", "ry", "rp", "r1", "r2", "all-x", "fresh", "swap")
	add := func(x *big.Int, n *big.Int) *big.Int { v := new(big.Int).Add(x, one); return v.Mod(v, n) }
	o := *s
	switch what {
	case "xp":
		s.xp = add(s.xp, np)
	case "x1":
		s.x1 = add(s.x1, nq)
	case "x2":
		s.x2 = add(s.x2, nq)
	case "ry":
		s.ry = add(s.ry, np)
	case "rp":
		s.rp = add(s.rp, np)
	case "r1":
		s.r1 = add(s.r1, nq)
	case "r2":
		s.r2 = add(s.r2, nq)
	case "all-x":
		s.xp, s.x1, s.x2 = add(s.xp, np), add(s.x1, nq), add(s.x2, nq)
	case "fresh":
		s.rp = r.BigNZ(np)
		s.ry = s.rp
	case "swap":
		s.r1, s.r2 = s.r2, s.r1
	}
	*c = s.comm(&par)
	oc := o.comm(&par)
	same := zvEl(oc.Y) == zvEl(c.Y) && zvEl(oc.Xp) == zvEl(c.Xp) && zvEl(oc.Xq1) == zvEl(c.Xq1) && zvEl(oc.Xq2) == zvEl(c.Xq2)
	return what, same
}
