//go:build go1.22

package main

// A neighbour is another honest prover and verifier in the same process that works with other
// sizes and other groups while the run's own provers and verifiers are at work.

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/voteproof"
)

// zvAddNeighbours appends neighbours to a plan; kinds names what they do.
func zvAddNeighbours(p *zvPlan, r *zvRNG, kinds ...string) {
	if !r.Chance(1, 3) {
		return
	}
	for i := r.PickInt(1, 1, 2); i > 0; i-- {
		p.Steps = append(p.Steps, zvStep{K: "neighbour", Str: r.Pick(kinds...), At: int64(r.Intn(2000)), S: r.Sub(), A: int64(r.PickInt(1, 2, 3))})
	}
}

// zvNeighbour runs one; nothing it makes may be refused.
func zvNeighbour(e *zvEngine, i int, st zvStep) {
	cfg := e.plan.Cfg
	rng := zvNewRNG(st.S, 71)
	own := cfg.EC
	done, ok := false, true
	what := ""
	t := e.spawn(fmt.Sprintf("neighbour%d", i), st.At, st.S, nil, 0, func(t *zvTask) {
		switch st.Str {
		case "range", "multi":
			ec := rng.Pick(own, "tg", "tg", "p256", "r255")
			n := rng.PickInt(1, 2, 4, 8, 8)
			if st.Str == "multi" {
				n = rng.PickInt(2, 4, 8)
			}
			if n == cfg.N && ec == own {
				n = 16 / n
			}
			par, err := bulletproofs.Setup(int64(1)<<uint(n), zvGroup(ec))
			if err != nil {
				panic(err)
			}
			for k := int64(0); k < st.A && ok; k++ {
				m := 1
				if st.Str == "multi" {
					m = 1 << uint(1+rng.Intn(zvLog2(n)))
				}
				vs := make([]*big.Int, m)
				for j := range vs {
					vs[j] = zvRangeValue(rng, n/m, false, par.GP.N())
				}
				what = fmt.Sprintf("%s proof in %s with %d bits for %v", st.Str, ec, n, vs)
				if st.Str == "multi" {
					mp, _, err := bulletproofs.MultiProve(vs, par)
					if err != nil {
						panic(err)
					}
					ok, _ = mp.Verify()
				} else {
					bp, _, err := bulletproofs.Prove(vs[0], par)
					if err != nil {
						panic(err)
					}
					ok, _ = bp.Verify()
				}
				e.eval("neighbour", st.Str, ec, n, m)
			}
		case "sigma":
			c := zvCfg{FF: rng.Pick("m160", "tg192", "tf384", "m200"), EC: rng.Pick("tg", "tg384", "p256"), N: rng.PickInt(8, 16, 24, 32), Bc: rng.PickInt(8, 32, 64, 96)}
			if c.N == cfg.N && c.Bc == cfg.Bc {
				c.N = 20
			}
			par, err := zvC10Params(c)
			if err != nil {
				panic(err)
			}
			for k := int64(0); k < st.A && ok; k++ {
				x := rng.Big(new(big.Int).Lsh(big.NewInt(1), uint(c.N)))
				rp := rng.BigNZ(par.GFF.I.N())
				s := &zvStatement{xp: x, x1: x, x2: x, ry: rp, rp: rp, r1: rng.BigNZ(par.GEC.I.N()), r2: rng.BigNZ(par.GEC.I.N())}
				what = fmt.Sprintf("cross-group proof in %s/%s with sizes %d/%d", c.FF, c.EC, c.N, c.Bc)
				proof := voteproof.Prove(x, rp, s.r1, s.r2, par)
				var comm voteproof.VerCommitments
				e.oracle(func() { comm = s.comm(&par) })
				ok = proof.Verify(comm)
				e.eval("neighbour", c.FF, c.EC, c.N, c.Bc)
			}
		}
		done = true
	})
	t.onEnd = func(t *zvTask) {
		if !done {
			e.fail("neighbour-fails", "another honest prover in the same process, working with other sizes: making or judging its %s fails: %s", what, t.panicText())
			return
		}
		e.probe(fmt.Sprintf("neighbour %s accepted=%v", st.Str, ok))
		if !ok {
			e.fail("neighbour-rejected", "another honest prover in the same process, working with other sizes: its %s is rejected", what)
		}
	}
}
