//go:build go1.22

package main

// C09: a range proof is accepted exactly when the committed value is in range.
// C11: the same for aggregated proofs, and no altered aggregated proof is accepted.

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C09", gen: zvGenC09, exec: zvExecC09, quick: 2500, deep: 200000,
		rule:   "one evaluation is one range proof (honest or forged) judged by the verifier; distinct cases differ in group, bit length, value class or strategy, and way of delivery",
		reals:  []string{"bulletproofs.Setup, Prove, Verify, JSON coding of proofs, inner product argument, group implementations"},
		stubs:  []string{"Byzantine provers (own implementation, learns the challenge derivation from an honest proof)", "entropy, scheduling (simulated)", "a transparent group replaces the curve in part of the runs"},
		assume: []string{"forgeries that need a discrete logarithm or a hash collision are out of reach"},
	})
	zvRegister(&zvScenario{
		prop: "C11", gen: zvGenC11, exec: zvExecC11, quick: 2500, deep: 200000,
		rule:   "one evaluation is one aggregated proof (honest, altered or forged) judged by the verifier; distinct cases differ in group, bit length, number of values, value class, strategy or altered component",
		reals:  []string{"bulletproofs.Setup, MultiProve, MultiBulletProof.Verify, inner product argument, group implementations"},
		stubs:  []string{"Byzantine provers and the altering network", "entropy, scheduling (simulated)", "a transparent group replaces the curve in part of the runs"},
		assume: []string{"forgeries that need a discrete logarithm or a hash collision are out of reach", "the number of values divides the total bit length (a power of two)"},
	})
}

// zvRangeValue picks a value around the bounds of [0, 2^n).
func zvRangeValue(r *zvRNG, n int, bad bool, order *big.Int) *big.Int {
	top := new(big.Int).Lsh(big.NewInt(1), uint(n))
	if !bad {
		switch r.Intn(6) {
		case 0:
			return new(big.Int)
		case 1:
			return new(big.Int).Sub(top, big.NewInt(1))
		case 2:
			return new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(n)))
		case 3:
			return new(big.Int).Rsh(new(big.Int).Sub(top, big.NewInt(1)), uint(r.Intn(n)))
		}
		return r.Big(top)
	}
	switch r.Intn(9) {
	case 0:
		return top
	case 1:
		return new(big.Int).Add(top, big.NewInt(int64(1+r.Intn(1000))))
	case 2:
		return big.NewInt(-1)
	case 3:
		return big.NewInt(-int64(1 + r.Intn(70000)))
	case 4:
		return new(big.Int).Sub(order, big.NewInt(int64(1+r.Intn(3))))
	case 5:
		return new(big.Int).Lsh(top, uint(r.Intn(20)))
	case 6:
		return new(big.Int).Sub(new(big.Int).Lsh(top, 1), big.NewInt(1))
	case 7:
		return new(big.Int).Rsh(order, 1)
	}
	return new(big.Int).Add(top, r.Big(new(big.Int).Sub(order, top)))
}

func zvInRange(v *big.Int, n int, order *big.Int) bool {
	return new(big.Int).Mod(v, order).BitLen() <= n
}

func zvGenC09(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	p.Cfg = zvCfg{EC: r.Pick("tg", "tg", "p256", "r255", "k256", "p384"), N: []int{1, 2, 4, 8, 16, 32}[idx%6], Nodes: 1}
	p.Quantum, p.Budget = r.PickInt(0, 30, 500), r.PickInt(10, 300)
	n := 4
	if p.Cfg.EC != "tg" && p.Cfg.N >= 16 {
		n = 2
	}
	for i := 0; i < n; i++ {
		st := zvStep{At: int64(r.Intn(2000)), S: r.Sub()}
		switch (idx/6 + i) % 4 {
		case 0:
			st.K = "honest"
		case 1:
			st.K = "honest-bad"
		default:
			st.K = "forge"
			st.Str = zvRangeStrategies[(idx/6*2+i)%len(zvRangeStrategies)]
		}
		if st.K == "honest" && r.Chance(1, 3) {
			st.Faults = []zvFault{{At: r.Intn(2*p.Cfg.N + 5), Kind: r.Pick("zeros", "ones", "low", "lead"), Count: r.PickInt(1, 1, 3)}}
		}
		st.Del = []zvDel{{Mem: true}, {Mem: false}}
		p.Steps = append(p.Steps, st)
	}
	zvAddNeighbours(p, r, "range", "range", "multi", "sigma")
	return p
}

func zvExecC09(e *zvEngine) {
	cfg := e.plan.Cfg
	var par, ver bulletproofs.BulletProofSetupParams
	set := func() {
		var err error
		if par, err = bulletproofs.Setup(int64(1)<<uint(cfg.N), zvGroup(cfg.EC)); err == nil {
			ver, err = bulletproofs.Setup(int64(1)<<uint(cfg.N), zvGroup(cfg.EC))
		}
		if err != nil {
			e.fail("setup-error", "set-up for %d bits in %s fails: %v", cfg.N, cfg.EC, err)
		}
	}
	e.spawn("setup", 0, 1, nil, 0, func(t *zvTask) { set() }).onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("setup-panic", "set-up for %d bits in %s panics: %s", cfg.N, cfg.EC, t.panicText())
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	order := par.GP.N()
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		if st.K == "neighbour" {
			zvNeighbour(e, i, st)
			continue
		}
		rng := zvNewRNG(st.S, 21)
		v := zvRangeValue(rng, cfg.N, st.K != "honest", order)
		var bp, draft bulletproofs.BulletProof
		made, drafted := false, false
		in := zvInRange(v, cfg.N, order)
		t := e.spawn(fmt.Sprintf("%s%d", st.K, i), st.At, st.S, st.Faults, 0, func(t *zvTask) {
			if st.K == "forge" {
				e.oracle(func() {
					zvQuiet(func() {
						k := zvNewKit(par, 1, rng)
						if p := k.forge(st.Str, []*big.Int{v}); p != nil {
							bp = p.single(k)
							if p.draft != nil {
								draft, drafted = p.draft.single(k), true
							}
							in = zvInRange(p.vals[0], cfg.N, order)
							v = p.vals[0]
							made = true
						}
					})
				})
				return
			}
			b, _, err := bulletproofs.Prove(v, par)
			if err == nil {
				bp, made = b, true
			} else if st.K == "honest" {
				panic(err)
			}
		})
		t.onEnd = func(t *zvTask) {
			if t.panicV != nil && st.K == "honest" {
				e.fail("honest-prover-fails", "%s, %d bits: proving %v fails: %s", cfg.EC, cfg.N, v, t.panicText())
			}
			if !made || e.vio != nil {
				e.probe("no-proof/" + st.K + st.Str)
				return
			}
			for _, d := range st.Del {
				var ok bool
				decErr := ""
				vt := e.spawn(fmt.Sprintf("verify%d", i), e.now+d.Delay, 2, nil, 0, func(t *zvTask) {
					if drafted { // the verifier has seen the message before
						zvQuiet(func() { draft.Verify() })
					}
					if d.Mem {
						ok, _ = bp.Verify()
						return
					}
					q, err := bulletproofs.BulletProofUnmarshalJSON(zvMustJSON(&bp), ver)
					if err != nil {
						decErr = err.Error()
						return
					}
					ok, _ = q.Verify()
				})
				vt.onEnd = func(t *zvTask) {
					e.eval(cfg.EC, cfg.N, st.K, st.Str, d.Mem, v.BitLen(), len(st.Faults))
					if t.panicV != nil {
						decErr = "panic: " + t.panicText()
					}
					e.probe(fmt.Sprintf("%s accepted=%v", st.K, ok))
					if ok && !in {
						e.fail("out-of-range-accepted", "%s, %d bits: a proof for the committed value %v made by %s %s is accepted (in memory %v)", cfg.EC, cfg.N, v, st.K, st.Str, d.Mem)
					}
					if !ok && st.K == "honest" {
						e.fail("in-range-rejected", "%s, %d bits: an honest proof for %v (entropy %s) is rejected (in memory %v) %s", cfg.EC, cfg.N, v, zvFaultKinds(st.Faults), d.Mem, decErr)
					}
				}
			}
		}
	}
	e.run()
}

// ---- aggregated ------------------------------------------------------------------------

func zvGenC11(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	N := []int{2, 4, 8, 16, 32, 1}[idx%6]
	m := 1 << uint(r.Intn(zvLog2(N)+1))
	p.Cfg = zvCfg{EC: r.Pick("tg", "tg", "p256", "r255", "k256", "p384"), N: N, Nodes: m}
	p.Quantum, p.Budget = r.PickInt(0, 30, 500), r.PickInt(10, 300)
	n := 4
	if p.Cfg.EC != "tg" && p.Cfg.N >= 16 {
		n = 2
	}
	for i := 0; i < n; i++ {
		st := zvStep{At: int64(r.Intn(2000)), S: r.Sub(), A: int64(r.Intn(4))}
		switch (idx/6 + i) % 4 {
		case 0:
			st.K = "honest"
			if r.Chance(1, 3) {
				st.Faults = []zvFault{{At: r.Intn(2*N + 5), Kind: r.Pick("zeros", "ones", "low", "lead"), Count: r.PickInt(1, 1, 3)}}
			}
		case 1:
			st.K = "honest-bad"
		case 2:
			st.K = "alter"
			st.B = int64(r.Intn(1 << 30))
		default:
			st.K = "forge"
			st.Str = zvRangeStrategies[(idx/6+i)%len(zvRangeStrategies)]
		}
		p.Steps = append(p.Steps, st)
	}
	zvAddNeighbours(p, r, "multi", "multi", "range", "sigma")
	return p
}

func zvLog2(n int) int {
	k := 0
	for n > 1 {
		n /= 2
		k++
	}
	return k
}

func zvExecC11(e *zvEngine) {
	cfg := e.plan.Cfg
	m := cfg.Nodes
	w := cfg.N / m
	var par bulletproofs.BulletProofSetupParams
	e.spawn("setup", 0, 1, nil, 0, func(t *zvTask) {
		var err error
		if par, err = bulletproofs.Setup(int64(1)<<uint(cfg.N), zvGroup(cfg.EC)); err != nil {
			panic(err)
		}
	}).onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("setup-panic", "set-up for %d bits in %s fails: %s", cfg.N, cfg.EC, t.panicText())
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	order := par.GP.N()
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		if st.K == "neighbour" {
			zvNeighbour(e, i, st)
			continue
		}
		rng := zvNewRNG(st.S, 22)
		vs := make([]*big.Int, m)
		for j := range vs {
			vs[j] = zvRangeValue(rng, w, false, order)
		}
		if st.K == "honest-bad" || st.K == "forge" {
			// one value (or several) outside
			c := rng.Intn(m)
			vs[c] = zvRangeValue(rng, w, true, order)
			if rng.Chance(1, 4) {
				vs[rng.Intn(m)] = zvRangeValue(rng, w, true, order)
			}
			if st.K == "honest-bad" && m > 1 && rng.Chance(1, 3) {
				// compensating: together the values still fit the total
				vs[0] = new(big.Int).Lsh(big.NewInt(1), uint(w))
			}
		}
		all := func(vs []*big.Int) bool {
			for _, v := range vs {
				if !zvInRange(v, w, order) {
					return false
				}
			}
			return true
		}
		in := all(vs)
		var mp, draft bulletproofs.MultiBulletProof
		drafted := false
		made, changed := false, ""
		var orig *bulletproofs.MultiBulletProof // what the verifier has accepted before
		t := e.spawn(fmt.Sprintf("%s%d", st.K, i), st.At, st.S, st.Faults, 0, func(t *zvTask) {
			if st.K == "forge" {
				e.oracle(func() {
					zvQuiet(func() {
						k := zvNewKit(par, -m, rng)
						if p := k.forge(st.Str, vs); p != nil {
							mp = p.aggregated(k)
							if p.draft != nil {
								draft, drafted = p.draft.aggregated(k), true
							}
							in = all(p.vals)
							vs = p.vals
							made = true
						}
					})
				})
				return
			}
			b, _, err := bulletproofs.MultiProve(vs, par)
			if err == nil {
				mp, made = b, true
			} else if st.K == "honest" {
				panic(err)
			}
			if st.K == "alter" && made {
				if st.S&1 == 0 {
					o := mp
					orig = &o
				}
				e.oracle(func() { changed = zvAlterMulti(&mp, rng, par.GP) })
			}
		})
		t.onEnd = func(t *zvTask) {
			if t.panicV != nil && (st.K == "honest" || st.K == "alter") {
				e.fail("honest-prover-fails", "%s, %d bits, %d values: proving %v fails: %s", cfg.EC, cfg.N, m, vs, t.panicText())
			}
			if !made || e.vio != nil || st.K == "alter" && changed == "" {
				e.probe("no-proof/" + st.K + st.Str)
				return
			}
			var ok bool
			vt := e.spawn(fmt.Sprintf("verify%d", i), e.now, 2, nil, 0, func(t *zvTask) {
				if drafted {
					zvQuiet(func() { draft.Verify() })
				}
				if orig != nil {
					zvQuiet(func() { orig.Verify() })
				}
				ok, _ = mp.Verify()
			})
			vt.onEnd = func(t *zvTask) {
				e.eval(cfg.EC, cfg.N, m, st.K, st.Str, changed, len(st.Faults))
				e.probe(fmt.Sprintf("%s accepted=%v", st.K, ok))
				msg := ""
				if t.panicV != nil {
					msg = "panic: " + t.panicText()
					ok = false
				}
				switch {
				case ok && st.K == "alter":
					e.fail("altered-accepted", "%s, %d bits, %d values: a proof with altered %s is accepted", cfg.EC, cfg.N, m, changed)
				case ok && !in:
					e.fail("out-of-range-accepted", "%s, %d bits, %d values: a proof for the committed values %v made by %s %s is accepted", cfg.EC, cfg.N, m, vs, st.K, st.Str)
				case !ok && st.K == "honest":
					e.fail("in-range-rejected", "%s, %d bits, %d values: an honest proof for %v (entropy %s) is rejected %s", cfg.EC, cfg.N, m, vs, zvFaultKinds(st.Faults), msg)
				}
			}
		}
	}
	e.run()
}

// zvAlterMulti changes one component of an aggregated proof to a different value.
func zvAlterMulti(p *bulletproofs.MultiBulletProof, r *zvRNG, g group.Group) string {
	n := g.N()
	type slot struct {
		name string
		e    *group.Element
		s    **big.Int
	}
	p.Vs = append([]group.Element{}, p.Vs...)
	ip := &p.InnerProductProof
	ip.L, ip.R = append([]group.Element{}, ip.L...), append([]group.Element{}, ip.R...)
	sl := []slot{{"A", &p.A, nil}, {"S", &p.S, nil}, {"T1", &p.T1, nil}, {"T2", &p.T2, nil}, {"Taux", nil, &p.Taux}, {"Mu", nil, &p.Mu}, {"Tprime", nil, &p.Tprime},
		{"P", &ip.P, nil}, {"Cc", nil, &ip.Cc}, {"a", nil, &ip.A}, {"b", nil, &ip.B}}
	for i := range p.Vs {
		sl = append(sl, slot{fmt.Sprint("Vs", i), &p.Vs[i], nil})
	}
	for i := range ip.L {
		sl = append(sl, slot{fmt.Sprint("L", i), &ip.L[i], nil})
	}
	for i := range ip.R {
		sl = append(sl, slot{fmt.Sprint("R", i), &ip.R[i], nil})
	}
	if r.Chance(1, 10) && len(ip.L) > 0 {
		switch r.Intn(5) {
		case 0:
			ip.L, ip.R = ip.L[:len(ip.L)-1], ip.R[:len(ip.R)-1]
			return "L,R (shortened)"
		case 1:
			ip.L, ip.R = append(ip.L, g.Identity()), append(ip.R, g.Identity())
			return "L,R (lengthened)"
		case 2:
			if ip.L[0].IsEqual(ip.R[0]) {
				return ""
			}
			ip.L[0], ip.R[0] = ip.R[0], ip.L[0]
			return "L,R (swapped)"
		case 3:
			if len(p.Vs) < 2 || p.Vs[0].IsEqual(p.Vs[1]) {
				return ""
			}
			p.Vs[0], p.Vs[1] = p.Vs[1], p.Vs[0]
			return "Vs (swapped)"
		default:
			if len(p.Vs) < 2 {
				return ""
			}
			p.Vs = p.Vs[:len(p.Vs)/2]
			return "Vs (shortened)"
		}
	}
	s := sl[r.Intn(len(sl))]
	if s.e != nil {
		old := *s.e
		var nw group.Element
		switch r.Intn(5) {
		case 0:
			nw = g.Element().Add(old, g.Generator())
		case 1:
			nw = g.Element().Negate(old)
		case 2:
			nw = g.Identity()
		case 3:
			nw = g.Element().Add(old, p.Params.H)
		default:
			nw = g.Element().BaseScale(r.BigNZ(n))
		}
		if zvEl(nw) == zvEl(old) {
			return ""
		}
		*s.e = nw
		return s.name
	}
	old := *s.s
	var nw *big.Int
	switch r.Intn(4) {
	case 0:
		nw = new(big.Int).Add(old, big.NewInt(1))
	case 1:
		nw = new(big.Int).Neg(old)
	case 2:
		nw = new(big.Int)
	default:
		nw = r.Big(n)
	}
	if new(big.Int).Mod(nw, n).Cmp(new(big.Int).Mod(old, n)) == 0 {
		return ""
	}
	*s.s = nw
	return s.name
}
