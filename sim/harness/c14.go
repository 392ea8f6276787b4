//go:build go1.22

package main

// C14: independently set-up parties derive identical, sound public parameters.

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C14", gen: zvGenC14, exec: zvExecC14, quick: 800, deep: 150000,
		rule:   "one evaluation is one completed set-up whose parameters are compared with those of all other set-ups of the same election (in this run, in earlier runs, and in the other processes) and checked for soundness, or one ballot judged under another party's parameters; distinct cases differ in election, group, size, history before the set-up and entropy",
		reals:  []string{"setup, bulletproofs.Setup, voteproof.Setup, setupInnerProduct (through the proofs), MapToGroup of all groups, castVote, verifyVote"},
		stubs:  []string{"entropy source (any stream, failing, or stuck)", "scheduling, clock, restarts (simulated)", "membership is judged by own arithmetic"},
		assume: []string{"parties run the same program"},
	})
}

var zvC14Elections = []zvCfg{
	{FF: "setup", Lo: 101, Hi: 2000, Bc: 224, N: 16},
	{FF: "m256", Lo: 1, Hi: 200, Bc: 128, N: 8},
	{FF: "m264", Lo: 101, Hi: 2000, Bc: 128, N: 16},
	{FF: "m512", Lo: 0, Hi: 15, Bc: 200, N: 4},
}

func zvGenC14(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	p.Quantum, p.Budget = r.PickInt(0, 2, 10, 100, 1000), r.PickInt(20, 200, 1000)
	ec := zvCurves[r.Intn(len(zvCurves))]
	el := int64(r.Intn(len(zvC14Elections)))
	n := 5 + r.Intn(4)
	for i := 0; i < n; i++ {
		st := zvStep{At: int64(r.Intn(1500)), S: r.Sub(), Str: ec, A: el, Node: i}
		if r.Chance(1, 3) { // another election of its own
			st.Str, st.A = zvCurves[r.Intn(len(zvCurves))], int64(r.Intn(len(zvC14Elections)))
		}
		switch {
		case i < 2:
			st.K, st.Str, st.A = "setup", ec, el
		case r.Chance(1, 2):
			st.K = "setup"
		case r.Chance(1, 2):
			st.K, st.B = "bp", int64(r.PickInt(1, 2, 4, 8, 16, 32))
		default:
			st.K = "noise"
		}
		if r.Chance(1, 3) {
			st.Faults = []zvFault{{At: r.Intn(3), Kind: r.Pick("zeros", "ones", "err", "eof", "short", "part"), Count: 1000}}
		}
		if r.Chance(1, 4) && i > 1 {
			st.Kill = int64(1 + r.Intn(400))
		}
		p.Steps = append(p.Steps, st)
	}
	for i := 0; i < 2; i++ {
		p.Steps = append(p.Steps, zvStep{K: "cross", At: 500000 + int64(r.Intn(1000)), S: r.Sub(), A: int64(r.Intn(8)), B: int64(r.Intn(8)), C: int64(r.Intn(3))})
	}
	return p
}

// zvSeen holds what this process derived first, over all its runs.
var zvSeen = map[string]zvContent{}

func zvExecC14(e *zvEngine) {
	type party struct {
		key string
		cfg zvCfg
		pp  PublicParameters
	}
	var parties []*party
	compare := func(key, who string, c zvContent) {
		e.stats.Digests[key] = c.digest(true) + fmt.Sprintf("@%d", e.plan.Index)
		if o, ok := zvSeen[key]; ok {
			if d := o.diff(c, true); d != "" {
				e.fail("different-parameters", "%s: two set-ups of %s give different parameters (%s)", who, key, d)
			}
			return
		}
		zvSeen[key] = c
	}
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		who := fmt.Sprintf("%s%d", st.K, i)
		switch st.K {
		case "setup":
			var start func(at int64, kill int64, gen int)
			start = func(at int64, kill int64, gen int) {
				q := &party{cfg: zvC14Elections[int(st.A)%len(zvC14Elections)]}
				q.cfg.EC = st.Str
				if q.cfg.FF == "setup" {
					q.key = "setup/" + st.Str
				} else {
					q.key = fmt.Sprintf("%s/%s/%d/%d-%d/%d", q.cfg.EC, q.cfg.FF, q.cfg.N, q.cfg.Lo, q.cfg.Hi, q.cfg.Bc)
				}
				done := false
				var err error
				t := e.spawn(fmt.Sprintf("%s.%d", who, gen), at, st.S+uint64(gen), st.Faults, kill, func(t *zvTask) {
					q.pp, err = zvMakePP(q.cfg)
					done = true
				})
				t.onEnd = func(t *zvTask) {
					if t.panicV != nil || done && err != nil {
						e.fail("setup-fails", "set-up of %s (entropy %s) fails: %v %s", q.key, zvFaultKinds(st.Faults), err, t.panicText())
						return
					}
					if !done { // killed: the party restarts
						e.fault("restart")
						start(e.now+1, 0, gen+1)
						return
					}
					e.oracle(func() {
						e.eval(q.key, zvFaultKinds(st.Faults), len(parties), gen, len(e.tasks))
						compare(q.key, who, zvPPContent(&q.pp))
						var names []string
						var es []group.Element
						put := func(n string, x ...group.Element) {
							for j, y := range x {
								names = append(names, fmt.Sprint(n, j))
								es = append(es, y)
							}
						}
						put("G", q.pp.BPParams.G)
						put("H", q.pp.BPParams.H)
						put("Gg", q.pp.BPParams.Gg...)
						put("Hh", q.pp.BPParams.Hh...)
						zvSound(e, q.key, q.cfg.EC, names, es)
						ff := q.cfg.FF
						if ff == "setup" {
							ff = "m3072"
						}
						zvSound(e, q.key, ff, []string{"FF.G", "FF.H"}, []group.Element{q.pp.FFGroupParams.G, q.pp.EGPK})
						if x := q.pp.ECGroupParams; e.vio == nil && (zvEl(x.G) != zvEl(q.pp.BPParams.G) || zvEl(x.H) != zvEl(q.pp.BPParams.H)) {
							e.fail("unsound-parameters", "%s: the range proofs and the vote proof use different generators", q.key)
						}
						if len(q.pp.BPParams.Gg) != q.cfg.N || len(q.pp.BPParams.Hh) != q.cfg.N {
							e.fail("unsound-parameters", "%s: %d and %d generators for %d bits", q.key, len(q.pp.BPParams.Gg), len(q.pp.BPParams.Hh), q.cfg.N)
						}
						parties = append(parties, q)
					})
				}
			}
			start(st.At, st.Kill, 0)
		case "bp":
			var par bulletproofs.BulletProofSetupParams
			var err error
			done := false
			t := e.spawn(who, st.At, st.S, st.Faults, st.Kill, func(t *zvTask) {
				par, err = bulletproofs.Setup(int64(1)<<uint(st.B), zvGroup(st.Str))
				done = true
			})
			t.onEnd = func(t *zvTask) {
				if t.panicV != nil || done && err != nil {
					e.fail("setup-fails", "range proof set-up for %d bits in %s (entropy %s) fails: %v %s", st.B, st.Str, zvFaultKinds(st.Faults), err, t.panicText())
					return
				}
				if !done {
					return
				}
				e.oracle(func() {
					key := fmt.Sprintf("bp/%s/%d", st.Str, st.B)
					e.eval(key, zvFaultKinds(st.Faults), len(e.tasks))
					var c zvContent
					c.bpParams("", &par)
					compare(key, who, c)
					names, es := []string{"G", "H"}, []group.Element{par.G, par.H}
					for j := range par.Gg {
						names, es = append(names, fmt.Sprint("Gg", j)), append(es, par.Gg[j])
					}
					for j := range par.Hh {
						names, es = append(names, fmt.Sprint("Hh", j)), append(es, par.Hh[j])
					}
					zvSound(e, key, st.Str, names, es)
					if int64(len(par.Gg)) != st.B || int64(len(par.Hh)) != st.B {
						e.fail("unsound-parameters", "%s: %d and %d generators", key, len(par.Gg), len(par.Hh))
					}
				})
			}
		case "noise":
			// other activity: a vote in a small election, a damaged message, odd elements
			e.spawn(who, st.At, st.S, nil, st.Kill, func(t *zvTask) {
				rng := zvNewRNG(st.S, 81)
				c := zvCfg{EC: st.Str, FF: "m256", Lo: 3, Hi: 9, Bc: 96, N: 4}
				pp, err := zvMakePP(c)
				if err != nil {
					return
				}
				g := pp.ECGroupParams.I
				id, _ := g.Identity().MarshalJSON()
				for _, x := range []group.Element{g.Generator(), g.Element().BaseScale(big.NewInt(5))} {
					x.UnmarshalJSON(id)
					x.Add(x, g.Generator())
					x.Negate(x)
				}
				bd := zvCastChoice(pp, 3+rng.Intn(7))
				js := zvBallotJSON(&bd)
				var bad []byte
				e.oracle(func() { bad, _ = zvDamage(js, rng.Pick(zvDamageKinds...), 1, rng, pp) })
				zvQuiet(func() { zvCollectJSON(bad, pp) })
				zvQuiet(func() { zvCollectJSON(js, pp) })
				// a party may do with its own copies what it likes
				gen := g.Generator()
				gen.Add(gen, gen)
				h := g.Element()
				h.Set(pp.BPParams.H)
				h.Scale(h, big.NewInt(3))
			})
		case "cross":
			var a, b *party
			var v zvVerdict
			var ipp zvContent
			mem := st.C == 0
			ran := false
			t := e.spawn(who, st.At, st.S, nil, 0, func(t *zvTask) {
				// two parties of the same election
				for k := range parties {
					for l := range parties {
						x, y := parties[(k+int(st.A))%len(parties)], parties[(l+int(st.B))%len(parties)]
						if a == nil && x != y && x.key == y.key {
							a, b = x, y
						}
					}
				}
				if a == nil {
					return
				}
				bd, _ := castVote(a.pp)
				if mem {
					bd.BpLower.Params, bd.BpUpper.Params = b.pp.BPParams, b.pp.BPParams
					v = zvCollectMem(bd, b.pp)
				} else {
					v, _ = zvCollectJSON(zvBallotJSON(&bd), b.pp)
				}
				pa, _, err := bulletproofs.Prove(big.NewInt(1), a.pp.BPParams)
				if err != nil {
					panic(err)
				}
				e.oracle(func() {
					n := b.pp.ECGroupParams.I.N()
					ipp.ipp("", &pa.InnerProductProof, n, true)
					c := zvContent{}
					for _, it := range ipp {
						if len(it.Path) > 7 && it.Path[:7] == "Params." {
							c = append(c, it)
						}
					}
					compare("ipp/"+a.key, who, c[len(c)-1:])
					names, es := []string{"Uu", "G", "H"}, []group.Element{pa.InnerProductProof.Params.Uu, a.pp.BPParams.G, a.pp.BPParams.H}
					for j, x := range a.pp.BPParams.Gg {
						names, es = append(names, fmt.Sprint("Gg", j)), append(es, x)
					}
					for j, x := range a.pp.BPParams.Hh {
						names, es = append(names, fmt.Sprint("Hh", j)), append(es, x)
					}
					zvSound(e, a.key, a.cfg.EC, names, es)
				})
				ran = true
			})
			t.onEnd = func(t *zvTask) {
				if a == nil || e.vio != nil {
					return
				}
				e.eval("cross", a.key, mem)
				e.probe("ballots across parties")
				if t.panicV != nil || !ran || !v.accepted {
					e.fail("cross-rejected", "%s: a ballot cast under one party's parameters is rejected by another party (in memory %v) %s %s", a.key, mem, zvShortErr(v.err), t.panicText())
				}
			}
		}
	}
	e.run()
}

// zvSound: the generators are members of the group, not the identity, and all different.
func zvSound(e *zvEngine, who, name string, names []string, es []group.Element) {
	seen := map[string]string{}
	for i, x := range es {
		if e.vio != nil {
			return
		}
		if x == nil {
			e.fail("unsound-parameters", "%s: generator %s is missing", who, names[i])
			return
		}
		c := zvCanon(name, x)
		switch {
		case len(c) > 0 && c[0] == '!':
			e.fail("unsound-parameters", "%s: generator %s is not in the group (%s)", who, names[i], zvShortErr(c))
		case x.IsIdentity():
			e.fail("unsound-parameters", "%s: generator %s is the identity", who, names[i])
		case seen[zvEl(x)] != "":
			e.fail("unsound-parameters", "%s: generators %s and %s are the same", who, seen[zvEl(x)], names[i])
		}
		seen[zvEl(x)] = names[i]
	}
}
