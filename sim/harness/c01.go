//go:build go1.22

package main

// C01: every honestly cast ballot encrypts its candidate and is accepted by every collector.

import (
	"fmt"
	"math/big"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C01", gen: zvGenC01, exec: zvExecC01, quick: 700, deep: 60000,
		rule:   "one evaluation is one delivery of an honest ballot to one collector with its verdict; distinct cases differ in group, election, candidate class, entropy steering or way of delivery",
		reals:  []string{"setup, castVote, encryptVote, bulletproofs.Prove/Verify, voteproof.Prove/Verify, verifyVote, JSON coding of all messages, all group implementations"},
		stubs:  []string{"network and node lifecycle (simulated)", "entropy source (seeded stream)", "clock (simulated)", "ElGamal groups of own elections: the repository's ModP group with smaller safe primes"},
		assume: []string{"castVote chooses its candidate from the entropy source; the ballot is for whatever it chose", "own elections keep the challenge at 96 bits or more"},
	})
}

// zvSweepC01 goes through candidates one after the other: all of the program's own election in
// the first 48 sweeps, then notable and random numbers of the widest one, then all of those.
func zvSweepC01(r *zvRNG, s int) *zvPlan {
	const block = 40
	p := &zvPlan{Cfg: zvCfg{Nodes: 1, EC: r.Pick("tg", "tg", "tg384"), FF: r.Pick("m264", "m320"), Lo: 101, Hi: 2000, Bc: 224, N: 16}}
	var cs []int
	switch {
	case s < 48:
		for c := 101 + s*block; c < 101+(s+1)*block; c++ {
			cs = append(cs, c)
		}
	case s < 100:
		p.Cfg.Lo, p.Cfg.Hi = 0, 65535
		for i := 0; i < block; i++ {
			k := r.Intn(256)
			cs = append(cs, []int{k << 8, k<<8 | 255, k<<8 | 128, k<<8 | k, 1 << uint(r.Intn(16)), 1<<uint(r.Intn(16)) - 1, 1000 * r.Intn(66), r.Intn(65536), r.Intn(65536)}[r.Intn(9)])
		}
	default:
		p.Cfg.Lo, p.Cfg.Hi = 0, 65535
		for i := 0; i < block; i++ {
			cs = append(cs, ((s-100)*block+i)%65536)
		}
	}
	for i, c := range cs {
		if c < p.Cfg.Lo || c > p.Cfg.Hi {
			continue
		}
		p.Steps = append(p.Steps, zvStep{K: "cast", At: int64(i) * 100000, S: r.Sub(), A: -1,
			Faults: []zvFault{zvSteer(0, big.NewInt(int64(c-p.Cfg.Lo)), big.NewInt(int64(p.Cfg.Hi-p.Cfg.Lo+1)))},
			Del:    []zvDel{{Delay: 10, Mem: i%2 == 1}}})
	}
	return p
}

func zvGenC01(r *zvRNG, idx int, tier string) *zvPlan {
	if idx%7 == 3 {
		return zvSweepC01(r, idx/7)
	}
	p := &zvPlan{Cfg: zvElection(r, zvCurves, 12)}
	if r.Chance(1, 6) && p.Cfg.FF != "setup" && p.Cfg.Bc <= 224 { // the program's own candidates, in a quicker group
		p.Cfg.Lo, p.Cfg.Hi, p.Cfg.N = 101, 2000, 16
	}
	p.Quantum = r.PickInt(0, 40, 400, 4000)
	p.Budget = r.PickInt(20, 200, 2000)
	if r.Chance(1, 3) { // the process serves two elections
		c := zvElection(r, zvCurves, 5)
		if r.Chance(1, 3) { // alike but for something
			c2 := p.Cfg
			if p.Cfg.FF != "setup" {
				c2.Lo, c2.Hi = c.Lo, c.Lo+r.Intn(p.Cfg.Hi-p.Cfg.Lo+1)
				if c2.Hi > 65535 {
					c2.Hi = 65535
				}
			} else {
				c2.EC = c.EC
			}
			c = c2
		}
		p.Cfg2 = &c
	}
	n := 2 + r.Intn(3)
	at := int64(0)
	for i := 0; i < n; i++ {
		cfg := p.Cfg
		st := zvStep{K: "cast", At: at, S: r.Sub(), A: -1}
		if p.Cfg2 != nil && i%2 == 1 {
			st.B = 1
			cfg = *p.Cfg2
		}
		st.Node = r.Intn(cfg.Nodes)
		at += int64(r.Intn(3000))
		span := cfg.Hi - cfg.Lo + 1
		cand := []int{0, 1, span - 1, span - 2, r.Intn(span), 1 << uint(r.Intn(cfg.N)), 1<<uint(r.Intn(cfg.N)) - 1}[r.Intn(7)]
		if r.Chance(1, 3) { // notable as a number, not as a distance from the lowest
			k := r.Intn(256)
			cand = []int{k << 8, k<<8 | 255, 1 << uint(r.Intn(16)), 1<<uint(r.Intn(16)) - 1, 1000 * r.Intn(66)}[r.Intn(5)] - cfg.Lo
		}
		if cand < 0 || cand >= span {
			cand = span - 1
		}
		switch r.Intn(3) {
		case 0:
			st.A = int64(cfg.Lo + cand)
		case 1:
			st.Faults = append(st.Faults, zvSteer(0, big.NewInt(int64(cand)), big.NewInt(int64(span))))
		}
		if r.Chance(1, 3) {
			for j := r.Range(1, 3); j > 0; j-- {
				st.Faults = append(st.Faults, zvFault{At: 1 + r.Intn(90), Kind: r.Pick("zeros", "ones", "low", "lead"), Count: r.PickInt(1, 1, 1, 2, 5)})
			}
		}
		st.Del = zvNet(r, cfg.Nodes, 60000)
		for j := range st.Del {
			st.Del[j].Again = r.Intn(2)
		}
		p.Steps = append(p.Steps, st)
	}
	if r.Chance(1, 4) {
		p.Steps = append(p.Steps, zvStep{K: "crash", At: int64(r.Intn(80000)), Node: r.Intn(p.Cfg.Nodes)})
	}
	if r.Chance(1, 4) {
		p.Steps = append(p.Steps, zvStep{K: "clock", At: int64(r.Intn(40000)), A: int64(r.PickInt(-1, 1)) * int64(r.Intn(1<<40))})
	}
	return p
}

func zvFaultKinds(fs []zvFault) string {
	s := ""
	for _, f := range fs {
		s += f.Kind + ","
	}
	return s
}

func zvExecC01(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	main := w
	other := w
	if c := e.plan.Cfg2; c != nil {
		if other = zvNewWorldOf(e, *c); !other.ok {
			return
		}
	}
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		w := main
		if st.B == 1 {
			w = other
		}
		switch st.K {
		case "cast":
			w.castStep(i, st, w.honestVerdict)
		case "crash":
			t := e.spawn("crash", st.At, 1, nil, 0, func(*zvTask) {})
			t.onEnd = func(*zvTask) { w.crash(st.Node % len(w.nodes)) }
		case "clock":
			t := e.spawn("clock", st.At, 1, nil, 0, func(*zvTask) {})
			t.onEnd = func(*zvTask) { zvClockJump(e, st.A) }
		}
	}
	e.run()
}

// castStep spawns a voter; when it has cast, its ballot is sent as the step says.
func (w *zvWorld) castStep(i int, st zvStep, judge func(b *zvBallot, d zvDel, v zvVerdict)) {
	e := w.e
	nd := w.nodes[st.Node%len(w.nodes)]
	b := &zvBallot{step: i, choice: int(st.A)}
	t := e.spawn(fmt.Sprintf("voter%d", i), st.At, st.S, st.Faults, st.Kill, func(t *zvTask) {
		b.bd = zvCastAny(nd.pp, b.choice)
		b.js = zvBallotJSON(&b.bd)
		b.cast = true
	})
	t.onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("cast-fails", "casting a ballot (%s/%s, candidate %d of %d..%d, entropy %s) panics: %s", w.cfg.EC, w.cfg.FF, b.choice, w.cfg.Lo, w.cfg.Hi, zvFaultKinds(st.Faults), t.panicText())
			return
		}
		if !b.cast {
			return
		}
		w.ballots[i] = b
		e.oracle(func() {
			m, ok := w.dec.plain(b.bd.Ballot)
			if ok && (m < w.cfg.Lo || m > w.cfg.Hi || b.choice >= 0 && m != b.choice) {
				e.fail("wrong-plaintext", "the ballot for candidate %d (%d..%d, -1: any) encrypts %d", b.choice, w.cfg.Lo, w.cfg.Hi, m)
			}
		})
		for _, d := range st.Del {
			w.deliver(b, d, e.now+d.Delay, judge)
		}
		if len(st.Del) > 1 {
			e.fault("duplicate")
		}
	}
}

func (w *zvWorld) deliver(b *zvBallot, d zvDel, at int64, judge func(b *zvBallot, d zvDel, v zvVerdict)) {
	e := w.e
	nd := w.nodes[d.To%len(w.nodes)]
	var v zvVerdict
	done := false
	t := e.spawn(fmt.Sprintf("collect%d@%d", b.step, d.To), at, 3, nil, d.Kill, func(t *zvTask) {
		for k := 0; k <= d.Again; k++ {
			if d.Mem {
				v = zvCollectMem(b.bd, nd.pp)
			} else {
				v, _ = zvCollectJSON(b.js, nd.pp)
			}
			if !v.accepted {
				break
			}
		}
		done = true
	})
	nd.run = append(nd.run, t)
	t.onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("collector-panics", "a collector (%s/%s) panics on an honest ballot: %s", w.cfg.EC, w.cfg.FF, t.panicText())
			return
		}
		if !done { // the node crashed: the network delivers again
			d.Kill = 0
			e.fault("redelivery")
			w.deliver(b, d, e.now+500, judge)
			return
		}
		judge(b, d, v)
	}
}

func (w *zvWorld) honestVerdict(b *zvBallot, d zvDel, v zvVerdict) {
	st := w.e.plan.Steps[b.step]
	cl := "mid"
	if b.choice == w.cfg.Lo || b.choice == w.cfg.Hi {
		cl = "edge"
	}
	if b.choice < 0 {
		cl = "any"
	}
	w.e.eval(w.cfg.EC, w.cfg.FF, w.cfg.Lo, w.cfg.Hi, w.cfg.Bc, cl, zvFaultKinds(st.Faults), d.Mem)
	w.e.probe("honest/" + w.cfg.EC)
	if !v.accepted {
		w.e.fail("honest-rejected", "an honest ballot (%s/%s, candidate %d of %d..%d, challenge %d bits, entropy %s, in memory %v) is rejected %s",
			w.cfg.EC, w.cfg.FF, b.choice, w.cfg.Lo, w.cfg.Hi, w.cfg.Bc, zvFaultKinds(st.Faults), d.Mem, zvShortErr(v.err))
	}
}
