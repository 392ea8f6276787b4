//go:build go1.22

package main

// C07: an entropy failure never yields a ballot or proof made with bad randomness.

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C07", gen: zvGenC07, exec: zvExecC07, quick: 1200, deep: 200000,
		rule:   "one evaluation is one operation with a failing entropy source (published or not, and if published its verdict and blinding factors), or one ballot cast after recovery; distinct cases differ in operation, group kind, failure shape, failing read and outcome",
		reals:  []string{"castVote, encryptVote, bulletproofs.Prove, MultiProve, voteproof.Prove, verifyVote"},
		stubs:  []string{"the entropy source (seeded, fails as planned)", "a transparent group where blinding factors are read back", "scheduling, clock"},
		assume: []string{"a panic, an error or an endless wait for entropy publishes nothing", "a properly drawn factor has no run of 80 equal bits, differs from all others and depends on the stream"},
	})
}

var zvC07Ops = []string{"cast", "range", "multi", "sigma", "encrypt", "choice"}

func zvGenC07(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	c := &p.Cfg
	c.EC, c.FF = r.Pick("tg", "tg384", "tg192"), r.Pick("tf384", "tg192", "tg")
	if c.EC == c.FF {
		c.FF = "tf384"
	}
	c.N = r.PickInt(1, 2, 2, 2, 4, 4)
	if r.Chance(1, 15) {
		c.N = r.PickInt(8, 16)
	}
	c.Str = fmt.Sprint(r.Intn(5))
	c.Lo = r.Intn(60000)
	if c.Hi = c.Lo + r.Range(1, 1<<uint(c.N)-1); c.Hi > 65535 {
		c.Hi = 65535
	}
	c.Bc = r.PickInt(64, 80, 96, 128, 144)
	c.Nodes = 1
	if r.Chance(1, 5) {
		p.Cfg = zvElection(r, zvCurves, 5)
		p.Cfg.Nodes = 1
	}
	p.Quantum, p.Budget = r.PickInt(0, 50, 500), r.PickInt(20, 100)
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		st := zvStep{K: "fail", Str: zvC07Ops[(idx+i)%len(zvC07Ops)], At: int64(r.Intn(20000)), S: r.Sub(), A: int64(idx/6 + i*7 + r.Intn(3))}
		st.Faults = []zvFault{{Kind: r.Pick("err", "err", "eof", "part", "short", "zero-n"), Count: r.PickInt(1, 1, 1, 2, 1000, r.Range(2, 6), r.Range(2, 9))}}
		if st.Faults[0].Kind == "zero-n" || st.Faults[0].Kind == "short" {
			st.Faults[0].Count = r.PickInt(1, 2, 5)
		}
		if r.Chance(1, 6) {
			st.Faults = append(st.Faults, zvFault{At: r.Intn(6), Kind: r.Pick("err", "part", "short"), Count: 1})
		}
		p.Steps = append(p.Steps, st)
		if r.Chance(2, 3) {
			p.Steps = append(p.Steps, zvStep{K: "heal", At: int64(r.Intn(200_000)), S: r.Sub(), A: int64(r.Intn(2))})
		}
	}
	p.Steps = append(p.Steps, zvStep{K: "heal", At: 90_000_000, S: r.Sub()})
	return p
}

// zvMake performs an operation that publishes something, and returns how to verify it.
func zvMake(op string, cfg zvCfg, pp PublicParameters, seed uint64, e *zvEngine) (pub []byte, ns []zvNonce, verify func() bool) {
	_, tr := pp.ECGroupParams.I.(*zvTG)
	r := zvNewRNG(seed, 77)
	n := pp.ECGroupParams.I.N()
	span := 1 << uint(pp.BPParams.N)
	switch op {
	case "cast", "choice":
		ch := -1
		if op == "choice" {
			ch = cfg.Lo + r.Intn(cfg.Hi-cfg.Lo+1)
		}
		bd := zvCastAny(pp, ch)
		e.oracle(func() {
			pub = zvBallotJSON(&bd)
			if tr {
				ns = append(ns, zvNonce{"encrypt.r", zvCoef(bd.Ballot.U, pp.FFGroupParams.I.Generator()), pp.FFGroupParams.I.N()})
				for k, b := range []*bulletproofs.BulletProof{&bd.BpLower, &bd.BpUpper} {
					ns = zvBPNonces([]string{"lower.", "upper."}[k], ns, pp.BPParams.H, pp.BPParams.Gg, pp.BPParams.Hh, n, zvOne(b.V), b.A, b.S, b.T1, b.T2)
				}
				x := new(big.Int).Add(zvCoef(bd.BpLower.V, pp.ECGroupParams.I.Generator()), big.NewInt(int64(cfg.Lo)))
				ns = zvSigmaNonces(ns, &bd.VoteProof, x, &pp.RPParams)
			}
		})
		verify = func() bool { ok, _ := verifyVote(bd, pp.RPParams); return ok }
	case "range":
		b, g, err := bulletproofs.Prove(big.NewInt(int64(r.Intn(span))), pp.BPParams)
		if err != nil {
			return
		}
		e.oracle(func() {
			pub = zvMustJSON(b)
			if tr {
				ns = zvBPNonces("range.", ns, pp.BPParams.H, pp.BPParams.Gg, pp.BPParams.Hh, n, zvOne(b.V), b.A, b.S, b.T1, b.T2)
			} else {
				ns = append(ns, zvNonce{"range.gamma", g, n})
			}
		})
		verify = func() bool { ok, _ := b.Verify(); return ok }
	case "multi":
		m := zvShares(cfg, int(pp.BPParams.N))
		vs := make([]*big.Int, m)
		for j := range vs {
			vs[j] = big.NewInt(int64(r.Intn(1 << uint(int(pp.BPParams.N)/m))))
		}
		b, gs, err := bulletproofs.MultiProve(vs, pp.BPParams)
		if err != nil {
			return
		}
		e.oracle(func() {
			pub = zvMustJSON(b)
			if tr {
				ns = zvBPNonces("multi.", ns, pp.BPParams.H, pp.BPParams.Gg, pp.BPParams.Hh, n, b.Vs, b.A, b.S, b.T1, b.T2)
			} else {
				for j, g := range gs {
					ns = append(ns, zvNonce{fmt.Sprint("multi.gamma", j), g, n})
				}
			}
		})
		verify = func() bool { ok, _ := b.Verify(); return ok }
	case "sigma":
		x := big.NewInt(int64(r.Intn(65536)))
		rp, r1, r2 := r.BigNZ(pp.FFGroupParams.I.N()), r.BigNZ(n), r.BigNZ(n)
		p := voteproof.Prove(x, rp, r1, r2, pp.RPParams)
		st := &zvStatement{xp: x, x1: x, x2: x, ry: rp, rp: rp, r1: r1, r2: r2}
		e.oracle(func() {
			pub = zvMustJSON(p)
			if tr {
				ns = zvSigmaNonces(ns, &p, x, &pp.RPParams)
			} else {
				k := new(big.Int).Mul(p.Challenge, x)
				k.Sub(p.Z, k)
				ns = append(ns, zvNonce{"sigma.k", k, new(big.Int).Lsh(big.NewInt(1), uint(pp.RPParams.Bx)+uint(pp.RPParams.Bc)+uint(pp.RPParams.Bb))})
				for j, q := range []struct{ s, w, m *big.Int }{{p.Sp, rp, pp.FFGroupParams.I.N()}, {p.Sq1, r1, n}, {p.Sq2, r2, n}} {
					t := new(big.Int).Mul(p.Challenge, q.w)
					t.Sub(q.s, t).Mod(t, q.m)
					ns = append(ns, zvNonce{fmt.Sprint("sigma.t", j), t, q.m})
				}
			}
		})
		verify = func() bool {
			var ok bool
			c := st.comm(&pp.RPParams)
			ok = p.Verify(c)
			return ok
		}
	case "encrypt":
		ct, rnd := encryptVote(uint16(cfg.Lo), pp.EGPK, pp.FFGroupParams.I)
		e.oracle(func() {
			pub = zvMustJSON(ct)
			ns = append(ns, zvNonce{"encrypt.r", new(big.Int).Set(rnd), pp.FFGroupParams.I.N()})
		})
		verify = func() bool {
			ff := pp.FFGroupParams.I
			v := ff.Element().Add(ff.Element().BaseScale(big.NewInt(int64(cfg.Lo))), ff.Element().Scale(pp.EGPK, rnd))
			return ct.U.IsEqual(ff.Element().BaseScale(rnd)) && ct.V.IsEqual(v)
		}
	}
	return
}

func zvExecC07(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	pp := w.nodes[0].pp
	seen := map[string]string{}
	uniq := func(ns []zvNonce, who string) {
		for _, n := range ns {
			key := n.v.String()
			if o, ok := seen[key]; ok {
				e.fail("repeated-blinding", "the blinding factors %s of %s and %s are equal", n.kind, who, o)
				return
			}
			seen[key] = n.kind + " of " + who
		}
	}
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		switch st.K {
		case "heal":
			var ok, cast bool
			var ns []zvNonce
			op := []string{"cast", "choice"}[int(st.A)%2]
			t := e.spawn(fmt.Sprintf("healed%d", i), st.At, st.S, nil, 0, func(t *zvTask) {
				var verify func() bool
				_, ns, verify = zvMake(op, w.cfg, pp, st.S, e)
				cast = true
				ok = verify()
			})
			t.onEnd = func(t *zvTask) {
				e.eval("healed", w.cfg.EC, op)
				if t.panicV != nil || !cast || !ok {
					e.fail("not-recovered", "%s/%s: with the entropy source working again casting a ballot fails or it is rejected %s", w.cfg.EC, w.cfg.FF, t.panicText())
					return
				}
				uniq(ns, fmt.Sprintf("the ballot of step %d", i))
			}
		case "fail":
			// How often does the operation read when all is well?
			reads, bytes := 0, 0
			var okWell bool
			t := e.spawn(fmt.Sprintf("well%d", i), st.At, st.S, nil, 0, func(t *zvTask) {
				_, _, verify := zvMake(st.Str, w.cfg, pp, st.S, e)
				reads, bytes = t.ent.reads, t.ent.bytes
				okWell = verify != nil && verify()
			})
			t.onEnd = func(t *zvTask) {
				if e.serial {
					reads = 24
				}
				if t.panicV != nil || !okWell || reads == 0 {
					e.fail("not-recovered", "%s/%s: %s fails with a working entropy source %s", w.cfg.EC, w.cfg.FF, st.Str, t.panicText())
					return
				}
				zvFailStep(e, w, i, st, pp, reads, bytes, uniq)
			}
		}
	}
	e.run()
}

func zvFailStep(e *zvEngine, w *zvWorld, i int, st zvStep, pp PublicParameters, reads, bytes int, uniq func([]zvNonce, string)) {
	fs := append([]zvFault(nil), st.Faults...)
	fs[0].At = int(st.A) % reads
	for j := 1; j < len(fs); j++ {
		fs[j].At += fs[0].At + 1
	}
	type res struct {
		pub   []byte
		ns    []zvNonce
		ok    bool
		panic string
		bytes int
	}
	out := make([]res, 3)
	seeds := []uint64{st.S, st.S, st.S + 0x9999}
	names := []string{"first", "repeated", "other stream"}
	var start func(k int)
	start = func(k int) { // strictly one after the other
		t := e.spawn(fmt.Sprintf("fail%d-%s", i, names[k]), e.now, seeds[k], fs, 0, func(t *zvTask) {
			pub, ns, verify := zvMake(st.Str, w.cfg, pp, st.S, e)
			out[k].pub, out[k].ns, out[k].bytes = pub, ns, t.ent.bytes
			if pub != nil {
				t.ent.faults = nil // whoever verifies it has no part in the failure
				out[k].ok = verify()
			}
		})
		t.onEnd = func(t *zvTask) {
			if t.panicV != nil {
				out[k].panic = t.panicText()
			}
			if e.vio != nil {
				return
			}
			if k < 2 {
				start(k + 1)
				return
			}
			e.oracle(func() {
				pub := out[0].pub != nil
				e.eval(st.Str, w.cfg.EC, fs[0].Kind, fs[0].At, fs[0].Count > 1, pub)
				e.probe(fmt.Sprintf("%s published=%v", fs[0].Kind, pub))
				for j := range out {
					o := &out[j]
					if o.pub == nil {
						continue
					}
					where := fmt.Sprintf("%s/%s: %s with %s at read %d of %d", w.cfg.EC, w.cfg.FF, st.Str, zvFaultKinds(fs), fs[0].At, reads)
					if !o.ok {
						e.fail("bad-published", "%s publishes something that does not verify %s", where, o.panic)
						return
					}
					if bad := zvBadNonce(o.ns); bad != "" {
						e.fail("bad-blinding", "%s publishes with a bad blinding factor: %s", where, bad)
						return
					}
					// what is published hides behind as much entropy as when all is well
					need := 0
					for _, n := range o.ns {
						need += (n.mod.BitLen() + 7) / 8
					}
					if bytes < need {
						need = bytes
					}
					if !e.serial && o.bytes+8 < need {
						e.fail("bad-blinding", "%s publishes after %d bytes of entropy; its blinding factors take %d", where, o.bytes, need)
						return
					}
					if j != 1 {
						uniq(o.ns, fmt.Sprintf("step %d (%s)", i, names[j]))
					}
					if e.vio != nil {
						return
					}
				}
				if e.serial || !pub {
					return
				}
				where := fmt.Sprintf("%s/%s: %s with %s at read %d of %d", w.cfg.EC, w.cfg.FF, st.Str, zvFaultKinds(fs), fs[0].At, reads)
				if out[1].pub == nil || string(out[0].pub) != string(out[1].pub) {
					e.fail("not-from-entropy", "%s gives another result when repeated with the same entropy", where)
				}
			})
		}
	}
	start(0)
}

// zvBadNonce reports a factor that was not properly drawn.
func zvBadNonce(ns []zvNonce) string {
	seen := map[string]string{}
	for _, n := range ns {
		if n.v.Sign() <= 0 {
			return n.kind + " is zero or negative"
		}
		if o, ok := seen[n.v.String()]; ok {
			return n.kind + " equals " + o
		}
		seen[n.v.String()] = n.kind
		bits := n.mod.BitLen() - 1
		run := 0
		last := uint(2)
		for b := 0; b < bits; b++ {
			x := n.v.Bit(b)
			if x == last {
				run++
			} else {
				run, last = 1, x
			}
			if run >= 80 {
				return fmt.Sprintf("%s has %d equal bits in a row", n.kind, run)
			}
		}
	}
	return zvCoincidence(ns, 120)
}

func zvOne(e group.Element) []group.Element { return []group.Element{e} }
