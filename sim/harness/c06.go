//go:build go1.22

package main

// C06: all blinding is fresh, full-width and comes only from the entropy source.

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C06", gen: zvGenC06, exec: zvExecC06, quick: 1800, deep: 80000,
		rule:   "one evaluation is one published blinding factor read back and compared with all others of the run, or one operation repeated with the same entropy; distinct cases differ in operation, kind of blinding factor, sizes and history",
		reals:  []string{"castVote, encryptVote, bulletproofs.Prove, MultiProve, voteproof.Prove, JSON coding"},
		stubs:  []string{"a transparent group replaces both groups where blinding factors are read back; the real curves run where ballots are compared byte by byte", "entropy source (seeded stream), clock, scheduling"},
		assume: []string{"the seeded stream has no structure of its own: equal or related values in it have negligible probability", "related values are recognised if one is an affine function of the other with constants that do not change between proofs, or agrees with it in its upper or lower half"},
	})
}

func zvGenC06(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	c := &p.Cfg
	c.EC, c.FF = r.Pick("tg", "tg384", "tg192"), r.Pick("tf384", "tg192", "tg")
	if c.EC == c.FF {
		c.FF = "tf384"
	}
	c.N = r.PickInt(1, 2, 2, 4)
	if idx%12 == 2 { // aggregated proofs with more values
		c.N = r.PickInt(4, 8, 8, 16)
		if idx%96 == 50 {
			c.N = 32
		}
	}
	if idx%24 == 6 || idx%24 == 13 { // ballots and range proofs of the usual size
		c.N = r.PickInt(8, 16, 16, 32)
	}
	c.Lo = r.Intn(60000)
	if c.Hi = c.Lo + r.Range(1, min(1<<uint(c.N)-1, 65535)); c.Hi > 65535 {
		c.Hi = 65535
	}
	c.Bc = r.PickInt(64, 80, 96, 128, 144)
	c.Nodes = 1
	p.Quantum, p.Budget = r.PickInt(0, 30, 500), r.PickInt(20, 200)
	op := []string{"cast", "range", "multi", "sigma", "encrypt", "cast"}[idx%6]
	tasks := r.Range(1, 3)
	c.Str = fmt.Sprint(r.Intn(6)) // number of aggregated values
	for i := 0; i < tasks; i++ {
		p.Steps = append(p.Steps, zvStep{K: "batch", Str: op, At: int64(r.Intn(5000)), S: r.Sub(), A: int64(72/tasks + 1)})
	}
	for i := 0; i < 2; i++ {
		st := zvStep{K: "same", Str: r.Pick("cast", "range", "multi", "sigma", "encrypt"), At: int64(r.Intn(8000)), S: r.Sub(), B: int64(r.Range(1, 3)), A: int64(r.Intn(1 << 40))}
		p.Steps = append(p.Steps, st)
	}
	if idx%9 == 4 {
		p.Steps = append(p.Steps, zvStep{K: "width", Str: []string{"cast", "range", "multi", "sigma", "encrypt"}[idx/9%5], At: int64(r.Intn(8000)), S: r.Sub()})
		if c.N > 4 {
			c.N, c.Hi = 4, c.Lo+1
		}
	}
	if idx%6 == 3 { // proofs that are retried all the time
		p.Steps = append(p.Steps, zvStep{K: "retry", At: int64(r.Intn(5000)), S: r.Sub(), A: 230, B: int64(1 + r.Intn(3)), C: int64(r.PickInt(0, 0, 1, 77, 65535))})
	}
	if r.Chance(1, 2) {
		p.Steps = append(p.Steps, zvStep{K: "enc-edge", Str: "order", At: int64(r.Intn(8000)), S: r.Sub(), A: int64(r.Range(-3, 2)), Faults: []zvFault{{At: 0, Kind: "pat", Count: 1}}})
	}
	p.Steps = append(p.Steps, zvStep{K: "enc-edge", At: int64(r.Intn(8000)), S: r.Sub(), Faults: []zvFault{{At: 0, Kind: r.Pick("zeros", "low", "ones", "lead"), Count: r.PickInt(1, 1, 2)}}})
	if idx%9 != 4 && idx%12 != 2 && r.Chance(1, 4) { // the same with real groups, byte by byte
		p.Cfg = zvElection(r, zvCurves, 10)
		p.Cfg.Nodes = 1
		for i := range p.Steps {
			if p.Steps[i].K != "enc-edge" {
				p.Steps[i].C = 0
				p.Steps[i].K = "same"
				p.Steps[i].A = int64(r.Intn(1 << 40))
				p.Steps[i].B = 1
				p.Steps[i].Str = r.Pick("cast", "range", "multi", "sigma", "encrypt")
			}
		}
	}
	return p
}

type zvNonce struct {
	kind string
	v    *big.Int
	mod  *big.Int // values are uniform below mod
}

func zvBPNonces(pre string, out []zvNonce, H group.Element, gg, hh []group.Element, n *big.Int, Vs []group.Element, A, S, T1, T2 group.Element) []zvNonce {
	add := func(k string, v *big.Int) { out = append(out, zvNonce{pre + k, v, n}) }
	for i, v := range Vs {
		add(fmt.Sprintf("gamma%d", i), zvCoef(v, H))
	}
	add("alpha", zvCoef(A, H))
	add("rho", zvCoef(S, H))
	add("tau1", zvCoef(T1, H))
	add("tau2", zvCoef(T2, H))
	for i := range gg {
		add(fmt.Sprintf("sL%d", i), zvCoef(S, gg[i]))
		add(fmt.Sprintf("sR%d", i), zvCoef(S, hh[i]))
	}
	return out
}

func zvSigmaNonces(out []zvNonce, p *voteproof.SigmaProof, x *big.Int, par *voteproof.ProofParams) []zvNonce {
	np, nq := par.GFF.I.N(), par.GEC.I.N()
	out = append(out, zvNonce{"sigma.tp", zvCoef(p.W, par.GFF.I.Generator()), np},
		zvNonce{"sigma.tq1", zvCoef(p.Kq1, par.GEC.H), nq}, zvNonce{"sigma.tq2", zvCoef(p.Kq2, par.GEC.H), nq})
	k := new(big.Int).Mul(p.Challenge, x)
	k.Sub(p.Z, k)
	top := new(big.Int).Lsh(big.NewInt(1), uint(par.Bx)+uint(par.Bc)+uint(par.Bb))
	return append(out, zvNonce{"sigma.k", k, top})
}

// zvShares is the number of values of an aggregated proof: a divisor of n.
func zvShares(cfg zvCfg, n int) int {
	k := 1
	fmt.Sscan(cfg.Str, &k)
	m := 1 << uint(k)
	for m > n {
		m /= 2
	}
	return m
}

// zvOp performs one operation. It returns what was published and the blinding factors behind it.
func zvOp(op string, cfg zvCfg, pp PublicParameters, seed uint64, read bool, e *zvEngine) (pub []byte, ns []zvNonce) {
	r := zvNewRNG(seed, 77)
	n := pp.ECGroupParams.I.N()
	in := func(f func()) { e.oracle(f) }
	bpn := func(pre string, b *bulletproofs.BulletProof) {
		ns = zvBPNonces(pre, ns, pp.BPParams.H, pp.BPParams.Gg, pp.BPParams.Hh, n, []group.Element{b.V}, b.A, b.S, b.T1, b.T2)
	}
	switch op {
	case "encrypt":
		ct, rnd := encryptVote(uint16(cfg.Lo), pp.EGPK, pp.FFGroupParams.I)
		in(func() {
			pub = append(zvMustJSON(ct), rnd.String()...)
			if read {
				ns = append(ns, zvNonce{"encrypt.r", zvCoef(ct.U, pp.FFGroupParams.I.Generator()), pp.FFGroupParams.I.N()})
			}
		})
	case "range":
		b, g, err := bulletproofs.Prove(big.NewInt(int64(r.Intn(1<<uint(pp.BPParams.N)))), pp.BPParams)
		if err != nil {
			panic(err)
		}
		in(func() {
			pub = append(zvMustJSON(b), g.String()...)
			if read {
				bpn("range.", &b)
			}
		})
	case "multi":
		m := zvShares(cfg, int(pp.BPParams.N))
		vs := make([]*big.Int, m)
		for j := range vs {
			vs[j] = big.NewInt(int64(r.Intn(1 << uint(int(pp.BPParams.N)/m))))
		}
		b, gs, err := bulletproofs.MultiProve(vs, pp.BPParams)
		if err != nil {
			panic(err)
		}
		in(func() {
			pub = append(zvMustJSON(b), fmt.Sprint(gs)...)
			if read {
				ns = zvBPNonces("multi.", ns, pp.BPParams.H, pp.BPParams.Gg, pp.BPParams.Hh, n, b.Vs, b.A, b.S, b.T1, b.T2)
			}
		})
	case "sigma":
		x := big.NewInt(int64(r.Intn(65536)))
		p := voteproof.Prove(x, r.BigNZ(pp.FFGroupParams.I.N()), r.BigNZ(n), r.BigNZ(n), pp.RPParams)
		in(func() {
			pub = zvMustJSON(p)
			if read {
				ns = zvSigmaNonces(ns, &p, x, &pp.RPParams)
			}
		})
	default:
		bd, _ := castVote(pp)
		in(func() {
			pub = zvBallotJSON(&bd)
			if read {
				ns = append(ns, zvNonce{"encrypt.r", zvCoef(bd.Ballot.U, pp.FFGroupParams.I.Generator()), pp.FFGroupParams.I.N()})
				bpn("lower.", &bd.BpLower)
				bpn("upper.", &bd.BpUpper)
				// x from the lower commitment
				x := new(big.Int).Add(zvCoef(bd.BpLower.V, pp.ECGroupParams.I.Generator()), big.NewInt(int64(cfg.Lo)))
				ns = zvSigmaNonces(ns, &bd.VoteProof, x, &pp.RPParams)
			}
		})
	}
	return
}

func zvExecC06(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	pp := w.nodes[0].pp
	_, transparent := pp.ECGroupParams.I.(*zvTG)
	var all [][]zvNonce // per operation
	ops := ""
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		name := fmt.Sprintf("%s-%s%d", st.K, st.Str, i)
		broken := func(t *zvTask) bool {
			if t.panicV != nil {
				e.fail("operation-fails", "%s panics with working entropy: %s", name, t.panicText())
				return true
			}
			return false
		}
		switch st.K {
		case "batch":
			ops = st.Str
			var mine [][]zvNonce
			t := e.spawn(name, st.At, st.S, nil, 0, func(t *zvTask) {
				for k := int64(0); k < st.A; k++ {
					_, ns := zvOp(st.Str, w.cfg, pp, st.S+uint64(k), true, e)
					mine = append(mine, ns)
				}
			})
			t.cap, t.readCap = 1<<40, 200_000
			t.onEnd = func(t *zvTask) {
				if !broken(t) {
					all = append(all, mine...)
				}
			}
		case "same":
			// the same operation with the same entropy, once now and once later, after and
			// next to other activity and at another time
			var pubs [][]byte
			for k := int64(0); k <= st.B; k++ {
				if k > 0 {
					cj := e.spawn("clock", st.At+k*40000, 1, nil, 0, func(*zvTask) {})
					cj.onEnd = func(*zvTask) { zvClockJump(e, st.A) }
				}
				t := e.spawn(fmt.Sprintf("%s.%d", name, k), st.At+k*40000, st.S, nil, 0, func(t *zvTask) {
					pub, _ := zvOp(st.Str, w.cfg, pp, st.S, false, e)
					pubs = append(pubs, pub)
				})
				t.onEnd = func(t *zvTask) {
					if broken(t) || e.serial {
						return
					}
					e.eval("same", st.Str, w.cfg.EC, w.cfg.N)
					if n := len(pubs); n > 1 && string(pubs[n-1]) != string(pubs[0]) {
						e.fail("not-from-entropy", "%s with %s/%s: the same entropy does not give the same result (%s differs)", st.Str, w.cfg.EC, w.cfg.FF, zvFirstDiff(pubs[0], pubs[n-1]))
					}
				}
			}
		case "width":
			if transparent && !e.serial {
				zvC06Width(e, name, st, w.cfg, pp)
			}
		case "retry":
			if transparent && !e.serial {
				zvC06Retry(e, name, st, pp)
			}
		case "enc-edge":
			if st.Str == "order" { // values around the group order
				n := pp.FFGroupParams.I.N()
				f := zvSteer(0, new(big.Int).Add(n, big.NewInt(st.A)), n)
				f.Count = 1
				st.Faults = []zvFault{f}
			}
			var ct ElGamalCiphertext
			var rnd *big.Int
			t := e.spawn(name, st.At, st.S, st.Faults, 0, func(t *zvTask) {
				ct, rnd = encryptVote(uint16(w.cfg.Hi), pp.EGPK, pp.FFGroupParams.I)
			})
			t.onEnd = func(t *zvTask) {
				if broken(t) {
					return
				}
				e.eval("encrypt", st.Faults[0].Kind, w.cfg.FF)
				e.oracle(func() {
					if ct.U.IsIdentity() || new(big.Int).Mod(rnd, pp.FFGroupParams.I.N()).Sign() == 0 {
						e.fail("zero-blinding", "with entropy %s a vote is encrypted without blinding", zvFaultKinds(st.Faults))
					}
				})
			}
		}
	}
	e.run()
	if e.vio == nil && transparent && len(all) > 0 {
		e.oracle(func() { zvCheckNonces(e, ops, all) })
	}
}

// zvC06Width repeats one operation with streams that differ in a single byte each, and counts
// for every blinding factor how many bytes of entropy decide it.
func zvC06Width(e *zvEngine, name string, st zvStep, cfg zvCfg, pp PublicParameters) {
	var base []zvNonce
	var deps []int
	total := 0
	same := true
	t := e.spawn(name, st.At, st.S, nil, 0, func(t *zvTask) {
		for pos := 0; pos <= total && pos <= 6000 && same; pos++ {
			t.ent = zvNewEntropy(st.S, nil)
			t.ent.flip = pos
			_, ns := zvOp(st.Str, cfg, pp, st.S, true, e)
			if pos == 0 {
				base, total = ns, t.ent.bytes
				deps = make([]int, len(ns))
				continue
			}
			same = len(ns) == len(base)
			for j := 0; same && j < len(ns); j++ {
				if ns[j].v.Cmp(base[j].v) != 0 {
					deps[j]++
				}
			}
		}
	})
	t.cap = 1 << 40
	t.onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("operation-fails", "%s panics with working entropy: %s", name, t.panicText())
			return
		}
		if !same {
			return
		}
		for j, n := range base {
			want := 16
			if b := (n.mod.BitLen() + 7) / 8; b < want {
				want = b
			}
			e.eval("width", st.Str, n.kind, n.mod.BitLen(), cfg.N)
			if deps[j] < want {
				e.fail("narrow-blinding", "%s with %s/%s: the blinding factor %s depends on %d bytes of entropy only (%d bytes are read in all)", st.Str, cfg.EC, cfg.FF, n.kind, deps[j], total)
				return
			}
		}
	}
}

// zvC06Retry makes many proofs with parameters that make most attempts fail.
func zvC06Retry(e *zvEngine, name string, st zvStep, pp PublicParameters) {
	q := pp.RPParams
	par, err := voteproof.Setup(16, q.Bc, 16+q.Bc+uint16(st.B)+1, q.RangeLo, q.RangeHi, q.AlgebraicParameters)
	if err != nil {
		return
	}
	x := big.NewInt(st.C)
	var rs zvRetries
	var all [][]zvNonce
	bins := map[uint64]int{}
	tb := uint(16 + q.Bc)
	t := e.spawn(name, st.At, st.S, nil, 0, func(t *zvTask) {
		r := zvNewRNG(st.S, 78)
		n := par.GEC.I.N()
		for k := int64(0); k < st.A; k++ {
			t.ent.log = nil
			p := voteproof.Prove(x, r.BigNZ(par.GFF.I.N()), r.BigNZ(n), r.BigNZ(n), par)
			e.oracle(func() {
				rs.addLog(t.ent.log, &p, x, &par)
				all = append(all, zvSigmaNonces(nil, &p, x, &par)[:3])
				if p.Z.Sign() >= 0 {
					bins[new(big.Int).Rsh(p.Z, tb).Uint64()]++
				}
			})
		}
	})
	t.ent.keep = true
	t.cap, t.readCap = 60_000_000, 40000
	t.onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("operation-fails", "making %d proofs with masking range %d does not succeed: %s", st.A, st.B, t.panicText())
			return
		}
		e.oracle(func() {
			zvCheckNonces(e, "sigma with retries", all)
			if e.vio == nil {
				rs.check(e, "sigma with retries")
			}
			if e.vio != nil || st.C > 1 {
				return
			}
			// with secret zero or one the mask shows as it is: it must reach all of its range
			for b := uint64(1); b < 1<<uint(st.B); b++ {
				if bins[b] == 0 {
					e.fail("narrow-blinding", "sigma with retries: of %d masks none lies in part %d of the %d parts of the masking range", st.A, b, uint64(1)<<uint(st.B))
					return
				}
			}
		})
	}
}

func zvFirstDiff(a, b []byte) string {
	x, y := zvTree(a), zvTree(b)
	d := "bytes"
	zvWalk(x, nil, func(p zvPath, v any) {
		if d != "bytes" {
			return
		}
		switch v.(type) {
		case map[string]any, []any:
			return
		}
		p1, _ := json.Marshal(v)
		p2, _ := json.Marshal(zvGet(y, p))
		if string(p1) != string(p2) {
			d = p.String()
		}
	})
	return d
}

// zvCheckNonces looks at all blinding factors of a history.
func zvCheckNonces(e *zvEngine, op string, all [][]zvNonce) {
	seen := map[string]string{}
	kinds := len(all[0])
	ser := make([][]zvNonce, kinds)
	for i, ns := range all {
		if len(ns) != kinds {
			return
		}
		for j, n := range ns {
			ser[j] = append(ser[j], n)
			e.eval(op, n.kind, n.mod.BitLen())
			if n.v.Sign() == 0 {
				e.fail("zero-blinding", "%s: the blinding factor %s of operation %d is zero", op, n.kind, i)
				return
			}
			key := n.v.String()
			me := fmt.Sprintf("%s of operation %d", n.kind, i)
			if o, ok := seen[key]; ok {
				e.fail("repeated-blinding", "%s: the blinding factors %s and %s are equal", op, o, me)
				return
			}
			seen[key] = me
			if n.v.Sign() < 0 || n.v.Cmp(n.mod) >= 0 {
				e.fail("blinding-range", "%s: the blinding factor %s lies outside its range", op, n.kind)
				return
			}
		}
	}
	// every bit takes both values
	if len(all) >= 64 {
		for j := range ser {
			bits := ser[j][0].mod.BitLen()
			if new(big.Int).Lsh(big.NewInt(1), uint(bits-1)).Cmp(ser[j][0].mod) == 0 {
				bits-- // a power of two
			}
			for b := 0; b < bits; b++ {
				ones := 0
				for _, n := range ser[j] {
					ones += int(n.v.Bit(b))
				}
				if ones == 0 || ones == len(ser[j]) {
					e.fail("narrow-blinding", "%s: bit %d (of %d) of the blinding factor %s has the same value in all %d operations", op, b, bits, ser[j][0].kind, len(ser[j]))
					return
				}
			}
		}
	}
	// and every quarter of the range is reached
	if len(all) >= 72 {
		for j := range ser {
			var q [4]int
			for _, n := range ser[j] {
				v := new(big.Int).Lsh(n.v, 2)
				q[v.Div(v, n.mod).Uint64()&3]++
			}
			for i, c := range q {
				if c == 0 {
					e.fail("narrow-blinding", "%s: no blinding factor %s of %d operations lies in quarter %d of its range", op, ser[j][0].kind, len(ser[j]), i+1)
					return
				}
			}
		}
	}
	// no two pairs of factors have the same sum, difference or product
	pool := all[0]
	if len(all) > 1 {
		pool = append(append([]zvNonce{}, pool...), all[1]...)
	}
	if r := zvCoincidence(pool, 120); r != "" {
		e.fail("related-blinding", "%s: blinding factors are related: %s", op, r)
		return
	}
	if len(all) < 6 {
		return
	}
	// no factor is a fixed function of another
	for a := 0; a < kinds; a++ {
		for b := 0; b < kinds; b++ {
			if a < b && zvRelated(ser[a][:6], ser[b][:6]) {
				e.fail("related-blinding", "%s: the blinding factors %s and %s are related in the same way in every operation", op, ser[a][0].kind, ser[b][0].kind)
				return
			}
		}
		if zvRelated(ser[a][:5], ser[a][1:6]) {
			e.fail("related-blinding", "%s: the blinding factor %s follows from that of the operation before", op, ser[a][0].kind)
			return
		}
	}
}

// zvCoincidence looks for relations between up to max factors that chance does not explain: a small
// difference, a sum, difference or product of two that occurs twice or is a factor itself.
func zvCoincidence(ns []zvNonce, max int) string {
	byMod := map[string][]zvNonce{}
	var mods []string
	for _, n := range ns {
		if n.mod.BitLen() < 150 || max <= 0 {
			continue
		}
		max--
		k := n.mod.String()
		if byMod[k] == nil {
			mods = append(mods, k)
		}
		byMod[k] = append(byMod[k], n)
	}
	for _, k := range mods {
		f := byMod[k]
		n := f[0].mod
		small := n.BitLen() - 100
		var seen [3]map[string]string
		var v big.Int
		found := ""
		put := func(t int, x *big.Int, what func() string) {
			b := x.Bytes()
			if len(b) > 24 {
				b = b[len(b)-24:]
			}
			if o, ok := seen[t][string(b)]; ok && found == "" {
				found = o + " and " + what()
			}
			seen[t][string(b)] = what()
		}
		for t := range seen {
			seen[t] = map[string]string{}
		}
		for i := range f {
			put(0, f[i].v, func() string { return f[i].kind })
			put(2, f[i].v, func() string { return f[i].kind })
			v.Sub(n, f[i].v)
			if v.Cmp(f[i].v) > 0 {
				v.Set(f[i].v)
			}
			put(1, &v, func() string { return "+-" + f[i].kind })
		}
		for i := range f {
			for j := 0; j < i; j++ {
				name := func(op string) func() string { return func() string { return f[i].kind + op + f[j].kind } }
				v.Add(f[i].v, f[j].v)
				put(0, v.Mod(&v, n), name("+"))
				v.Sub(f[i].v, f[j].v)
				v.Mod(&v, n)
				var w big.Int
				if w.Sub(n, &v); w.Cmp(&v) > 0 {
					v.Set(&w)
				}
				// v is the larger one of the two: the difference up to the sign
				if w.Sub(n, &v).BitLen() < small {
					return "small " + name("-")()
				}
				put(1, &v, name("-"))
				v.Mul(f[i].v, f[j].v)
				put(2, v.Mod(&v, n), name("*"))
				if found != "" {
					return found
				}
			}
		}
	}
	return ""
}

func zvRelated(a, b []zvNonce) bool {
	n := len(a)
	for _, m := range []*big.Int{a[0].mod, b[0].mod} {
		// b = u a + v
		d := new(big.Int).Sub(a[1].v, a[0].v)
		d.Mod(d, m)
		inv := new(big.Int).ModInverse(d, m)
		if inv == nil {
			continue
		}
		u := new(big.Int).Sub(b[1].v, b[0].v)
		u.Mod(u.Mul(u, inv), m)
		v := new(big.Int).Mul(u, a[0].v)
		v.Sub(b[0].v, v).Mod(v, m)
		ok := true
		for i := 2; i < n; i++ {
			t := new(big.Int).Mul(u, a[i].v)
			t.Add(t, v).Sub(t, b[i].v).Mod(t, m)
			if t.Sign() != 0 {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	half := uint(a[0].mod.BitLen() / 2)
	if h := uint(b[0].mod.BitLen() / 2); h < half {
		half = h
	}
	low := new(big.Int).Lsh(big.NewInt(1), half)
	low.Sub(low, big.NewInt(1))
	lowEq, highEq, xor := true, true, true
	x0 := new(big.Int).Xor(a[0].v, b[0].v)
	for i := 0; i < n; i++ {
		if new(big.Int).And(a[i].v, low).Cmp(new(big.Int).And(b[i].v, low)) != 0 {
			lowEq = false
		}
		if new(big.Int).Rsh(a[i].v, half).Cmp(new(big.Int).Rsh(b[i].v, half)) != 0 {
			highEq = false
		}
		if new(big.Int).Xor(a[i].v, b[i].v).Cmp(x0) != 0 {
			xor = false
		}
	}
	return lowEq || highEq || xor
}
