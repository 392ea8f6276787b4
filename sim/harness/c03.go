//go:build go1.22

package main

// C03: a ballot altered or spliced in transit is rejected.

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C03", gen: zvGenC03, exec: zvExecC03, quick: 900, deep: 80000,
		rule:   "one evaluation is one altered or spliced ballot (or untouched original) judged by a collector; distinct cases differ in group, election, altered component, kind of change and history",
		reals:  []string{"castVote, JSON coding, BallotDataUnmarshalJSON, verifyVote, all proofs and groups"},
		stubs:  []string{"network that alters messages", "entropy, scheduling, clock (simulated)", "a transparent group replaces the curve in part of the runs"},
		assume: []string{"a scalar that is equal modulo the group order counts as the same value", "the parameters a message repeats are not part of the ballot", "challenges of 96 bits or more"},
	})
}

var zvAlterKinds = []string{"component", "component", "component", "splice", "splice", "remove", "vector", "malleate", "malleate", "copy-within", "json-edit"}

func zvGenC03(r *zvRNG, idx int, tier string) *zvPlan {
	cs := zvCurves
	if r.Chance(1, 3) {
		cs = []string{"tg"}
	}
	p := &zvPlan{Cfg: zvElection(r, cs, 4)}
	c := &p.Cfg
	if c.EC == "tg" && c.FF == "setup" {
		c.FF, c.Bc = "m512", 128
	}
	c.Nodes = 1 + r.Intn(2)
	p.Quantum, p.Budget = r.PickInt(0, 0, 300, 3000), 100
	cand := int64(c.Lo + r.Intn(c.Hi-c.Lo+1))
	for i := 0; i < 2; i++ {
		st := zvStep{K: "cast", S: r.Sub(), A: cand}
		if r.Chance(1, 2) {
			st.A = -1
		}
		for j := r.Intn(3); j >= 0; j-- {
			st.Del = append(st.Del, zvDel{To: r.Intn(c.Nodes), Delay: int64(r.PickInt(0, 100000, 900000)), Mem: r.Chance(1, 4)})
		}
		p.Steps = append(p.Steps, st)
	}
	n := 6 + r.Intn(6)
	for i := 0; i < n; i++ {
		p.Steps = append(p.Steps, zvStep{K: "alter", At: 600000 + int64(r.Intn(500000)), Node: r.Intn(c.Nodes), S: r.Sub(), A: int64(r.Intn(2)),
			Str: zvAlterKinds[(idx+i)%len(zvAlterKinds)], B: int64(r.Intn(5))})
	}
	return p
}

func zvExecC03(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	var casts []int
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		switch st.K {
		case "cast":
			casts = append(casts, i)
			w.castStep(i, st, func(b *zvBallot, d zvDel, v zvVerdict) {
				e.eval("original", w.cfg.EC, w.cfg.FF, d.Mem)
				if !v.accepted {
					e.fail("original-rejected", "%s/%s: an untouched ballot is rejected (in memory %v) %s", w.cfg.EC, w.cfg.FF, d.Mem, zvShortErr(v.err))
				}
			})
		case "alter":
			var what string
			var v zvVerdict
			mem := st.B == 0
			t := e.spawn(fmt.Sprintf("alter%d", i), st.At, st.S, nil, 0, func(t *zvTask) {
				var js []byte
				var bd BallotData
				pp := w.nodes[st.Node%len(w.nodes)].pp
				e.oracle(func() {
					if len(casts) == 0 {
						return
					}
					a := w.ballots[casts[int(st.A)%len(casts)]]
					b := w.ballots[casts[int(st.A+1)%len(casts)]]
					if a == nil || b == nil {
						return
					}
					what, bd, js = w.alter(st, a, b, pp)
				})
				if what == "" {
					return
				}
				if mem && js == nil {
					v = zvCollectMem(bd, pp)
					return
				}
				if js == nil {
					e.oracle(func() { js = zvBallotJSON(&bd) })
				}
				v, _ = zvCollectJSON(js, pp)
			})
			t.onEnd = func(t *zvTask) {
				if what == "" {
					e.probe("unchanged")
					return
				}
				if t.panicV != nil {
					e.probe("collector-panic")
					return
				}
				e.eval(w.cfg.EC, w.cfg.FF, what, mem)
				e.probe("altered/" + st.Str)
				if v.accepted {
					e.fail("altered-accepted", "%s/%s, challenge %d bits: a ballot altered in transit (%s) is accepted (in memory %v)", w.cfg.EC, w.cfg.FF, w.cfg.Bc, what, mem)
				}
			}
		}
	}
	e.run()
}

type zvSlot struct {
	name string
	e    *group.Element
	s    **big.Int
	g    group.Group
	n    *big.Int // modulus that matters for the scalar, nil: exact
}

func zvBPSlots(pre string, p *bulletproofs.BulletProof, g group.Group) []zvSlot {
	n := g.N()
	ip := &p.InnerProductProof
	sl := []zvSlot{{pre + "V", &p.V, nil, g, nil}, {pre + "A", &p.A, nil, g, nil}, {pre + "S", &p.S, nil, g, nil}, {pre + "T1", &p.T1, nil, g, nil}, {pre + "T2", &p.T2, nil, g, nil},
		{pre + "P", &ip.P, nil, g, nil}, {pre + "Taux", nil, &p.Taux, g, n}, {pre + "Mu", nil, &p.Mu, g, n}, {pre + "Tprime", nil, &p.Tprime, g, n}, {pre + "Cc", nil, &ip.Cc, g, n},
		{pre + "a", nil, &ip.A, g, n}, {pre + "b", nil, &ip.B, g, n}}
	for i := range ip.L {
		sl = append(sl, zvSlot{fmt.Sprint(pre, "L", i), &ip.L[i], nil, g, nil})
	}
	for i := range ip.R {
		sl = append(sl, zvSlot{fmt.Sprint(pre, "R", i), &ip.R[i], nil, g, nil})
	}
	return sl
}

func zvSlots(b *BallotData, pp *PublicParameters) []zvSlot {
	ff, ec := pp.FFGroupParams.I, pp.ECGroupParams.I
	v := &b.VoteProof
	sl := []zvSlot{{"ballot.u", &b.Ballot.U, nil, ff, nil}, {"ballot.v", &b.Ballot.V, nil, ff, nil},
		{"voteProof.W", &v.W, nil, ff, nil}, {"voteProof.Kp", &v.Kp, nil, ff, nil}, {"voteProof.Kq1", &v.Kq1, nil, ec, nil}, {"voteProof.Kq2", &v.Kq2, nil, ec, nil},
		{"voteProof.Challenge", nil, &v.Challenge, ec, nil}, {"voteProof.Z", nil, &v.Z, ec, nil}, {"voteProof.Sp", nil, &v.Sp, ff, ff.N()},
		{"voteProof.Sq1", nil, &v.Sq1, ec, ec.N()}, {"voteProof.Sq2", nil, &v.Sq2, ec, ec.N()}}
	sl = append(sl, zvBPSlots("lbProof.", &b.BpLower, ec)...)
	return append(sl, zvBPSlots("ubProof.", &b.BpUpper, ec)...)
}

// alter makes an altered copy of ballot a (b is another ballot of the same election). It
// returns an empty description if nothing that matters has changed.
func (w *zvWorld) alter(st zvStep, a, b *zvBallot, pp PublicParameters) (what string, bd BallotData, js []byte) {
	defer func() {
		if r := recover(); r != nil {
			what, js = "", nil
		}
	}()
	r := zvNewRNG(st.S, 41)
	dec := func(js []byte) BallotData {
		d, err := BallotDataUnmarshalJSON(js, pp)
		if err != nil {
			panic(err)
		}
		return d
	}
	ff, ec := pp.FFGroupParams.I, pp.ECGroupParams.I
	nf, ne := ff.N(), ec.N()
	bd = dec(a.js)
	ob := dec(b.js)
	orig := zvBallotContent(&bd, nf, ne, false)
	changed := func() bool {
		c := zvBallotContent(&bd, nf, ne, false)
		return c.diff(orig, false) != ""
	}
	switch st.Str {
	case "component", "copy-within":
		sl := zvSlots(&bd, &pp)
		osl := zvSlots(&ob, &pp)
		i := r.Intn(len(sl))
		s := sl[i]
		how := ""
		if s.e != nil {
			old := *s.e
			how = r.Pick("+G", "neg", "identity", "random", "+H", "other-ballot", "double", "scale-order-1", "nonmember")
			if st.Str == "copy-within" {
				how = "copy"
			}
			switch how {
			case "+G":
				*s.e = s.g.Element().Add(old, s.g.Generator())
			case "neg":
				*s.e = s.g.Element().Negate(old)
			case "identity":
				*s.e = s.g.Identity()
			case "random":
				*s.e = s.g.Element().BaseScale(r.BigNZ(s.g.N()))
			case "+H":
				h := pp.EGPK
				if s.g == ec {
					h = pp.BPParams.H
				}
				*s.e = s.g.Element().Add(old, h)
			case "other-ballot":
				if len(osl) != len(sl) {
					return
				}
				*s.e = *osl[i].e
			case "double":
				*s.e = s.g.Element().Add(old, old)
			case "scale-order-1":
				*s.e = s.g.Element().Scale(old, new(big.Int).Sub(s.g.N(), big.NewInt(2)))
			case "nonmember": // p - x in the mod-p group
				if s.g != ff {
					return
				}
				v := new(big.Int).Sub(ff.P(), zvElemInt(old))
				*s.e = ff.Element().SetBytes(v.Bytes())
			case "copy":
				for k := 0; k < 50; k++ {
					if o := sl[r.Intn(len(sl))]; o.e != nil && o.g == s.g {
						*s.e = *o.e
						how = "copy of " + o.name
						break
					}
				}
			}
		} else {
			old := *s.s
			how = r.Pick("+1", "-1", "neg", "zero", "random", "other-ballot", "+order", "double", "bitflip", "+othermod")
			switch how {
			case "+1":
				*s.s = new(big.Int).Add(old, big.NewInt(1))
			case "-1":
				*s.s = new(big.Int).Sub(old, big.NewInt(1))
			case "neg":
				*s.s = new(big.Int).Neg(old)
			case "zero":
				*s.s = new(big.Int)
			case "random":
				*s.s = r.Big(s.g.N())
			case "other-ballot":
				if len(osl) != len(sl) {
					return
				}
				*s.s = *osl[i].s
			case "+order":
				*s.s = new(big.Int).Add(old, s.g.N())
			case "+othermod":
				*s.s = new(big.Int).Add(old, nf)
			case "double":
				*s.s = new(big.Int).Lsh(old, 1)
			case "bitflip":
				k := r.Intn(old.BitLen() + 1)
				*s.s = new(big.Int).SetBit(old, k, 1-old.Bit(k))
			}
			if st.Str == "copy-within" {
				for k := 0; k < 50; k++ {
					if o := sl[r.Intn(len(sl))]; o.s != nil {
						*s.s = *o.s
						how = "copy of " + o.name
						break
					}
				}
			}
		}
		what = s.name + " " + how
	case "splice":
		m := 1 + r.Intn(14)
		if m&1 != 0 {
			bd.Ballot = ob.Ballot
		}
		if m&2 != 0 {
			bd.BpLower = ob.BpLower
		}
		if m&4 != 0 {
			bd.BpUpper = ob.BpUpper
		}
		if m&8 != 0 {
			bd.VoteProof = ob.VoteProof
		}
		what = fmt.Sprintf("parts %04b of another ballot", m)
		switch r.Intn(7) {
		case 0:
			bd = dec(a.js)
			bd.BpLower, bd.BpUpper = bd.BpUpper, bd.BpLower
			what = "range proofs swapped"
		case 1:
			bd = dec(a.js)
			bd.BpLower.InnerProductProof = ob.BpLower.InnerProductProof
			what = "inner product proof of another ballot"
		case 2:
			bd = dec(a.js)
			v := bd.BpLower.V
			bd.BpLower = ob.BpLower
			bd.BpLower.V = v
			what = "range proof of another ballot around the same commitment"
		case 3:
			bd = dec(a.js)
			bd.VoteProof.SigmaResponse = ob.VoteProof.SigmaResponse
			what = "responses of another ballot"
		case 4:
			bd = dec(a.js)
			bd.VoteProof.SigmaCommit, bd.VoteProof.SigmaChallenge = ob.VoteProof.SigmaCommit, ob.VoteProof.SigmaChallenge
			what = "first moves of another ballot"
		}
		// a full copy of the other ballot is that ballot
		if c := zvBallotContent(&bd, nf, ne, false); c.diff(zvBallotContent(&ob, nf, ne, false), false) == "" {
			return "", bd, nil
		}
	case "vector":
		bp := &bd.BpLower
		obp := &ob.BpLower
		name := "lbProof."
		if r.Chance(1, 2) {
			bp, obp, name = &bd.BpUpper, &ob.BpUpper, "ubProof."
		}
		ip := &bp.InnerProductProof
		n := len(ip.L)
		if n == 0 {
			return "", bd, nil
		}
		switch r.Intn(8) {
		case 0:
			ip.L = ip.L[:n-1]
			what = "L shortened"
		case 1:
			ip.R = ip.R[:n-1]
			what = "R shortened"
		case 2:
			ip.L, ip.R = ip.L[:n-1], ip.R[:n-1]
			what = "L and R shortened"
		case 3:
			ip.L, ip.R = append(ip.L, ec.Identity()), append(ip.R, ec.Identity())
			what = "L and R lengthened"
		case 4:
			ip.L, ip.R = ip.R, ip.L
			what = "L and R exchanged"
		case 5:
			i, j := r.Intn(n), r.Intn(n)
			ip.L[i], ip.L[j] = ip.L[j], ip.L[i]
			ip.R[i], ip.R[j] = ip.R[j], ip.R[i]
			what = "rounds exchanged"
		case 6:
			ip.L, ip.R = nil, nil
			what = "L and R emptied"
		default:
			ip.L, ip.R = obp.InnerProductProof.L, obp.InnerProductProof.R
			what = "L and R of another ballot"
		}
		what = name + what
	case "malleate":
		what = zvMalleate(&bd, &pp, r)
		if what == "" {
			return
		}
	case "remove", "json-edit":
		root := zvTree(a.js)
		var paths []zvPath
		zvWalk(root, nil, func(p zvPath, v any) {
			if len(p) == 0 {
				return
			}
			for _, k := range p {
				if k == "Params" {
					return
				}
			}
			paths = append(paths, p)
		})
		p := paths[r.Intn(len(paths))]
		if st.Str == "remove" {
			if r.Chance(1, 2) {
				root = zvDelete(root, p)
				what = "removed " + p.String()
			} else {
				root = zvPut(root, p, nil)
				what = "null for " + p.String()
			}
		} else {
			n, ok := zvGet(root, p).(json.Number)
			if !ok {
				return
			}
			s := []byte(n.String())
			i := r.Intn(len(s))
			if s[i] == '-' {
				return
			}
			s[i] = '0' + (s[i]-'0'+byte(1+r.Intn(9)))%10
			if s[0] == '0' && len(s) > 1 {
				s[0] = '7'
			}
			root = zvPut(root, p, json.Number(s))
			what = "digit of " + p.String()
		}
		js = zvUntree(root)
		// Did it change anything that matters?
		nb, err := BallotDataUnmarshalJSON(js, pp)
		if err == nil {
			same := false
			zvQuiet(func() {
				c := zvBallotContent(&nb, nf, ne, false)
				same = c.diff(orig, false) == ""
			})
			if same && st.Str == "json-edit" {
				return "", bd, nil
			}
			if same { // removed something, yet it decodes to the same ballot: only if nothing was lost
				return "", bd, nil
			}
		}
		return what, bd, js
	}
	if !changed() {
		return "", bd, nil
	}
	return what, bd, nil
}

// zvMalleate changes several components so that as many verification equations as possible
// still hold; only the challenges stand in the way.
func zvMalleate(b *BallotData, pp *PublicParameters, r *zvRNG) string {
	ff, ec := pp.FFGroupParams.I, pp.ECGroupParams.I
	nf, ne := ff.N(), ec.N()
	v := &b.VoteProof
	c := v.Challenge
	d := r.BigNZ(ne)
	df := r.BigNZ(nf)
	am := func(x, y, n *big.Int) *big.Int { t := new(big.Int).Add(x, y); return t.Mod(t, n) }
	mm := func(x, y, n *big.Int) *big.Int { t := new(big.Int).Mul(x, y); return t.Mod(t, n) }
	eadd := func(x group.Element, y group.Element) group.Element { return ec.Element().Add(x, y) }
	esc := func(x group.Element, s *big.Int) group.Element { return ec.Element().Scale(x, s) }
	bp := &b.BpLower
	pre := "lbProof."
	if r.Chance(1, 2) {
		bp, pre = &b.BpUpper, "ubProof."
	}
	k := zvNewKit(pp.BPParams, 1, r)
	fsLearn := k.fs
	y, z, x := d, d, d
	zvQuiet(func() { y, z, x = k.chal([]group.Element{bp.V}, bp.A, bp.S, bp.T1, bp.T2) })
	D := ec.Element().BaseScale(d)
	switch r.Intn(16) {
	case 0: // the ciphertext rerandomised
		b.Ballot.U = ff.Element().Add(b.Ballot.U, ff.Element().BaseScale(df))
		b.Ballot.V = ff.Element().Add(b.Ballot.V, ff.Element().Scale(pp.EGPK, df))
		v.Sp = am(v.Sp, mm(c, df, nf), nf)
		return "ciphertext rerandomised, Sp adjusted"
	case 1: // the commitment rerandomised
		bp.V = eadd(bp.V, esc(k.H, d))
		bp.Taux = am(bp.Taux, mm(mm(z, z, ne), d, ne), ne)
		if pre == "lbProof." {
			v.Sq1 = am(v.Sq1, mm(c, d, ne), ne)
		} else {
			v.Sq2 = am(v.Sq2, new(big.Int).Neg(mm(c, d, ne)), ne)
		}
		return pre + "V rerandomised, Taux and Sq adjusted"
	case 2: // T1 against T2
		bp.T1 = eadd(bp.T1, esc(D, x))
		bp.T2 = ec.Element().Subtract(bp.T2, D)
		return pre + "T1 against T2"
	case 3: // A against S
		bp.A = eadd(bp.A, esc(D, x))
		bp.S = ec.Element().Subtract(bp.S, D)
		return pre + "A against S"
	case 4: // T1 and Taux
		bp.T1 = eadd(bp.T1, esc(k.H, d))
		bp.Taux = am(bp.Taux, mm(d, x, ne), ne)
		return pre + "T1 and Taux"
	case 5:
		bp.T2 = eadd(bp.T2, esc(k.H, d))
		bp.Taux = am(bp.Taux, mm(d, mm(x, x, ne), ne), ne)
		return pre + "T2 and Taux"
	case 6:
		bp.A = eadd(bp.A, esc(k.H, d))
		bp.Mu = am(bp.Mu, d, ne)
		return pre + "A and Mu"
	case 7:
		bp.S = eadd(bp.S, esc(k.H, d))
		bp.Mu = am(bp.Mu, mm(d, x, ne), ne)
		return pre + "S and Mu"
	case 8:
		bp.InnerProductProof.P = ec.Element().Subtract(bp.InnerProductProof.P, esc(k.H, d))
		bp.Mu = am(bp.Mu, d, ne)
		return pre + "P and Mu"
	case 9: // L against R of one round
		ip := &bp.InnerProductProof
		if len(ip.L) == 0 {
			return ""
		}
		i := r.Intn(len(ip.L))
		xr := fsLearn.ip(k.Gg, k.hp(y), ip.P, ip.Cc)
		for j := 0; j <= i; j++ {
			xr = fsLearn.round(ip.L[j], ip.R[j], xr)
		}
		xr = k.mod(xr)
		x2 := mm(xr, xr, ne)
		ip.L[i] = eadd(ip.L[i], esc(D, k.inv(x2)))
		ip.R[i] = ec.Element().Subtract(ip.R[i], esc(D, x2))
		return fmt.Sprintf("%sL against R in round %d", pre, i)
	case 10: // T' and Cc moved together with T1
		bp.Tprime = am(bp.Tprime, mm(d, x, ne), ne)
		bp.InnerProductProof.Cc = new(big.Int).Set(bp.Tprime)
		bp.T1 = eadd(bp.T1, D)
		return pre + "Tprime, Cc and T1"
	case 11: // W, Kp and Sp
		v.W = ff.Element().Add(v.W, ff.Element().BaseScale(df))
		v.Kp = ff.Element().Add(v.Kp, ff.Element().Scale(pp.EGPK, df))
		v.Sp = am(v.Sp, df, nf)
		return "voteProof.W, Kp and Sp"
	case 12:
		v.Kq1 = eadd(v.Kq1, esc(k.H, d))
		v.Sq1 = am(v.Sq1, d, ne)
		return "voteProof.Kq1 and Sq1"
	case 13:
		v.Kq2 = eadd(v.Kq2, esc(k.H, d))
		v.Sq2 = am(v.Sq2, d, ne)
		return "voteProof.Kq2 and Sq2"
	case 14: // Z and all K
		one := big.NewInt(int64(1 + r.Intn(1000)))
		v.Z = new(big.Int).Add(v.Z, one)
		v.Kp = ff.Element().Add(v.Kp, ff.Element().BaseScale(one))
		v.Kq1, v.Kq2 = eadd(v.Kq1, ec.Element().BaseScale(one)), eadd(v.Kq2, ec.Element().BaseScale(one))
		return "voteProof.Z and Kp, Kq1, Kq2"
	default: // signs: even challenge, or two signs at once
		neg := func(e group.Element) group.Element {
			return ff.Element().SetBytes(new(big.Int).Sub(ff.P(), zvElemInt(e)).Bytes())
		}
		switch r.Intn(4) {
		case 0:
			b.Ballot.U = neg(b.Ballot.U)
			if c.Bit(0) == 1 {
				v.W = neg(v.W)
			}
			return "sign of U"
		case 1:
			b.Ballot.V = neg(b.Ballot.V)
			if c.Bit(0) == 1 {
				v.Kp = neg(v.Kp)
			}
			return "sign of V"
		case 2:
			v.W = neg(v.W)
			return "sign of W"
		default:
			v.Kp = neg(v.Kp)
			return "sign of Kp"
		}
	}
}

var _ = voteproof.BigTwo
