//go:build go1.22

package main

// C02: an accepted ballot always encrypts a candidate inside the range.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C02", gen: zvGenC02, exec: zvExecC02, quick: 1500, deep: 80000,
		rule:   "one evaluation is one Byzantine or honest message judged by one collector and decrypted by the oracle; distinct cases differ in group, election, strategy or target",
		reals:  []string{"BallotDataUnmarshalJSON, verifyVote, bulletproofs and voteproof verification, group implementations; castVote for the honest history"},
		stubs:  []string{"Byzantine voters (own provers that know all their secrets and learn the challenge derivation from honest proofs)", "network, entropy, clock (simulated)", "a transparent group replaces the curve in part of the runs"},
		assume: []string{"forgeries that need a discrete logarithm or a hash collision are out of reach", "challenges of 96 bits or more"},
	})
}

var zvByzRange = []string{"honest-bits", "tprime", "p-shift", "ipp-c", "gens", "gens-short", "gens-none", "late-T1", "late-T2",
	"late-A", "late-S", "late-L", "late-R", "nonbit", "neg-digit", "zero", "ab-zero", "degenerate", "degenerate", "share", "share"}
var zvByzSigma = []string{"use-x", "use-r", "guess", "near", "simulate", "simulate-0", "late-W", "late-Kp", "late-Kq1", "late-Kq2", "late-Y", "late-Xp",
	"crt", "neg-z", "wrap-q", "params-0", "params-h", "identity", "degenerate", "sign-W", "sign-12"}
var zvByzOther = []string{"choice", "own-pp", "graft-ct", "shift-ct", "swap-proofs", "own-n", "own-h", "nonmember", "other-range", "wrap"}

func zvGenC02(r *zvRNG, idx int, tier string) *zvPlan {
	cs := zvCurves
	if r.Chance(1, 2) {
		cs = []string{"tg"}
	}
	p := &zvPlan{Cfg: zvElection(r, cs, 4)}
	c := &p.Cfg
	if c.EC == "tg" && c.FF == "setup" {
		c.FF, c.Bc = "m512", 128
	}
	if c.FF == "m200" {
		c.FF = "m264"
	}
	// leave candidates outside the range
	if c.FF != "setup" && c.Hi-c.Lo > 60000 {
		if c.Hi < 65535 || r.Chance(1, 2) {
			c.Hi -= 500
		}
		c.Lo += 500
	}
	c.Nodes = 1
	p.Quantum = r.PickInt(0, 0, 1000)
	p.Budget = 50
	n := 3 + r.Intn(3)
	honest := r.Chance(1, 2)
	if honest {
		p.Steps = append(p.Steps, zvStep{K: "cast", S: r.Sub(), A: -1, Del: []zvDel{{To: 0}}})
	}
	for i := 0; i < n; i++ {
		st := zvStep{K: "byz", At: 400000 + int64(i)*1000, S: r.Sub()}
		j := (idx*n + i) // cycle through the strategies
		switch j % 3 {
		case 0:
			st.Str = "range:" + zvByzRange[(j/3)%len(zvByzRange)] + ":" + r.Pick("lower", "upper")
		case 1:
			st.Str = "sigma:" + zvByzSigma[(j/3)%len(zvByzSigma)]
		default:
			st.Str = "other:" + zvByzOther[(j/3)%len(zvByzOther)]
		}
		st.A = int64(zvBadCandidate(r, *c))
		st.B = int64(r.Intn(2))
		p.Steps = append(p.Steps, st)
	}
	if c.FF != "setup" && strings.Contains(fmt.Sprint(p.Steps), "wrap-q") && r.Chance(1, 4) { // the parameters come from the repository
		*c = zvCfg{EC: zvCurves[r.Intn(len(zvCurves))], FF: "setup", Lo: 101, Hi: 2000, Bc: 224, N: 16, Nodes: 1}
		for i := range p.Steps {
			if p.Steps[i].K == "byz" {
				p.Steps[i].A = int64(zvBadCandidate(r, *c))
			}
		}
	}
	return p
}

// zvBadCandidate picks a number outside the range of candidates.
func zvBadCandidate(r *zvRNG, c zvCfg) int {
	span := 1 << uint(c.N)
	cs := []int{c.Lo - 1, c.Hi + 1, 0, 65535, c.Lo - 1 - r.Intn(300), c.Hi + 1 + r.Intn(300), r.Intn(65536), c.Lo + span, c.Hi - span,
		c.Lo + span - 1, c.Hi - span + 1, c.Hi + 1<<16, c.Lo - 1<<16}
	for k := 0; k < 60; k++ {
		m := cs[r.Intn(len(cs))]
		if (m >= 0 && m <= 65535 || r.Chance(1, 2)) && (m < c.Lo || m > c.Hi) {
			return m
		}
	}
	return c.Hi + 1
}

func zvExecC02(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		switch st.K {
		case "cast":
			w.castStep(i, st, func(b *zvBallot, d zvDel, v zvVerdict) { w.soundVerdict("honest", b.js, v) })
		case "byz":
			var js, first []byte
			var v, v0 zvVerdict
			t := e.spawn(fmt.Sprintf("byz%d", i), st.At, st.S, nil, 0, func(t *zvTask) {
				e.oracle(func() { js, first = w.byzBallot(st) })
				if js != nil {
					if first != nil && st.B == 1 { // a valid ballot with parts of the bad one goes first
						v0, _ = zvCollectJSON(first, w.nodes[0].pp)
					}
					v, _ = zvCollectJSON(js, w.nodes[0].pp)
				}
			})
			t.onEnd = func(t *zvTask) {
				if js == nil {
					e.probe("no-message/" + st.Str)
					return
				}
				if t.panicV != nil {
					e.probe("collector-panic")
					return
				}
				if v0.accepted {
					w.soundVerdict("honest", first, v0)
				}
				w.soundVerdict(st.Str, js, v)
			}
		}
	}
	e.run()
}

// soundVerdict: an accepted message must decrypt into the range.
func (w *zvWorld) soundVerdict(what string, js []byte, v zvVerdict) {
	e := w.e
	e.eval(w.cfg.EC, w.cfg.FF, w.cfg.Lo, w.cfg.Hi, w.cfg.Bc, what)
	e.probe("judged/" + strings.SplitN(what, ":", 2)[0])
	if !v.accepted {
		return
	}
	e.probe("accepted/" + strings.SplitN(what, ":", 2)[0])
	e.oracle(func() {
		ct, err := BallotUnmarshalJSON(zvSub(js, "ballot"), w.nodes[0].pp.FFGroupParams.I)
		if err != nil {
			e.fail("unreadable-accepted", "a ballot is accepted but its ciphertext does not decode: %v", err)
			return
		}
		m, ok := w.dec.plain(ct)
		if ok && (m < w.cfg.Lo || m > w.cfg.Hi) {
			e.fail("out-of-range-accepted", "%s/%s, candidates %d..%d, challenge %d bits: a ballot encrypting %d (-1: no candidate number) made by %q is accepted", w.cfg.EC, w.cfg.FF, w.cfg.Lo, w.cfg.Hi, w.cfg.Bc, m, what)
		}
	})
}

func zvSub(js []byte, key string) []byte {
	m := map[string]json.RawMessage{}
	json.Unmarshal(js, &m)
	return m[key]
}

// zvHonestParts is an honest ballot with all its secrets.
type zvParts struct {
	bd             BallotData
	x              int
	rp, r1, r2, g2 *big.Int
}

func zvPartsOf(pp PublicParameters, x int) *zvParts {
	p := &zvParts{x: x}
	var err error
	p.bd.Ballot, p.rp = encryptVote(uint16(x), pp.EGPK, pp.FFGroupParams.I)
	if p.bd.BpLower, p.r1, err = bulletproofs.Prove(big.NewInt(int64(x)-int64(pp.candidateMin)), pp.BPParams); err != nil {
		panic(err)
	}
	if p.bd.BpUpper, p.g2, err = bulletproofs.Prove(big.NewInt(int64(pp.candidateMax)-int64(x)), pp.BPParams); err != nil {
		panic(err)
	}
	p.r2 = new(big.Int).Sub(pp.ECGroupParams.N, p.g2)
	return p
}
func (p *zvParts) sigma(pp PublicParameters) *zvParts {
	p.bd.VoteProof = voteproof.Prove(big.NewInt(int64(p.x)), p.rp, p.r1, p.r2, pp.RPParams)
	return p
}
func zvCiphertext(pp PublicParameters, m, r *big.Int) ElGamalCiphertext {
	g := pp.FFGroupParams.I
	n := g.N()
	mm := new(big.Int).Mod(m, n)
	return ElGamalCiphertext{U: g.Element().BaseScale(r), V: g.Element().Add(g.Element().BaseScale(mm), g.Element().Scale(pp.EGPK, r))}
}

// zvRangeFor gives a range proof for value v: honest if v fits, forged otherwise. The
// commitment hides v with the returned blinding.
func (w *zvWorld) rangeFor(v *big.Int, strategy string, rng *zvRNG, pp PublicParameters) (bulletproofs.BulletProof, *big.Int, bool) {
	if v.Sign() >= 0 && v.BitLen() <= int(pp.BPParams.N) {
		b, g, err := bulletproofs.Prove(v, pp.BPParams)
		if err != nil {
			return b, nil, false
		}
		return b, g, true
	}
	k := zvNewKit(pp.BPParams, 1, rng)
	p := k.forge(strategy, []*big.Int{v})
	if p == nil || p.vals[0].Cmp(v) != 0 && k.mod(new(big.Int).Set(v)).Cmp(k.mod(new(big.Int).Set(p.vals[0]))) != 0 {
		return bulletproofs.BulletProof{}, nil, false
	}
	if p.draft != nil { // what the challenges were made for
		q := p.draft.single(k)
		w.rangeDraft = &q
	}
	return p.single(k), p.gammas[0], true
}

// zvShare puts parts of d (never the commitment) into b.
func zvShare(b *bulletproofs.BulletProof, d bulletproofs.BulletProof, rng *zvRNG) {
	n := 16
	one, how := rng.Intn(n), rng.Intn(4)
	i := -1
	take := func() bool {
		i++
		switch how {
		case 0, 1:
			return i == one
		case 2:
			return i != one
		}
		return rng.Chance(1, 2)
	}
	for _, e := range [][2]*group.Element{{&b.A, &d.A}, {&b.S, &d.S}, {&b.T1, &d.T1}, {&b.T2, &d.T2}, {&b.InnerProductProof.P, &d.InnerProductProof.P}} {
		if take() {
			*e[0] = *e[1]
		}
	}
	for _, e := range [][2]**big.Int{{&b.Taux, &d.Taux}, {&b.Mu, &d.Mu}, {&b.Tprime, &d.Tprime}, {&b.InnerProductProof.A, &d.InnerProductProof.A},
		{&b.InnerProductProof.B, &d.InnerProductProof.B}, {&b.InnerProductProof.Cc, &d.InnerProductProof.Cc}} {
		if take() {
			*e[0] = *e[1]
		}
	}
	if take() {
		b.InnerProductProof.L = d.InnerProductProof.L
	}
	if take() {
		b.InnerProductProof.R = d.InnerProductProof.R
	}
	if take() {
		b.InnerProductProof = d.InnerProductProof
	}
	if take() {
		b.T1, b.T2, b.Taux, b.Tprime = d.T1, d.T2, d.Taux, d.Tprime
	}
	if take() {
		v := b.V
		*b = d
		b.V = v
	}
}

// byzBallot makes the message of a Byzantine voter, and a valid one that shares parts with it.
func (w *zvWorld) byzBallot(st zvStep) (js, first []byte) {
	defer func() {
		if r := recover(); r != nil {
			js = nil // a prover that cannot finish sends nothing
		}
	}()
	rng := zvNewRNG(st.S, 11)
	pp := w.nodes[0].pp
	f := strings.Split(st.Str, ":")
	m := int(st.A)
	bm := big.NewInt(int64(m))
	lo, hi := int64(w.cfg.Lo), int64(w.cfg.Hi)
	ffn, ecn := pp.FFGroupParams.N, pp.ECGroupParams.N
	good := int(lo) + rng.Intn(int(hi-lo)+1)
	var bd BallotData
	switch f[0] {
	case "range":
		vl, vu := new(big.Int).SetInt64(int64(m)-lo), new(big.Int).SetInt64(hi-int64(m))
		w.rangeDraft = nil
		a, ra, ok1 := w.rangeFor(vl, f[1], rng, pp)
		lowerDraft := w.rangeDraft
		w.rangeDraft = nil
		b, rb, ok2 := w.rangeFor(vu, f[1], rng, pp)
		upperDraft := w.rangeDraft
		if !ok1 || !ok2 {
			return nil, nil
		}
		if f[1] == "share" { // the bad proof has parts of a good one
			x, y := &a, &b
			if vl.Sign() >= 0 && vl.BitLen() <= int(pp.BPParams.N) {
				x, y = &b, &a
			}
			donor := *y
			if rng.Chance(1, 2) {
				h := zvPartsOf(pp, good).sigma(pp)
				first = zvBallotJSON(&h.bd)
				donor = h.bd.BpLower
				if rng.Chance(1, 2) {
					donor = h.bd.BpUpper
				}
			}
			zvShare(x, donor, rng)
		}
		rp := rng.BigNZ(ffn)
		bd = BallotData{Ballot: zvCiphertext(pp, bm, rp), BpLower: a, BpUpper: b}
		bd.VoteProof = voteproof.Prove(bm, rp, ra, new(big.Int).Mod(new(big.Int).Neg(rb), ecn), pp.RPParams)
		if lowerDraft != nil || upperDraft != nil { // the collector sees the draft first
			h := bd
			if lowerDraft != nil {
				h.BpLower = *lowerDraft
			}
			if upperDraft != nil {
				h.BpUpper = *upperDraft
			}
			first = zvBallotJSON(&h)
		}
	case "sigma":
		// Which commitments hide the bad candidate: "p" the ciphertext alone; "1" all but the
		// lower one; "2" all but the upper one. The range proofs are honest in every case.
		span := int64(1) << uint(pp.BPParams.N)
		vars := []string{"p"}
		if hi-(lo-1) < span {
			vars = append(vars, "1")
		}
		if hi+1-lo < span {
			vars = append(vars, "2")
		}
		v := vars[rng.Intn(len(vars))]
		switch f[1] {
		case "late-Kq1":
			v = "1"
		case "late-Kq2":
			v = "2"
		case "late-W", "use-r", "late-Kp", "late-Y", "late-Xp", "crt", "neg-z", "wrap-q", "params-0", "params-h", "sign-W", "sign-12":
			v = "p"
		}
		if !strings.Contains(strings.Join(vars, ""), v) {
			return nil, nil
		}
		x1, x2 := int64(good), int64(good)
		switch v {
		case "1":
			m = int(lo) - 1
			for hi-int64(m-1) < span && rng.Chance(1, 2) {
				m--
			}
			x2 = int64(m)
		case "2":
			m = int(hi) + 1
			for int64(m+1)-lo < span && rng.Chance(1, 2) {
				m++
			}
			x1 = int64(m)
		}
		xp := int64(m)
		if f[1] == "late-Y" || f[1] == "late-Xp" || f[1] == "late-W" || f[1] == "use-r" || f[1] == "sign-W" {
			xp = int64(good)
		}
		a, ga, err := bulletproofs.Prove(big.NewInt(x1-lo), pp.BPParams)
		if err != nil {
			return nil, nil
		}
		b, gb, err := bulletproofs.Prove(big.NewInt(hi-x2), pp.BPParams)
		if err != nil {
			return nil, nil
		}
		rp := rng.BigNZ(ffn)
		s := &zvStatement{xp: big.NewInt(xp), x1: big.NewInt(x1), x2: big.NewInt(x2), ry: rp, rp: rp, r1: ga, r2: new(big.Int).Mod(new(big.Int).Neg(gb), ecn)}
		if f[1] == "late-W" || f[1] == "use-r" { // only U is off
			s.ry = rng.BigNZ(ffn)
		}
		sp, comm, ok := zvForgeSigma(f[1], s, pp.RPParams, rng)
		if !ok || s.x1.Cmp(big.NewInt(x1)) != 0 || s.x2.Cmp(big.NewInt(x2)) != 0 {
			return nil, nil
		}
		bd = BallotData{Ballot: ElGamalCiphertext{U: comm.Y, V: comm.Xp}, BpLower: a, BpUpper: b, VoteProof: sp}
		if st.B == 1 && x1 == x2 {
			h := bd
			bx := big.NewInt(x1)
			h.Ballot = zvCiphertext(pp, bx, rp)
			h.VoteProof = voteproof.Prove(bx, rp, s.r1, s.r2, pp.RPParams)
			first = zvBallotJSON(&h)
		}
		if d := zvSigmaDraft; d != nil && rng.Chance(1, 2) {
			h := bd
			h.Ballot, h.VoteProof = ElGamalCiphertext{U: d.c.Y, V: d.c.Xp}, d.p
			first = zvBallotJSON(&h)
		}
	case "other":
		switch f[1] {
		case "choice": // the honest code, asked for a candidate outside
			bd = zvCastChoice(pp, m)
		case "own-pp": // the honest code with a wider range of its own
			q := pp
			q.candidateMin, q.candidateMax = 0, 65535
			q.RPParams.RangeLo, q.RPParams.RangeHi = 0, 65535
			bd = zvCastChoice(q, m)
		case "other-range": // commitments for a shifted range; every proof is honest for it
			d := int64(m) - int64(good)
			p := zvPartsOf(pp, good)
			if st.B == 1 {
				first = zvBallotJSON(&p.sigma(pp).bd)
			}
			rp := rng.BigNZ(ffn)
			_ = d
			p.bd.Ballot = zvCiphertext(pp, bm, rp)
			p.bd.VoteProof = voteproof.Prove(bm, rp, p.r1, p.r2, pp.RPParams)
			bd = p.bd
		case "graft-ct": // honest proofs around another ciphertext
			bd = zvPartsOf(pp, good).sigma(pp).bd
			first = zvBallotJSON(&bd)
			bd.Ballot = zvCiphertext(pp, bm, rng.BigNZ(ffn))
		case "shift-ct": // the ciphertext moved by a known amount, the answer moved along
			p := zvPartsOf(pp, good).sigma(pp)
			d := new(big.Int).SetInt64(int64(m) - int64(good))
			bd = p.bd
			first = zvBallotJSON(&bd)
			bd.Ballot = zvCiphertext(pp, bm, p.rp)
			bd.VoteProof.Z = new(big.Int).Add(bd.VoteProof.Z, new(big.Int).Mul(d, bd.VoteProof.Challenge))
			if rng.Chance(1, 2) {
				bd.VoteProof.Z = new(big.Int).Set(p.bd.VoteProof.Z)
			}
		case "swap-proofs": // the same proof for both ends
			p := zvPartsOf(pp, good)
			s := p
			bd = p.bd
			if rng.Chance(1, 2) {
				bd.BpUpper = bd.BpLower
				// Xq2 = hi - (good - lo): the proof is for x = hi + lo - good in part
				s.r2 = new(big.Int).Sub(ecn, p.r1)
			} else {
				bd.BpLower = bd.BpUpper
				s.r1 = p.g2
			}
			rp := rng.BigNZ(ffn)
			bd.Ballot = zvCiphertext(pp, bm, rp)
			bd.VoteProof = voteproof.Prove(bm, rp, s.r1, s.r2, pp.RPParams)
		case "own-n": // range proofs with parameters of its own that allow larger values
			par, err := bulletproofs.Setup(1<<32, pp.ECGroupParams.I)
			if err != nil {
				return nil, nil
			}
			q := pp
			q.BPParams = par
			vl, vu := int64(m)-lo, hi-int64(m)
			if m > int(hi) {
				// upper is negative: hide it in a second range of its own
				q.RPParams.RangeHi = 65535
				vu = 65535 - int64(m)
			} else {
				q.RPParams.RangeLo = 0
				vl = int64(m)
			}
			a, ra, _ := bulletproofs.Prove(big.NewInt(vl), par)
			b, rb, _ := bulletproofs.Prove(big.NewInt(vu), par)
			rp := rng.BigNZ(ffn)
			bd = BallotData{Ballot: zvCiphertext(pp, bm, rp), BpLower: a, BpUpper: b,
				VoteProof: voteproof.Prove(bm, rp, ra, new(big.Int).Mod(new(big.Int).Neg(rb), ecn), q.RPParams)}
		case "own-h": // H with a known logarithm inside the message
			d := big.NewInt(5)
			par := pp.BPParams
			par.H = pp.ECGroupParams.I.Element().BaseScale(d)
			mk := func(v *big.Int) (bulletproofs.BulletProof, *big.Int) {
				// commit honestly to 1 under the own H; under the server's parameters V hides 1 + 5 gamma
				b, g, err := bulletproofs.Prove(big.NewInt(1), par)
				if err != nil {
					panic(err)
				}
				_ = v
				return b, g
			}
			a, ga := mk(nil)
			b, gb := mk(nil)
			q := pp
			q.RPParams.GEC.H = par.H
			rp := rng.BigNZ(ffn)
			bd = BallotData{Ballot: zvCiphertext(pp, bm, rp), BpLower: a, BpUpper: b,
				VoteProof: voteproof.Prove(bm, rp, ga, new(big.Int).Mod(new(big.Int).Neg(gb), ecn), q.RPParams)}
		case "nonmember":
			bd = w.nonMember(pp, good, rng)
		case "wrap": // the value wraps around the order of the group
			vl := new(big.Int).SetInt64(int64(m) - lo)
			vl.Mod(vl, ecn)
			a, ra, err := bulletproofs.Prove(vl, pp.BPParams)
			if err != nil {
				return nil, nil
			}
			vu := new(big.Int).SetInt64(hi - int64(m))
			vu.Mod(vu, ecn)
			b, rb, err := bulletproofs.Prove(vu, pp.BPParams)
			if err != nil {
				return nil, nil
			}
			rp := rng.BigNZ(ffn)
			bd = BallotData{Ballot: zvCiphertext(pp, bm, rp), BpLower: a, BpUpper: b,
				VoteProof: voteproof.Prove(bm, rp, ra, new(big.Int).Mod(new(big.Int).Neg(rb), ecn), pp.RPParams)}
		}
	}
	return zvBallotJSON(&bd), first
}

// nonMember makes a ballot whose V (or U) is minus a group element; the challenge is ground to
// be even, where the sign vanishes from the equations.
func (w *zvWorld) nonMember(pp PublicParameters, good int, rng *zvRNG) BallotData {
	q := zvPartsOf(pp, good)
	par := pp.RPParams
	ffn, ecn := par.GFF.I.N(), par.GEC.I.N()
	neg := func(e group.Element) group.Element {
		v := new(big.Int).Sub(par.GFF.I.P(), zvElemInt(e))
		return par.GFF.I.Element().SetBytes(v.Bytes())
	}
	fs := zvLearn()
	mask := zvSigmaFull
	if fs.sigmaOK {
		mask = fs.sigma
	}
	bd := q.bd
	if rng.Chance(1, 3) {
		bd.Ballot.U = neg(bd.Ballot.U)
	} else {
		bd.Ballot.V = neg(bd.Ballot.V)
	}
	s := zvStatement{xp: big.NewInt(int64(good)), x1: big.NewInt(int64(good)), x2: big.NewInt(int64(good)), ry: q.rp, rp: q.rp, r1: q.r1, r2: q.r2}
	comm := s.comm(&par)
	comm.Y, comm.Xp = bd.Ballot.U, bd.Ballot.V
	bxbc := uint(par.Bx) + uint(par.Bc)
	lo := new(big.Int).Lsh(big.NewInt(1), bxbc)
	for i := 0; i < 64; i++ {
		k := new(big.Int).Add(lo, rng.Big(new(big.Int).Sub(new(big.Int).Lsh(lo, uint(par.Bb)), new(big.Int).Lsh(lo, 1))))
		if par.Bb <= 1 {
			k = rng.Big(lo)
		}
		tp, t1, t2 := rng.BigNZ(ffn), rng.BigNZ(ecn), rng.BigNZ(ecn)
		var p voteproof.SigmaProof
		p.Params = par
		p.W, p.Kp = par.GFF.I.Element().BaseScale(tp), zvPed(k, tp, par.GFF)
		p.Kq1, p.Kq2 = zvPed(k, t1, par.GEC), zvPed(k, t2, par.GEC)
		c := zvSigmaHash(mask, comm, p.W, p.Kp, p.Kq1, p.Kq2, par.Bc)
		z := new(big.Int).Add(k, new(big.Int).Mul(c, s.xp))
		if c.Bit(0) == 1 || z.Cmp(lo) < 0 || z.Cmp(new(big.Int).Lsh(lo, uint(par.Bb))) >= 0 {
			continue
		}
		f := func(t, r, n *big.Int) *big.Int {
			v := new(big.Int).Mul(c, r)
			return v.Mod(v.Add(v, t), n)
		}
		p.Challenge, p.Z, p.Sp, p.Sq1, p.Sq2 = c, z, f(tp, s.rp, ffn), f(t1, s.r1, ecn), f(t2, s.r2, ecn)
		bd.VoteProof = p
		return bd
	}
	panic("no even challenge")
}
