//go:build go1.22

package main

// The Byzantine provers. They know the protocol and every secret of their own; what they lack
// is a true statement. Each strategy breaks as little as possible (one verification condition,
// one message chosen after its challenge, one substituted parameter), so that a verifier that
// leaves out or weakens that one check accepts.

import (
	"crypto/rand"
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// ---- the challenges, as an outside prover sees them ------------------------------------
//
// What goes into each challenge is learned from one honest proof: the full transcript is tried
// first, then every part of it. A prover may then exploit whatever is left out.

type zvFS struct {
	y, z, x  []int // what is hashed, in order: see zvHashed
	zIsY     bool  // z is the same hash as y
	zPlain   bool  // z = H(transcript, y)
	ipS      []int // what the inner product challenge hashes: 0 P, 1 generators in pairs, 2 c, 3 first, 4 second generators
	ipSigned bool  // the hash is read as a two's complement number
	rS       []int // what the challenge of a round hashes: 0 L, 1 R, 2 the challenge before
	rPup     bool  // asked of the real prover
	ok       bool
	single   bool
	puppet   bool // y, z, x (or the sigma challenge, sigmaPup) are asked of the real prover
	sigmaPup bool
	sigma    []int // what is hashed, in order, of Y Xp Xq1 Xq2 W Kp Kq1 Kq2
	sigmaOK  bool
	sigmaL   [2]int // bytes of the hash used for challenges of 128 and 256 bits (negative: the last ones)
	cut      int    // bytes of the hash used by the range proof (0: all, negative: the last ones)
	multi    *zvFS
}

func zvHash(parts ...string) *big.Int {
	h := sha256.New()
	for _, p := range parts {
		h.Write([]byte(p))
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

// zvCut keeps the first n bytes of h (the last ones if n is negative, all if 0).
func zvCut(h []byte, n int) []byte {
	switch {
	case n > 0 && n < len(h):
		return h[:n]
	case n < 0 && -n < len(h):
		return h[len(h)+n:]
	}
	return h
}

func (f *zvFS) hash(parts ...string) *big.Int {
	v := zvHash(parts...)
	if f.cut == 0 {
		return v
	}
	return new(big.Int).SetBytes(zvCut(v.FillBytes(make([]byte, 32)), f.cut))
}

// zvHashed lists the strings of a sequence over: 0 all V, 1 A, 2 S, 3 T1, 4 T2, 5 the first V,
// 6 the last V, 7 all V but the last, 8 all V but the first.
func zvHashed(seq []int, Vs []group.Element, A, S, T1, T2 group.Element) []string {
	var p []string
	all := func(v []group.Element) {
		for _, e := range v {
			p = append(p, e.String())
		}
	}
	for _, i := range seq {
		switch i {
		case 0:
			all(Vs)
		case 5:
			all(Vs[:1])
		case 6:
			all(Vs[len(Vs)-1:])
		case 7:
			all(Vs[:len(Vs)-1])
		case 8:
			all(Vs[1:])
		default:
			all([]group.Element{A, S, T1, T2}[i-1 : i])
		}
	}
	return p
}

func (f *zvFS) yz(Vs []group.Element, A, S group.Element) (*big.Int, *big.Int) {
	p := zvHashed(f.y, Vs, A, S, A, A)
	y := f.hash(p...)
	if f.zIsY {
		return y, y
	}
	q := zvHashed(f.z, Vs, A, S, A, A)
	return y, f.hash(append(q, y.String())...)
}
func (f *zvFS) xc(Vs []group.Element, A, S, T1, T2 group.Element) *big.Int {
	return f.hash(zvHashed(f.x, Vs, A, S, T1, T2)...)
}
func (f *zvFS) ip(gg, hh []group.Element, P group.Element, c *big.Int) *big.Int {
	var p []string
	for _, v := range f.ipS {
		switch v {
		case 0:
			p = append(p, P.String())
		case 2:
			p = append(p, c.String())
		default:
			for i := range gg {
				if v != 4 {
					p = append(p, gg[i].String())
				}
				if v != 3 {
					p = append(p, hh[i].String())
				}
			}
		}
	}
	v := f.hash(p...)
	if f.ipSigned && v.BitLen() == 256 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	return v
}
func (f *zvFS) round(L, R group.Element, before *big.Int) *big.Int {
	if f.rPup {
		return zvAskRound(L, R)
	}
	var p []string
	for _, v := range f.rS {
		p = append(p, []func() string{L.String, R.String, before.String}[v]())
	}
	return f.hash(p...)
}

// ---- the real prover as an oracle ------------------------------------------------------
//
// Where the derivation of a challenge cannot be learned, the challenge for given messages is
// asked of the real prover: in a transparent group it is run twice with the same entropy, the
// second time with its messages exchanged for the given ones as soon as it computes them.

type zvPupReader struct{ r *zvRNG }

func (p zvPupReader) Read(b []byte) (int, error) { return copy(b, p.r.Bytes(len(b))), nil }

func zvPuppet(seed uint64, pairs []group.Element, f func()) bool {
	m := map[string]*zvTE{}
	for i := 0; i+1 < len(pairs); i += 2 {
		if pairs[i] != nil && pairs[i+1] != nil {
			t, ok := pairs[i+1].(*zvTE)
			if !ok {
				return false
			}
			m[pairs[i].String()] = t
		}
	}
	old := rand.Reader
	rand.Reader = zvPupReader{zvNewRNG(seed, 99)}
	if len(m) > 0 {
		zvSubst = m
	}
	defer func() { rand.Reader, zvSubst = old, nil }()
	return zvQuiet(f)
}

type zvPupRun struct {
	Vs           []group.Element
	A, S, T1, T2 group.Element
	mu           *big.Int
	P            group.Element
}

func (k *zvKit) pupRun(pairs ...group.Element) (r zvPupRun) {
	if !zvPuppet(7, pairs, func() {
		if k.fs.single {
			p, _, err := bulletproofs.Prove(big.NewInt(1), k.par)
			if err != nil {
				panic(err)
			}
			r = zvPupRun{[]group.Element{p.V}, p.A, p.S, p.T1, p.T2, p.Mu, p.InnerProductProof.P}
			return
		}
		vs := make([]*big.Int, k.m)
		for j := range vs {
			vs[j] = big.NewInt(1)
		}
		p, _, err := bulletproofs.MultiProve(vs, k.par)
		if err != nil {
			panic(err)
		}
		r = zvPupRun{p.Vs, p.A, p.S, p.T1, p.T2, p.Mu, p.InnerProductProof.P}
	}) {
		panic("no puppet")
	}
	return
}

// read computes the challenges an honest prover used, from its messages and the secrets in
// A and S (which the messages may hide).
func (k *zvKit) read(r zvPupRun, A, S group.Element) (y, z, x *big.Int) {
	x = k.mul(k.sub(r.mu, zvCoef(A, k.H)), k.inv(zvCoef(S, k.H)))
	z = k.sub(k.add(zvCoef(A, k.Gg[0]), k.mul(zvCoef(S, k.Gg[0]), x)), zvCoef(r.P, k.Gg[0]))
	y = big.NewInt(1)
	if k.N > 1 {
		d := k.sub(zvCoef(r.P, k.Hh[1]), k.add(zvCoef(A, k.Hh[1]), k.add(z, k.mul(zvCoef(S, k.Hh[1]), x))))
		y = k.mul(k.zz2(z)[1], k.inv(d))
	}
	return
}

// ask returns the challenges for the given messages (x only if T1 is given).
func (k *zvKit) ask(Vs []group.Element, A, S, T1, T2 group.Element) (y, z, x *big.Int) {
	r0 := k.pupRun()
	var pairs []group.Element
	for j := range Vs {
		pairs = append(pairs, r0.Vs[j], Vs[j])
	}
	pairs = append(pairs, r0.A, A, r0.S, S)
	r1 := k.pupRun(pairs...)
	if T1 != nil {
		r1 = k.pupRun(append(pairs, r1.T1, T1, r1.T2, T2)...)
	}
	y, z, x = k.read(r1, r0.A, r0.S)
	return
}

// chal returns all challenges of a range proof, reduced.
func (k *zvKit) chal(Vs []group.Element, A, S, T1, T2 group.Element) (y, z, x *big.Int) {
	if k.fs.puppet {
		return k.ask(Vs, A, S, T1, T2)
	}
	y, z = k.fs.yz(Vs, A, S)
	x = k.fs.xc(Vs, A, S, T1, T2)
	return new(big.Int).Mod(y, k.n), new(big.Int).Mod(z, k.n), x.Mod(x, k.n)
}

// zvTwo is an honest proof of two bits with the challenges of its inner product.
type zvTwoBits struct {
	k     *zvKit
	y     *big.Int
	x, xu *big.Int
	ipp   bulletproofs.InnerProductProof
}

func zvTwo(g group.Group, seed uint64, pairs ...group.Element) (t zvTwoBits) {
	par, err := bulletproofs.Setup(4, g)
	if err != nil {
		panic(err)
	}
	u, _ := g.Element().MapToGroup(bulletproofs.SEEDU)
	k := &zvKit{g: g, n: g.N(), N: 2, m: 1, H: par.H, Gg: par.Gg, Hh: par.Hh, par: par, U: u, fs: &zvFS{single: true}}
	var p bulletproofs.BulletProof
	if !zvPuppet(seed, pairs, func() {
		if p, _, err = bulletproofs.Prove(big.NewInt(2), par); err != nil {
			panic(err)
		}
	}) {
		panic("no puppet")
	}
	t.k, t.ipp = k, p.InnerProductProof
	t.y, _, _ = k.read(zvPupRun{mu: p.Mu, P: t.ipp.P}, p.A, p.S)
	l0, l1 := zvCoef(t.ipp.P, par.Gg[0]), zvCoef(t.ipp.P, par.Gg[1])
	r0, r1 := zvCoef(t.ipp.P, par.Hh[0]), k.mul(zvCoef(t.ipp.P, par.Hh[1]), t.y)
	// a = l0 x + l1 / x, b = r0 / x + r1 x
	det := k.inv(k.sub(k.mul(l0, r0), k.mul(l1, r1)))
	t.x = k.mul(det, k.sub(k.mul(t.ipp.A, r0), k.mul(l1, t.ipp.B)))
	xi := k.mul(det, k.sub(k.mul(l0, t.ipp.B), k.mul(r1, t.ipp.A)))
	if k.mul(t.x, xi).Cmp(big.NewInt(1)) != 0 {
		panic("not as expected")
	}
	t.xu = k.mul(zvCoef(t.ipp.L[0], u), k.inv(k.mul(l0, r1)))
	return
}

// zvAskRound returns the challenge the real prover uses for L and R.
func zvAskRound(L, R group.Element) *big.Int {
	g := L.(*zvTE).g
	t := zvTwo(g, 7)
	return zvTwo(g, 7, t.ipp.L[0], L, t.ipp.R[0], R).x
}

// zvAskSigma returns the challenge the real prover uses for the given messages.
func zvAskSigma(c voteproof.VerCommitments, w, kp, kq1, kq2 group.Element, par voteproof.ProofParams) *big.Int {
	st := zvStatement{xp: big.NewInt(1), x1: big.NewInt(1), x2: big.NewInt(1), ry: big.NewInt(1234567), rp: big.NewInt(1234567), r1: big.NewInt(7654321), r2: big.NewInt(1122334455)}
	for seed := uint64(1); seed < 20; seed++ {
		var p0, p1 voteproof.SigmaProof
		prove := func(p *voteproof.SigmaProof) func() {
			return func() { *p = voteproof.Prove(st.xp, st.rp, st.r1, st.r2, par) }
		}
		c0 := st.comm(&par)
		if !zvPuppet(seed, nil, prove(&p0)) {
			break
		}
		if !zvPuppet(seed, []group.Element{c0.Y, c.Y, c0.Xp, c.Xp, c0.Xq1, c.Xq1, c0.Xq2, c.Xq2, p0.W, w, p0.Kp, kp, p0.Kq1, kq1, p0.Kq2, kq2}, prove(&p1)) {
			break
		}
		if zvEl(p1.W) == zvEl(w) && zvEl(p1.Kp) == zvEl(kp) && zvEl(p1.Kq1) == zvEl(kq1) && zvEl(p1.Kq2) == zvEl(kq2) {
			return p1.Challenge
		}
	}
	panic("no puppet")
}

// ---- arithmetic helpers ----------------------------------------------------------------

type zvKit struct {
	g   group.Group
	n   *big.Int
	N   int
	m   int // number of aggregated values
	H   group.Element
	Gg  []group.Element
	Hh  []group.Element
	par bulletproofs.BulletProofSetupParams
	U   group.Element
	fs  *zvFS
	rng *zvRNG
}

func zvNewKit(par bulletproofs.BulletProofSetupParams, m int, rng *zvRNG) *zvKit {
	u, _ := par.GP.Element().MapToGroup(bulletproofs.SEEDU)
	fs := zvLearn()
	if m > 1 || m < 0 {
		fs = fs.multi
	}
	if m < 0 {
		m = -m
	}
	return &zvKit{g: par.GP, n: par.GP.N(), N: int(par.N), m: m, H: par.H, Gg: par.Gg, Hh: par.Hh, par: par, U: u, fs: fs, rng: rng}
}
func (k *zvKit) mod(x *big.Int) *big.Int    { return x.Mod(x, k.n) }
func (k *zvKit) mul(a, b *big.Int) *big.Int { return k.mod(new(big.Int).Mul(a, b)) }
func (k *zvKit) add(a, b *big.Int) *big.Int { return k.mod(new(big.Int).Add(a, b)) }
func (k *zvKit) sub(a, b *big.Int) *big.Int { return k.mod(new(big.Int).Sub(a, b)) }
func (k *zvKit) inv(a *big.Int) *big.Int {
	r := new(big.Int).ModInverse(new(big.Int).Mod(a, k.n), k.n)
	if r == nil {
		return new(big.Int)
	}
	return r
}
func (k *zvKit) ped(v, r *big.Int) group.Element {
	return k.g.Element().Add(k.g.Element().BaseScale(k.mod(new(big.Int).Set(v))), k.g.Element().Scale(k.H, k.mod(new(big.Int).Set(r))))
}
func (k *zvKit) vec(g []group.Element, s []*big.Int) group.Element {
	r := k.g.Identity()
	for i := range g {
		if s[i].Sign() != 0 {
			r = k.g.Element().Add(r, k.g.Element().Scale(g[i], s[i]))
		}
	}
	return r
}
func (k *zvKit) pow(b *big.Int, n int) []*big.Int {
	r := make([]*big.Int, n)
	c := big.NewInt(1)
	for i := range r {
		r[i] = c
		c = k.mul(c, b)
	}
	return r
}
func (k *zvKit) rnd() *big.Int { return k.rng.BigNZ(k.n) }
func (k *zvKit) rvec() []*big.Int {
	r := make([]*big.Int, k.N)
	for i := range r {
		r[i] = k.rnd()
	}
	return r
}
func (k *zvKit) ip(a, b []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range a {
		r.Add(r, new(big.Int).Mul(a[i], b[i]))
	}
	return k.mod(r)
}

// zz2 is the vector z^{2+j} 2^i.
func (k *zvKit) zz2(z *big.Int) []*big.Int {
	w := k.N / k.m
	zp := k.pow(z, k.m+2)
	r := make([]*big.Int, k.N)
	for i := range r {
		r[i] = new(big.Int)
	}
	for j := 0; j < k.m; j++ {
		for i := 0; i < w; i++ {
			r[j*w+i] = k.mul(zp[2+j], new(big.Int).Lsh(big.NewInt(1), uint(i)))
		}
	}
	return r
}

// delta(y, z)
func (k *zvKit) delta(y, z *big.Int) *big.Int {
	w := k.N / k.m
	sy := new(big.Int)
	for _, p := range k.pow(y, k.N) {
		sy.Add(sy, p)
	}
	d := k.mul(k.sub(z, k.mul(z, z)), k.mod(sy))
	s2 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	zp := k.pow(z, k.m+3)
	for j := 0; j < k.m; j++ {
		d = k.sub(d, k.mul(zp[3+j], s2))
	}
	return d
}
func (k *zvKit) hp(y *big.Int) []group.Element {
	yi := k.pow(k.inv(y), k.N)
	r := make([]group.Element, k.N)
	for i := range r {
		r[i] = k.g.Element().Scale(k.Hh[i], yi[i])
	}
	return r
}

// ---- range proofs ----------------------------------------------------------------------

type zvProof struct {
	Vs             []group.Element
	A, S, T1, T2   group.Element
	Taux, Mu, That *big.Int
	P              group.Element
	Cc, a, b       *big.Int
	L, R           []group.Element
	ippGg, ippHh   []group.Element
	gammas         []*big.Int
	vals           []*big.Int // what Vs commit to
	dL, dR         group.Element
	draft          *zvProof // the message the challenges were made for, where a part was chosen later
}

func (p *zvProof) inner(k *zvKit) bulletproofs.InnerProductProof {
	gg, hh := p.ippGg, p.ippHh
	return bulletproofs.InnerProductProof{P: p.P, Cc: p.Cc, A: p.a, B: p.b, L: p.L, R: p.R,
		Params: bulletproofs.InnerProductParams{Gg: gg, Hh: hh, Uu: k.U, GP: k.g}}
}
func (p *zvProof) single(k *zvKit) bulletproofs.BulletProof {
	return bulletproofs.BulletProof{V: p.Vs[0], A: p.A, S: p.S, T1: p.T1, T2: p.T2, Taux: p.Taux, Mu: p.Mu, Tprime: p.That,
		InnerProductProof: p.inner(k), Params: k.par}
}
func (p *zvProof) aggregated(k *zvKit) bulletproofs.MultiBulletProof {
	return bulletproofs.MultiBulletProof{Vs: p.Vs, A: p.A, S: p.S, T1: p.T1, T2: p.T2, Taux: p.Taux, Mu: p.Mu, Tprime: p.That,
		InnerProductProof: p.inner(k), Params: k.par}
}

// zvRangeStrategies: every one aims at a commitment to a value outside the range.
var zvRangeStrategies = []string{
	"honest-bits", // correct prover, bits of the value modulo 2^n: violates (65) only
	"tprime",      // t' chosen to satisfy (65), inner product proved for the real one: violates c = t' only
	"p-shift",     // inner product about other vectors: violates (67) only
	"ipp-c",       // inner product proof for a wrong c: violates the inner product only
	"gens",        // the message brings its own generators for the inner product
	"gens-short",  // one-element generators of its own, no rounds
	"gens-none",   // empty vectors
	"late-V",      // V computed after all challenges
	"late-T1", "late-T2",
	"late-A", "late-S",
	"late-L", "late-R",
	"t-first", // x does not depend on A, S, V: T1, T2 first
	"y-is-z",
	"nonbit", // a digit outside {0,1}: violates (65) for random y
	"neg-digit",
	"guess-T1", // a short x is guessed
	"zero",     // everything identity or zero
	"ab-zero",
	"degenerate", // some elements the identity or some scalars zero, the rest consistent
}

// zvSet is a target for an out-of-range commitment.
func (k *zvKit) forge(strategy string, bad []*big.Int) *zvProof {
	p := &zvProof{}
	d := &zvProof{} // what the challenges were made from
	fs := k.fs
	if _, ok := k.g.(*zvTG); fs != nil && fs.puppet && !ok {
		return nil
	}
	if fs == nil || !fs.ok {
		// Challenges unknown: only strategies that need none.
		fs = &zvFS{y: []int{0, 1, 2}, z: []int{0, 1, 2}, x: []int{0, 1, 2, 3, 4}, zPlain: true, ipS: []int{0, 1, 2}, ipSigned: true, rS: []int{0, 1}}
	}
	w := k.N / k.m
	one := big.NewInt(1)
	p.vals = make([]*big.Int, k.m)
	p.gammas = make([]*big.Int, k.m)
	p.Vs = make([]group.Element, k.m)
	for j := range p.Vs {
		p.vals[j] = new(big.Int).Set(bad[j])
		p.gammas[j] = k.rnd()
		p.Vs[j] = k.ped(p.vals[j], p.gammas[j])
	}
	aL := make([]*big.Int, k.N)
	aR := make([]*big.Int, k.N)
	for i := range aL { // slots beyond m*w (never for supported sizes)
		aL[i], aR[i] = new(big.Int), big.NewInt(-1)
	}
	for j := range bad {
		for i := 0; i < w; i++ {
			// bits of the low part
			b := new(big.Int).Mod(new(big.Int).Rsh(new(big.Int).Mod(bad[j], new(big.Int).Lsh(one, uint(w))), uint(i)), big.NewInt(2))
			aL[j*w+i] = b
			aR[j*w+i] = new(big.Int).Sub(b, one)
		}
	}
	sL, sR := k.rvec(), k.rvec()
	alpha, rho := k.rnd(), k.rnd()
	tau1, tau2 := k.rnd(), k.rnd()

	var y, z, x *big.Int
	commitA := func() {
		p.A = k.g.Element().Add(k.g.Element().Scale(k.H, alpha), k.g.Element().Add(k.vec(k.Gg, k.red(aL)), k.vec(k.Hh, k.red(aR))))
	}
	commitS := func() {
		p.S = k.g.Element().Add(k.g.Element().Scale(k.H, rho), k.g.Element().Add(k.vec(k.Gg, sL), k.vec(k.Hh, sR)))
	}
	var l0, r0, r1 []*big.Int
	var t0, t1, t2 *big.Int
	polys := func() {
		yp := k.pow(y, k.N)
		q := k.zz2(z)
		l0, r0, r1 = make([]*big.Int, k.N), make([]*big.Int, k.N), make([]*big.Int, k.N)
		for i := range l0 {
			l0[i] = k.sub(aL[i], z)
			r0[i] = k.add(k.mul(yp[i], k.add(aR[i], z)), q[i])
			r1[i] = k.mul(yp[i], sR[i])
		}
		t0 = k.ip(l0, r0)
		t1 = k.add(k.ip(sL, r0), k.ip(l0, r1))
		t2 = k.ip(sL, r1)
	}
	// want is the t0 the commitments call for.
	want := func() *big.Int {
		zp := k.pow(z, k.m+2)
		r := k.delta(y, z)
		for j := range p.vals {
			r = k.add(r, k.mul(zp[2+j], p.vals[j]))
		}
		return r
	}
	commitT := func() { p.T1, p.T2 = k.ped(t1, tau1), k.ped(t2, tau2) }
	finish := func() ([]*big.Int, []*big.Int) {
		l, r := make([]*big.Int, k.N), make([]*big.Int, k.N)
		for i := range l {
			l[i] = k.add(l0[i], k.mul(sL[i], x))
			r[i] = k.add(r0[i], k.mul(r1[i], x))
		}
		zp := k.pow(z, k.m+2)
		p.Taux = k.add(k.mul(tau1, x), k.mul(tau2, k.mul(x, x)))
		for j := range p.gammas {
			p.Taux = k.add(p.Taux, k.mul(zp[2+j], p.gammas[j]))
		}
		p.Mu = k.add(alpha, k.mul(rho, x))
		p.That = k.ip(l, r)
		return l, r
	}
	// tForced is the t' that satisfies (65) for the committed values.
	tForced := func() *big.Int {
		return k.add(want(), k.add(k.mul(t1, x), k.mul(t2, k.mul(x, x))))
	}
	yz := func() {
		d.Vs, d.A, d.S = append([]group.Element{}, p.Vs...), p.A, p.S
		if fs.puppet {
			y, z, _ = k.ask(p.Vs, p.A, p.S, nil, nil)
			return
		}
		y, z = fs.yz(p.Vs, p.A, p.S)
	}
	xx := func() {
		d.T1, d.T2 = p.T1, p.T2
		if fs.puppet {
			_, _, x = k.ask(p.Vs, p.A, p.S, p.T1, p.T2)
			return
		}
		x = fs.xc(p.Vs, p.A, p.S, p.T1, p.T2)
	}

	switch strategy {
	default: // honest-bits
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "tprime":
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, k.ip(l, r), "")
		p.That = tForced()
	case "p-shift":
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		p.That = tForced()
		// change l[0] so that <l, r> = t'
		d := k.sub(p.That, k.ip(l, r))
		l[0] = k.add(l[0], k.mul(d, k.inv(r[0])))
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "ipp-c":
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		p.That = tForced()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "late-L", "late-R", "gens", "gens-short", "gens-none", "ab-zero":
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		p.That = tForced()
		k.inner(p, fs, y, l, r, nil, p.That, strategy)
	case "late-V":
		// All commitments but T1 are those of an honest proof for 0; T1 is off by e, which
		// moves the value of V to -e x / z^2.
		for i := range aL {
			aL[i], aR[i] = new(big.Int), big.NewInt(-1)
		}
		for j := range p.vals {
			p.vals[j] = new(big.Int)
			p.Vs[j] = k.ped(p.vals[j], p.gammas[j])
		}
		commitA()
		commitS()
		yz()
		polys()
		e := k.rnd()
		p.T1, p.T2 = k.ped(k.add(t1, e), tau1), k.ped(t2, tau2)
		xx()
		l, r := finish()
		p.vals[0] = k.sub(new(big.Int), k.mul(k.mul(e, x), k.inv(k.mul(z, z))))
		p.Vs[0] = k.ped(p.vals[0], p.gammas[0])
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "late-T1", "late-T2":
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		// move t1 (or t2) so that (65) holds for the committed values
		d := k.sub(t0, want())
		if strategy == "late-T1" {
			p.T1 = k.ped(k.add(t1, k.mul(d, k.inv(x))), tau1)
		} else {
			p.T2 = k.ped(k.add(t2, k.mul(d, k.inv(k.mul(x, x)))), tau2)
		}
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "guess-T1":
		if fs.cut == 0 || fs.cut > 2 || fs.cut < -2 {
			return nil
		}
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		d := k.sub(t0, want())
		for tries := 0; ; tries++ {
			if tries > 400000 || tries > 2000 && k.g.Name()[0] != 't' {
				return nil
			}
			guess := x
			tau1 = k.rnd()
			p.T1 = k.ped(k.add(t1, k.mul(d, k.inv(guess))), tau1)
			xx()
			if x.Cmp(guess) == 0 {
				break
			}
		}
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "late-A":
		// y, z from a first A; then aR[0] solves t0 = want.
		commitA()
		commitS()
		yz()
		a := aL[0]
		den := k.sub(a, z)
		aR[0] = new(big.Int)
		polys()
		// t0 is linear in aR[0] with slope (a - z)
		aR[0] = k.mul(k.sub(want(), t0), k.inv(den))
		polys()
		commitA()
		commitT()
		xx()
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "late-S":
		// S after y, z and x: T1, T2 fixed first, then sR[0] moves <l, r> to t'.
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		ft1, ft2 := t1, t2
		xx()
		need := k.add(want(), k.add(k.mul(ft1, x), k.mul(ft2, k.mul(x, x))))
		l, r := finish()
		d := k.sub(need, k.ip(l, r)) // change r[0] by d / l[0]
		dr := k.mul(d, k.inv(l[0]))  // r[0] = .. + sR[0] x  (y^0 = 1)
		sR[0] = k.add(sR[0], k.mul(dr, k.inv(x)))
		commitS()
		polys()
		l, r = finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "t-first":
		// T1, T2 first: x is known; one digit a with a(a-1) = x t1 + x^2 t2.
		t1, t2 = k.rnd(), k.rnd()
		commitT()
		p.A, p.S = k.g.Identity(), k.g.Identity()
		xx()
		K := k.add(k.mul(x, t1), k.mul(k.mul(x, x), t2))
		var a *big.Int
		for tries := 0; ; tries++ {
			// a = (1 + sqrt(1 + 4K)) / 2
			s := new(big.Int).ModSqrt(k.add(one, k.mul(big.NewInt(4), K)), k.n)
			if s != nil {
				a = k.mul(k.add(s, one), k.inv(big.NewInt(2)))
				break
			}
			t1 = k.rnd()
			commitT()
			xx()
			K = k.add(k.mul(x, t1), k.mul(k.mul(x, x), t2))
			if tries > 100 {
				return nil
			}
		}
		for i := range aL {
			aL[i], aR[i] = new(big.Int), big.NewInt(-1)
		}
		// alpha_0 = aL0 + sL0 x = a, beta_0 = a - 1; the others are digits 0.
		for i := range sL {
			sL[i], sR[i] = new(big.Int), new(big.Int)
		}
		sL[0], sR[0] = k.rnd(), k.rnd()
		aL[0] = k.sub(a, k.mul(sL[0], x))
		aR[0] = k.sub(k.sub(a, one), k.mul(sR[0], x))
		for j := range p.vals {
			p.vals[j] = new(big.Int)
		}
		p.vals[0] = a
		for j := range p.Vs {
			p.Vs[j] = k.ped(p.vals[j], p.gammas[j])
		}
		commitA()
		commitS()
		yz()
		st1, st2 := t1, t2
		polys()
		t1, t2 = st1, st2
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "y-is-z":
		for i := range aL {
			aL[i], aR[i] = new(big.Int), big.NewInt(-1)
		}
		for j := range p.vals {
			p.vals[j] = new(big.Int)
		}
		switch {
		case k.N == 1:
			// y^0: a0 b0 = 0, y^1: a0 - b0 - 1 = 0, y^2: a0 - v = 0
			return nil
		case k.N/k.m >= 4 || k.N/k.m == k.N && k.N >= 3:
			a := big.NewInt(int64(1<<uint(w/2+1)) + int64(k.rng.Intn(1000)) + 2)
			aL[2], aR[2] = a, new(big.Int).Sub(a, one)
			// y^2: a(a-1) + 4a - v = 0
			p.vals[0] = k.add(k.mul(a, new(big.Int).Sub(a, one)), k.mul(big.NewInt(4), a))
		default: // N = 2, m = 1
			if k.m != 1 {
				return nil
			}
			v := new(big.Int).Set(bad[0])
			a1 := k.rnd()
			b1 := k.sub(k.sub(k.mul(big.NewInt(3), a1), one), v)
			aL[1], aR[1] = a1, b1
			aL[0] = new(big.Int)
			aR[0] = k.sub(k.mul(a1, b1), one)
			p.vals[0] = v
		}
		for j := range p.Vs {
			p.Vs[j] = k.ped(p.vals[j], p.gammas[j])
		}
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "nonbit", "neg-digit":
		// digits with the right sum, one of them not a bit
		for i := range aL {
			aL[i], aR[i] = new(big.Int), big.NewInt(-1)
		}
		for j := range bad {
			aL[j*w] = new(big.Int).Set(bad[j])
			if strategy == "neg-digit" && w > 1 {
				aL[j*w+w-1] = big.NewInt(-1)
				aR[j*w+w-1] = big.NewInt(-2)
				aL[j*w] = new(big.Int).Add(bad[j], new(big.Int).Lsh(one, uint(w-1)))
			}
			aR[j*w] = new(big.Int).Sub(aL[j*w], one)
		}
		commitA()
		commitS()
		yz()
		polys()
		commitT()
		xx()
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
	case "degenerate":
		id := k.g.Identity
		parts := map[string]bool{k.rng.Pick("T1T2", "T1T2", "T1", "T2", "A", "S", "AS", "s0", "L", "R", "LR", "Taux", "Mu", "ab", "abc", "c"): true}
		if k.rng.Chance(1, 3) {
			parts[k.rng.Pick("T1T2", "T1", "T2", "A", "S", "s0", "LR", "Taux", "Mu", "ab")] = true
		}
		if parts["s0"] { // the blinding vectors are zero, consistently
			for i := range sL {
				sL[i], sR[i] = new(big.Int), new(big.Int)
			}
			if k.rng.Chance(1, 2) {
				rho = new(big.Int)
			}
		}
		commitA()
		commitS()
		if parts["A"] || parts["AS"] {
			p.A = id()
		}
		if parts["S"] || parts["AS"] {
			p.S = id()
		}
		yz()
		polys()
		commitT()
		if parts["T1"] || parts["T1T2"] {
			p.T1 = id()
			t1, tau1 = new(big.Int), new(big.Int)
		}
		if parts["T2"] || parts["T1T2"] {
			p.T2 = id()
			t2, tau2 = new(big.Int), new(big.Int)
		}
		xx()
		l, r := finish()
		k.inner(p, fs, y, l, r, nil, p.That, "")
		if k.rng.Chance(1, 3) {
			p.That = tForced()
		}
		for i := range p.L {
			if parts["L"] || parts["LR"] {
				p.L[i] = id()
			}
			if parts["R"] || parts["LR"] {
				p.R[i] = id()
			}
		}
		if parts["Taux"] {
			p.Taux = new(big.Int)
		}
		if parts["Mu"] {
			p.Mu = new(big.Int)
		}
		if parts["ab"] || parts["abc"] {
			p.a, p.b = new(big.Int), new(big.Int)
		}
		if parts["abc"] || parts["c"] {
			p.Cc, p.That = new(big.Int), new(big.Int)
		}
	case "zero":
		id := k.g.Identity()
		p.A, p.S, p.T1, p.T2, p.P = id, id, id, id, id
		zero := new(big.Int)
		p.Taux, p.Mu, p.That, p.Cc, p.a, p.b = zero, zero, zero, zero, zero, zero
		for n := k.N; n > 1; n /= 2 {
			p.L = append(p.L, id)
			p.R = append(p.R, id)
		}
		p.ippGg, p.ippHh = k.Gg, k.Hh
	}
	if strings.HasPrefix(strategy, "late-") {
		q := *p
		q.draft = nil
		q.Vs, q.A, q.S, q.T1, q.T2 = d.Vs, d.A, d.S, d.T1, d.T2
		if p.dL != nil {
			n := len(p.L) - 1
			q.L, q.R = append(append([]group.Element{}, p.L[:n]...), p.dL), append(append([]group.Element{}, p.R[:n]...), p.dR)
		}
		p.draft = &q
	}
	return p
}

func (k *zvKit) red(v []*big.Int) []*big.Int {
	r := make([]*big.Int, len(v))
	for i := range v {
		r[i] = new(big.Int).Mod(v[i], k.n)
	}
	return r
}

// inner fills in the inner product proof for vectors l, r and the claimed product c.
func (k *zvKit) inner(p *zvProof, fs *zvFS, y *big.Int, l, r []*big.Int, P group.Element, c *big.Int, how string) {
	gg, hh := k.Gg, k.hp(y)
	if P == nil {
		P = k.g.Element().Add(k.vec(gg, l), k.vec(hh, r))
	}
	p.P, p.Cc = P, c
	p.ippGg, p.ippHh = gg, hh
	switch how {
	case "gens-none":
		p.ippGg, p.ippHh = []group.Element{}, []group.Element{}
		p.L, p.R = []group.Element{}, []group.Element{}
		p.a, p.b = new(big.Int), new(big.Int)
		return
	case "gens-short":
		// P = a g + b h, c = a b with a g of our choice; no rounds.
		p.a, p.b = c, big.NewInt(1)
		h := k.g.Element().Scale(k.H, k.rnd())
		g := k.g.Element().Scale(k.g.Element().Subtract(P, h), k.inv(c))
		p.ippGg, p.ippHh = []group.Element{g}, []group.Element{h}
		p.L, p.R = []group.Element{}, []group.Element{}
		return
	case "gens":
		// Rounds without u components, c = a b, and the first generator solves the equation.
		p.a, p.b = c, big.NewInt(1)
		s0 := big.NewInt(1)
		acc := k.g.Element().Set(P)
		xs := []*big.Int{}
		before := fs.ip(gg, hh, P, c)
		for n := k.N; n > 1; n /= 2 {
			L, R := k.g.Element().Scale(k.H, k.rnd()), k.g.Element().Scale(k.H, k.rnd())
			p.L, p.R = append(p.L, L), append(p.R, R)
			before = fs.round(L, R, before)
			x := new(big.Int).Mod(before, k.n)
			xs = append(xs, x)
			x2 := k.mul(x, x)
			acc = k.g.Element().Add(acc, k.g.Element().Add(k.g.Element().Scale(L, x2), k.g.Element().Scale(R, k.inv(x2))))
			s0 = k.mul(s0, k.inv(x))
		}
		gs := make([]group.Element, k.N)
		for i := range gs {
			gs[i] = k.g.Identity()
		}
		// b h' with h' = sum_i t_i hh_i
		hs := k.g.Identity()
		for i := range hh {
			t := big.NewInt(1)
			for b, half := 0, k.N/2; half >= 1; b, half = b+1, half/2 {
				if i&half != 0 {
					t = k.mul(t, k.inv(xs[b]))
				} else {
					t = k.mul(t, xs[b])
				}
			}
			hs = k.g.Element().Add(hs, k.g.Element().Scale(hh[i], t))
		}
		need := k.g.Element().Subtract(acc, hs)
		gs[0] = k.g.Element().Scale(need, k.inv(k.mul(s0, p.a)))
		p.ippGg = gs
		return
	}
	before := fs.ip(gg, hh, P, c)
	xu := new(big.Int).Mod(before, k.n)
	ux := k.g.Element().Scale(k.U, xu)
	a, b := append([]*big.Int{}, l...), append([]*big.Int{}, r...)
	acc := k.g.Element().Add(P, k.g.Element().Scale(ux, k.mod(new(big.Int).Set(c))))
	for n := len(a); n > 1; n /= 2 {
		h := n / 2
		cL, cR := k.ip(a[:h], b[h:]), k.ip(a[h:], b[:h])
		L := k.g.Element().Add(k.g.Element().Add(k.vec(gg[h:], a[:h]), k.vec(hh[:h], b[h:])), k.g.Element().Scale(ux, cL))
		R := k.g.Element().Add(k.g.Element().Add(k.vec(gg[:h], a[h:]), k.vec(hh[h:], b[:h])), k.g.Element().Scale(ux, cR))
		before = fs.round(L, R, before)
		x := new(big.Int).Mod(before, k.n)
		xi := k.inv(x)
		last := h == 1
		g2, h2 := make([]group.Element, h), make([]group.Element, h)
		a2, b2 := make([]*big.Int, h), make([]*big.Int, h)
		for i := 0; i < h; i++ {
			g2[i] = k.g.Element().Add(k.g.Element().Scale(gg[i], xi), k.g.Element().Scale(gg[h+i], x))
			h2[i] = k.g.Element().Add(k.g.Element().Scale(hh[i], x), k.g.Element().Scale(hh[h+i], xi))
			a2[i] = k.add(k.mul(a[i], x), k.mul(a[h+i], xi))
			b2[i] = k.add(k.mul(b[i], xi), k.mul(b[h+i], x))
		}
		x2 := k.mul(x, x)
		if last && (how == "late-L" || how == "late-R") {
			p.dL, p.dR = L, R
			target := k.g.Element().Add(k.g.Element().Scale(g2[0], a2[0]), k.g.Element().Scale(h2[0], b2[0]))
			target = k.g.Element().Add(target, k.g.Element().Scale(ux, k.mul(a2[0], b2[0])))
			target = k.g.Element().Subtract(target, acc)
			if how == "late-L" {
				target = k.g.Element().Subtract(target, k.g.Element().Scale(R, k.inv(x2)))
				L = k.g.Element().Scale(target, k.inv(x2))
			} else {
				target = k.g.Element().Subtract(target, k.g.Element().Scale(L, x2))
				R = k.g.Element().Scale(target, x2)
			}
		}
		acc = k.g.Element().Add(acc, k.g.Element().Add(k.g.Element().Scale(L, x2), k.g.Element().Scale(R, k.inv(x2))))
		p.L, p.R = append(p.L, L), append(p.R, R)
		gg, hh, a, b = g2, h2, a2, b2
	}
	p.a, p.b = a[0], b[0]
	if how == "ab-zero" {
		p.a, p.b = new(big.Int), new(big.Int)
	}
}

// ---- learning the challenges -----------------------------------------------------------

var zvLearned *zvFS

func zvLearn() *zvFS {
	if zvLearned != nil {
		return zvLearned
	}
	f := zvTryLearn(1)
	f.multi = zvTryLearn(4)
	zvQuiet(func() { zvLearnSigma(f) })
	zvLearned = f
	return f
}

// A prover whose messages cannot even be read teaches nothing.
func zvTryLearn(m int) *zvFS {
	f := &zvFS{single: m == 1}
	zvQuiet(func() { f = zvLearnRange(m) })
	return f
}

func zvQuiet(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

func zvLearnRange(m int) *zvFS {
	f := &zvFS{single: m == 1}
	g := zvGroup("tg")
	var par bulletproofs.BulletProofSetupParams
	var Vs []group.Element
	var A, S, T1, T2 group.Element
	var mu, taux, that *big.Int
	var ipp bulletproofs.InnerProductProof
	if !zvQuiet(func() {

		par, _ = bulletproofs.Setup(16, g)
		if m == 1 {
			p, _, err := bulletproofs.Prove(big.NewInt(5), par)
			if err != nil {
				panic(err)
			}
			Vs, A, S, T1, T2, mu, taux, that, ipp = []group.Element{p.V}, p.A, p.S, p.T1, p.T2, p.Mu, p.Taux, p.Tprime, p.InnerProductProof
		} else {
			p, _, err := bulletproofs.MultiProve([]*big.Int{big.NewInt(1), big.NewInt(0), big.NewInt(1), big.NewInt(1)}, par)
			if err != nil {
				panic(err)
			}
			Vs, A, S, T1, T2, mu, taux, that, ipp = p.Vs, p.A, p.S, p.T1, p.T2, p.Mu, p.Taux, p.Tprime, p.InnerProductProof
		}
	}) {
		return f
	}
	u, _ := g.Element().MapToGroup(bulletproofs.SEEDU)
	k := &zvKit{g: g, n: g.N(), N: int(par.N), m: m, H: par.H, Gg: par.Gg, Hh: par.Hh, par: par, U: u, rng: zvNewRNG(5)}
	var y, z *big.Int
	check := func(c *zvFS) bool {
		x := k.mod(c.xc(Vs, A, S, T1, T2))
		ym, zm := new(big.Int).Mod(y, k.n), new(big.Int).Mod(z, k.n)
		// (65)
		lhs := k.ped(that, taux)
		rhs := g.Element().BaseScale(k.delta(ym, zm))
		zp := k.pow(zm, m+2)
		for j := range Vs {
			rhs.Add(rhs, g.Element().Scale(Vs[j], zp[2+j]))
		}
		rhs.Add(rhs, g.Element().Scale(T1, x))
		rhs.Add(rhs, g.Element().Scale(T2, k.mul(x, x)))
		if !lhs.IsEqual(rhs) {
			return false
		}
		// (67)
		l := g.Element().Add(A, g.Element().Scale(S, x))
		yp := k.pow(ym, k.N)
		q := k.zz2(zm)
		hp := k.hp(ym)
		for i := 0; i < k.N; i++ {
			l.Add(l, g.Element().Scale(k.Gg[i], k.sub(new(big.Int), zm)))
			l.Add(l, g.Element().Scale(hp[i], k.add(k.mul(zm, yp[i]), q[i])))
		}
		r := g.Element().Add(ipp.P, g.Element().Scale(k.H, mu))
		return l.IsEqual(r)
	}
	// x follows from mu = alpha + rho x
	ri := new(big.Int).ModInverse(zvCoef(S, par.H), k.n)
	if ri == nil {
		return f
	}
	xv := k.mul(k.sub(mu, zvCoef(A, par.H)), ri)
	full := []int{0, 1, 2, 3, 4}
	syms := []int{0, 1, 2, 3, 4}
	if m > 1 {
		syms = append(syms, 5, 6, 7, 8)
	}
	for _, q := range zvVariants(full, syms, 5) {
		c := &zvFS{x: q}
		if k.mod(c.xc(Vs, A, S, T1, T2)).Cmp(xv) == 0 {
			f.x = q
			break
		}
	}
	for n := 1; n < 32 && f.x == nil; n++ {
		for _, cut := range []int{n, -n} {
			c := &zvFS{x: full, cut: cut}
			if k.mod(c.xc(Vs, A, S, T1, T2)).Cmp(xv) == 0 {
				f.x, f.cut = full, cut
				break
			}
		}
	}
	found := false
	syms = []int{0, 1, 2}
	if m > 1 {
		syms = append(syms, 5, 6, 7, 8)
	}
search:
	for _, q := range zvVariants([]int{0, 1, 2}, syms, 3) {
		if f.x == nil {
			break
		}
		for v := 0; v < 3; v++ {
			c := &zvFS{single: m == 1, y: q, z: q, x: f.x, cut: f.cut, zIsY: v == 1}
			if v == 2 {
				c.z = nil
			}
			y, z = c.yz(Vs, A, S)
			if check(c) {
				*f = *c
				found = true
				break search
			}
		}
	}
	if !found {
		*f = zvFS{single: m == 1, puppet: true, cut: f.cut}
		k.fs = f
		if !zvQuiet(func() {
			y, z, _ = k.read(zvPupRun{mu: mu, P: ipp.P}, A, S)
			// the oracle has to agree with the proof
			py, pz, px := k.ask(Vs, A, S, T1, T2)
			if py.Cmp(y) != 0 || pz.Cmp(z) != 0 || px.Cmp(xv) != 0 {
				panic("no puppet")
			}
		}) {
			return &zvFS{}
		}
	}
	// the inner product challenges
	yv := new(big.Int).Mod(y, k.n)
	k.fs = f
	zvQuiet(func() {
		for seed := uint64(1); seed < 20; seed++ {
			t := zvTwo(g, seed)
			yi := t.k.hp(t.y)
			if f.ipS == nil {
				for _, q := range zvVariants([]int{0, 1, 2}, []int{0, 1, 2, 3, 4}, 3) {
					c := &zvFS{ipS: q, cut: f.cut}
					v := c.ip(t.k.Gg, yi, t.ipp.P, t.ipp.Cc)
					c.ipSigned = true
					w := c.ip(t.k.Gg, yi, t.ipp.P, t.ipp.Cc)
					if k.mod(v).Cmp(t.xu) == 0 || k.mod(w).Cmp(t.xu) == 0 {
						f.ipS = q
						break
					}
				}
				if f.ipS == nil {
					return
				}
			}
			// signed or not shows in half of all proofs
			c := *f
			c.ipSigned = false
			v := c.ip(t.k.Gg, yi, t.ipp.P, t.ipp.Cc)
			c.ipSigned = true
			w := c.ip(t.k.Gg, yi, t.ipp.P, t.ipp.Cc)
			if f.rS == nil && !f.rPup {
				for _, q := range zvVariants([]int{0, 1}, []int{0, 1, 2}, 3) {
					d := &zvFS{rS: q, cut: f.cut}
					if k.mod(d.round(t.ipp.L[0], t.ipp.R[0], v)).Cmp(t.x) == 0 || k.mod(d.round(t.ipp.L[0], t.ipp.R[0], w)).Cmp(t.x) == 0 {
						f.rS = q
						break
					}
				}
				f.rPup = f.rS == nil
			}
			if v.Cmp(w) != 0 {
				f.ipSigned = k.mod(w).Cmp(t.xu) == 0
				break
			}
		}
		f.ok = k.checkInner(f, yv, &ipp)
	})
	return f
}

func (k *zvKit) checkInner(fs *zvFS, y *big.Int, p *bulletproofs.InnerProductProof) bool {
	gg, hh := k.Gg, k.hp(y)
	before := fs.ip(gg, hh, p.P, p.Cc)
	ux := k.g.Element().Scale(k.U, new(big.Int).Mod(before, k.n))
	acc := k.g.Element().Add(p.P, k.g.Element().Scale(ux, p.Cc))
	n := len(gg)
	for i := range p.L {
		if n < 2 || i >= len(p.R) {
			return false
		}
		h := n / 2
		before = fs.round(p.L[i], p.R[i], before)
		x := new(big.Int).Mod(before, k.n)
		xi := k.inv(x)
		g2, h2 := make([]group.Element, h), make([]group.Element, h)
		for j := 0; j < h; j++ {
			g2[j] = k.g.Element().Add(k.g.Element().Scale(gg[j], xi), k.g.Element().Scale(gg[h+j], x))
			h2[j] = k.g.Element().Add(k.g.Element().Scale(hh[j], x), k.g.Element().Scale(hh[h+j], xi))
		}
		x2 := k.mul(x, x)
		acc = k.g.Element().Add(acc, k.g.Element().Add(k.g.Element().Scale(p.L[i], x2), k.g.Element().Scale(p.R[i], k.inv(x2))))
		gg, hh, n = g2, h2, h
	}
	if n != 1 {
		return false
	}
	t := k.g.Element().Add(k.g.Element().Scale(gg[0], p.A), k.g.Element().Scale(hh[0], p.B))
	t = k.g.Element().Add(t, k.g.Element().Scale(ux, k.mul(p.A, p.B)))
	return t.IsEqual(acc)
}

// zvSubsets lists the bit masks over n items, larger sets first.
func zvSubsets(n int) []uint {
	var r []uint
	for c := n; c >= 0; c-- {
		for m := uint(0); m < 1<<uint(n); m++ {
			b := 0
			for i := 0; i < n; i++ {
				if m&(1<<uint(i)) != 0 {
					b++
				}
			}
			if b == c {
				r = append(r, m)
			}
		}
	}
	return r
}

// ---- the cross-group proof -------------------------------------------------------------

// zvVariants lists the sequences a challenge may be made from: the parts of the full sequence,
// larger ones first, then all within two edits of it (an item left out, replaced or swapped with
// its neighbour), then all short ones.
func zvVariants(full, syms []int, short int) [][]int {
	var out [][]int
	seen := map[string]bool{}
	add := func(q []int) {
		if k := fmt.Sprint(q); !seen[k] {
			seen[k] = true
			out = append(out, append([]int{}, q...))
		}
	}
	for _, m := range zvSubsets(len(full)) {
		var q []int
		for i, v := range full {
			if m&(1<<uint(i)) != 0 {
				q = append(q, v)
			}
		}
		add(q)
	}
	level := [][]int{full}
	for d := 0; d < 2; d++ {
		var next [][]int
		for _, q := range level {
			for i := range q {
				next = append(next, append(append([]int{}, q[:i]...), q[i+1:]...))
				for _, v := range syms {
					r := append([]int{}, q...)
					r[i] = v
					next = append(next, r, append(append(append([]int{}, q[:i]...), v), q[i:]...))
				}
				if i > 0 {
					r := append([]int{}, q...)
					r[i], r[i-1] = r[i-1], r[i]
					next = append(next, r)
				}
			}
		}
		for _, q := range next {
			add(q)
		}
		level = next
	}
	if short > 4 && len(syms) > 5 {
		short = 4
	}
	level = [][]int{nil}
	for d := 0; d < short; d++ {
		var next [][]int
		for _, q := range level {
			for _, v := range syms {
				r := append(append([]int{}, q...), v)
				next = append(next, r)
				add(r)
			}
		}
		level = next
	}
	return out
}

var zvSigmaFull = []int{0, 1, 2, 3, 4, 5, 6, 7}

func zvSigmaHash(seq []int, c voteproof.VerCommitments, w, kp, kq1, kq2 group.Element, bc uint16) *big.Int {
	h := sha256.New()
	es := []group.Element{c.Y, c.Xp, c.Xq1, c.Xq2, w, kp, kq1, kq2}
	for _, i := range seq {
		h.Write([]byte(es[i].String()))
	}
	sum := h.Sum(nil)
	if f := zvLearned; f != nil && f.sigmaL[0] != 0 {
		n := f.sigmaL[0]
		if f.sigmaL[1] != n {
			n = f.sigmaL[0] * int(bc) / 128
		}
		return new(big.Int).SetBytes(zvCut(sum, n))
	}
	return new(big.Int).SetBytes(sum[:bc/8])
}

func zvLearnSigma(f *zvFS) {
	zvLearnSigmaAt(f, 128)
	f.sigmaPup = !f.sigmaOK
	if f.sigmaL[0] != 0 {
		zvLearnSigmaAt(f, 256)
		f.sigmaOK = f.sigmaL[1] != 0
	}
}

func zvLearnSigmaAt(f *zvFS, bc uint16) {
	zvQuiet(func() {
		cfg := zvCfg{EC: "tg", FF: "tf384", Lo: 1, Hi: 9, Bc: int(bc), N: 4}
		pp, err := zvMakePP(cfg)
		if err != nil {
			return
		}
		rp, r1, r2 := big.NewInt(1234567), big.NewInt(7654321), big.NewInt(1122334455)
		x := big.NewInt(5)
		p := voteproof.Prove(x, rp, r1, r2, pp.RPParams)
		c := voteproof.VerCommitments{
			Y:   pp.FFGroupParams.I.Element().BaseScale(rp),
			Xp:  zvPed(x, rp, pp.RPParams.GFF),
			Xq1: zvPed(x, r1, pp.RPParams.GEC),
			Xq2: zvPed(x, r2, pp.RPParams.GEC),
		}
		for _, m := range zvVariants(zvSigmaFull, zvSigmaFull, 0) {
			if zvSigmaHash(m, c, p.W, p.Kp, p.Kq1, p.Kq2, pp.RPParams.Bc).Cmp(p.Challenge) == 0 {
				f.sigma, f.sigmaOK = m, true
				if bc == 256 {
					f.sigmaL[1] = 32
				}
				return
			}
		}
		// a shorter challenge than asked for
		for n := 1; n < 32; n++ {
			for _, cut := range []int{n, -n} {
				h := zvSigmaHash(zvSigmaFull, c, p.W, p.Kp, p.Kq1, p.Kq2, 256)
				if new(big.Int).SetBytes(zvCut(h.FillBytes(make([]byte, 32)), cut)).Cmp(p.Challenge) == 0 {
					f.sigma, f.sigmaOK = zvSigmaFull, true
					f.sigmaL[bc/128-1] = cut
					return
				}
			}
		}
	})
}

func zvPed(m, r *big.Int, gp voteproof.GroupParameters) group.Element {
	n := gp.I.N()
	return gp.I.Element().Add(gp.I.Element().BaseScale(new(big.Int).Mod(m, n)), gp.I.Element().Scale(gp.H, new(big.Int).Mod(r, n)))
}

// zvStatement is a statement with its openings. In a true one xp = x1 = x2 and ry = rp.
type zvStatement struct {
	xp, x1, x2     *big.Int
	ry, rp, r1, r2 *big.Int
}

func (s zvStatement) comm(par *voteproof.ProofParams) voteproof.VerCommitments {
	return voteproof.VerCommitments{
		Y:   par.GFF.I.Element().BaseScale(s.ry),
		Xp:  zvPed(s.xp, s.rp, par.GFF),
		Xq1: zvPed(s.x1, s.r1, par.GEC),
		Xq2: zvPed(s.x2, s.r2, par.GEC),
	}
}

var zvSigmaStrategies = []string{
	"use-x",      // answer for the secret of one component; violates the equations of the others
	"use-r",      // the secrets are equal, the first component has another randomness
	"guess",      // a short challenge is guessed
	"near",       // as guess, but only some bits of the challenge agree
	"simulate",   // choose challenge and responses, compute the commitments
	"simulate-0", // the same with challenge 0
	"late-W", "late-Kp", "late-Kq1", "late-Kq2",
	"late-Y", "late-Xp", "late-Xq1", "late-Xq2",
	"crt",      // one huge z that satisfies both groups with different secrets
	"wrap-q",   // one large secret that is small modulo the order of the curve
	"neg-z",    // z shifted below zero by a multiple of both orders
	"params-0", // own parameters: no challenge, unlimited z
	"params-h", // own parameters: generators with known logarithms
	"identity",
	"degenerate",                            // one equation has identities or zeros, the rest holds
	"sign-W", "sign-1", "sign-2", "sign-12", // an equation holds up to the sign
}

type zvSigmaMessage struct {
	p voteproof.SigmaProof
	c voteproof.VerCommitments
}

// zvSigmaDraft: the messages the last challenge was made for.
var zvSigmaDraft *zvSigmaMessage

// zvForgeSigma makes a proof for the (false) statement st; it may change the statement for the
// late-* strategies, and returns the statement commitments to use.
func zvForgeSigma(strategy string, st *zvStatement, par voteproof.ProofParams, rng *zvRNG) (voteproof.SigmaProof, voteproof.VerCommitments, bool) {
	fs := zvLearn()
	zvSigmaDraft = nil
	if fs.sigmaPup {
		_, a := par.GFF.I.(*zvTG)
		if _, b := par.GEC.I.(*zvTG); !a || !b {
			fs = &zvFS{}
		}
	}
	mask := zvSigmaFull
	if fs.sigmaOK {
		mask = fs.sigma
	}
	np, nq := par.GFF.I.N(), par.GEC.I.N()
	bxbc := uint(par.Bx) + uint(par.Bc)
	lo := new(big.Int).Lsh(big.NewInt(1), bxbc)
	hi := new(big.Int).Lsh(big.NewInt(1), bxbc+uint(par.Bb))
	rk := func() *big.Int { // well inside the range
		d := new(big.Int).Sub(hi, lo)
		k := rng.Big(new(big.Int).Rsh(d, 1))
		return k.Add(k, lo)
	}
	comm := st.comm(&par)
	var p voteproof.SigmaProof
	p.Params = par
	ff, ec := par.GFF.I, par.GEC.I
	k := rk()
	tp, t1, t2 := rng.BigNZ(np), rng.BigNZ(nq), rng.BigNZ(nq)
	p.W = ff.Element().BaseScale(tp)
	p.Kp, p.Kq1, p.Kq2 = zvPed(k, tp, par.GFF), zvPed(k, t1, par.GEC), zvPed(k, t2, par.GEC)
	modadd := func(t, c, r, n *big.Int) *big.Int {
		v := new(big.Int).Mul(c, r)
		return v.Mod(v.Add(v, t), n)
	}
	back := func(z, s, c *big.Int, X group.Element, gp voteproof.GroupParameters) group.Element {
		K := zvPed(z, s, gp)
		return gp.I.Element().Subtract(K, gp.I.Element().Scale(X, c))
	}
	hash := func() *big.Int {
		zvSigmaDraft = &zvSigmaMessage{p, comm}
		if fs.sigmaPup {
			return zvAskSigma(comm, p.W, p.Kp, p.Kq1, p.Kq2, par)
		}
		return zvSigmaHash(mask, comm, p.W, p.Kp, p.Kq1, p.Kq2, par.Bc)
	}
	respond := func(c *big.Int, x *big.Int) {
		p.Challenge = c
		p.Z = new(big.Int).Add(k, new(big.Int).Mul(c, x))
		p.Sp = modadd(tp, c, st.rp, np)
		p.Sq1 = modadd(t1, c, st.r1, nq)
		p.Sq2 = modadd(t2, c, st.r2, nq)
	}
	small := func(x *big.Int) bool { return x.Sign() >= 0 && x.BitLen() <= int(par.Bx) }
	xs := []*big.Int{st.xp, st.x1, st.x2}
	x := xs[rng.Intn(3)]
	for i := 0; i < 3 && !small(x); i++ {
		x = xs[i]
	}
	if !small(x) {
		x = big.NewInt(1)
	}
	switch strategy {
	case "use-x":
		respond(hash(), x)
	case "use-r":
		st.x1, st.x2 = st.xp, st.xp
		if !small(st.xp) {
			st.xp, st.x1, st.x2 = x, x, x
		}
		if st.ry.Cmp(st.rp) == 0 {
			st.ry = rng.BigNZ(np)
		}
		comm = st.comm(&par)
		respond(hash(), st.xp)
	case "guess":
		tries := 0
		switch n := hash().BitLen(); {
		case n <= 8:
			tries = 2000
		case n <= 16 && ec.Name()[0] == 't' && ff.P().BitLen() <= 264:
			tries = 400000
		default:
			return p, comm, false
		}
		c := hash()
		for ; tries > 0; tries-- {
			p.Challenge, p.Z = c, rk()
			p.Sp, p.Sq1, p.Sq2 = rng.Big(np), rng.Big(nq), rng.Big(nq)
			p.W = ff.Element().Subtract(ff.Element().BaseScale(p.Sp), ff.Element().Scale(comm.Y, c))
			p.Kp = back(p.Z, p.Sp, c, comm.Xp, par.GFF)
			p.Kq1 = back(p.Z, p.Sq1, c, comm.Xq1, par.GEC)
			p.Kq2 = back(p.Z, p.Sq2, c, comm.Xq2, par.GEC)
			if hash().Cmp(c) == 0 {
				break
			}
		}
		if tries == 0 {
			return p, comm, false
		}
	case "near":
		// The first, last or middle bytes of the challenge agree with the hash.
		bytes, tries := 1, 2500
		if _, ok := ec.(*zvTG); ok && !fs.sigmaPup && rng.Chance(1, 20) {
			bytes, tries = 2, 500000
		}
		where := rng.Intn(3)
		part := func(c *big.Int) int64 {
			b := c.FillBytes(make([]byte, 40))
			b = b[len(b)-int(par.Bc)/8:]
			i := []int{0, len(b) - bytes, len(b) / 2}[where]
			if bytes == 1 {
				return int64(b[i])
			}
			return int64(b[i])<<8 | int64(b[i+1])
		}
		if par.Bc < 32 {
			return p, comm, false
		}
		c := hash() // (of the right length)
		c = new(big.Int).Xor(c, rng.BigNZ(new(big.Int).Lsh(big.NewInt(1), uint(c.BitLen()-1))))
		p.Challenge, p.Z = c, rk()
		p.Sp, p.Sq1, p.Sq2 = rng.Big(np), rng.Big(nq), rng.Big(nq)
		p.W = ff.Element().Subtract(ff.Element().BaseScale(p.Sp), ff.Element().Scale(comm.Y, c))
		p.Kp = back(p.Z, p.Sp, c, comm.Xp, par.GFF)
		p.Kq1 = back(p.Z, p.Sq1, c, comm.Xq1, par.GEC)
		p.Kq2 = back(p.Z, p.Sq2, c, comm.Xq2, par.GEC)
		for ; part(hash()) != part(c); tries-- {
			if tries == 0 {
				return p, comm, false
			}
			p.Kq2 = ec.Element().Add(p.Kq2, par.GEC.H)
			p.Sq2.Add(p.Sq2, big.NewInt(1))
		}
		p.Sq2.Mod(p.Sq2, nq)
	case "simulate", "simulate-0":
		c := rng.Big(new(big.Int).Lsh(big.NewInt(1), uint(par.Bc)))
		if strategy == "simulate-0" {
			c = new(big.Int)
		}
		p.Challenge, p.Z = c, rk()
		p.Sp, p.Sq1, p.Sq2 = rng.Big(np), rng.Big(nq), rng.Big(nq)
		p.W = ff.Element().Subtract(ff.Element().BaseScale(p.Sp), ff.Element().Scale(comm.Y, c))
		p.Kp = back(p.Z, p.Sp, c, comm.Xp, par.GFF)
		p.Kq1 = back(p.Z, p.Sq1, c, comm.Xq1, par.GEC)
		p.Kq2 = back(p.Z, p.Sq2, c, comm.Xq2, par.GEC)
	case "late-W", "late-Kp", "late-Kq1", "late-Kq2":
		// The statement is false only in the late component's equation.
		switch strategy {
		case "late-W":
			st.xp, st.x2 = st.x1, st.x1
		case "late-Kp":
			st.ry, st.x2 = st.rp, st.x1
		case "late-Kq1":
			st.ry, st.x2 = st.rp, st.xp
		case "late-Kq2":
			st.ry, st.x1 = st.rp, st.xp
		}
		comm = st.comm(&par)
		x = map[string]*big.Int{"late-W": st.xp, "late-Kp": st.x1, "late-Kq1": st.xp, "late-Kq2": st.xp}[strategy]
		if !small(x) {
			return p, comm, false
		}
		c := hash()
		respond(c, x)
		switch strategy {
		case "late-W":
			p.W = ff.Element().Subtract(ff.Element().BaseScale(p.Sp), ff.Element().Scale(comm.Y, c))
		case "late-Kp":
			p.Kp = back(p.Z, p.Sp, c, comm.Xp, par.GFF)
		case "late-Kq1":
			p.Kq1 = back(p.Z, p.Sq1, c, comm.Xq1, par.GEC)
		case "late-Kq2":
			p.Kq2 = back(p.Z, p.Sq2, c, comm.Xq2, par.GEC)
		}
	case "late-Y", "late-Xp", "late-Xq1", "late-Xq2":
		st.x1 = st.xp
		st.x2 = st.xp
		st.ry = st.rp
		if !small(st.xp) {
			st.xp, st.x1, st.x2 = big.NewInt(3), big.NewInt(3), big.NewInt(3)
		}
		comm = st.comm(&par)
		e := rng.BigNZ(nq)
		switch strategy { // the commitment is off by e
		case "late-Y":
			p.W = ff.Element().Add(p.W, ff.Element().BaseScale(e))
		case "late-Xp":
			p.Kp = ff.Element().Add(p.Kp, ff.Element().BaseScale(e))
		case "late-Xq1":
			p.Kq1 = ec.Element().Add(p.Kq1, ec.Element().BaseScale(e))
		case "late-Xq2":
			p.Kq2 = ec.Element().Add(p.Kq2, ec.Element().BaseScale(e))
		}
		c := hash()
		respond(c, st.xp)
		ci := func(n *big.Int) *big.Int { // e / c
			i := new(big.Int).ModInverse(new(big.Int).Mod(c, n), n)
			if i == nil {
				return nil
			}
			return i.Mod(i.Mul(i, e), n)
		}
		d := ci(np)
		if strategy == "late-Xq1" || strategy == "late-Xq2" {
			d = ci(nq)
		}
		if d == nil {
			return p, comm, false
		}
		switch strategy {
		case "late-Y":
			st.ry = new(big.Int).Mod(new(big.Int).Sub(st.ry, d), np)
		case "late-Xp":
			st.xp = new(big.Int).Mod(new(big.Int).Sub(st.xp, d), np)
		case "late-Xq1":
			st.x1 = new(big.Int).Mod(new(big.Int).Sub(st.x1, d), nq)
		case "late-Xq2":
			st.x2 = new(big.Int).Mod(new(big.Int).Sub(st.x2, d), nq)
		}
		comm = st.comm(&par)
	case "crt", "neg-z":
		if np.Cmp(nq) == 0 {
			return p, comm, false
		}
		st.x2, st.ry = st.x1, st.rp
		comm = st.comm(&par)
		c := hash()
		respond(c, st.x1)
		// z = z1 mod nq and zp mod np
		zq := new(big.Int).Mod(p.Z, nq)
		zp := new(big.Int).Mod(new(big.Int).Add(k, new(big.Int).Mul(c, st.xp)), np)
		inv := new(big.Int).ModInverse(nq, np)
		if inv == nil {
			return p, comm, false
		}
		t := new(big.Int).Sub(zp, zq)
		t.Mod(t.Mul(t, inv), np)
		p.Z = new(big.Int).Add(zq, new(big.Int).Mul(t, nq))
		if strategy == "neg-z" {
			p.Z.Sub(p.Z, new(big.Int).Mul(np, nq))
		}
	case "wrap-q":
		// x1 + t nq opens the curve commitments like x1 does, and the other one to something else.
		if np.Cmp(nq) <= 0 {
			return p, comm, false
		}
		st.x2, st.ry = st.x1, st.rp
		x = new(big.Int).Mul(nq, big.NewInt(int64(rng.PickInt(1, 1, 2, 3, -1))))
		x.Add(x, st.x1)
		st.xp = new(big.Int).Mod(x, np)
		comm = st.comm(&par)
		room := new(big.Int).Mul(new(big.Int).Abs(x), new(big.Int).Lsh(big.NewInt(1), uint(par.Bc)))
		if top := new(big.Int).Sub(hi, room); top.Cmp(lo) > 0 {
			k = rng.Big(top)
		} else {
			k = new(big.Int).Set(lo)
		}
		if x.Sign() < 0 {
			k.Add(k, room)
		}
		p.Kp, p.Kq1, p.Kq2 = zvPed(k, tp, par.GFF), zvPed(k, t1, par.GEC), zvPed(k, t2, par.GEC)
		respond(hash(), x)
	case "params-0":
		q := par
		q.Bc, q.Bx = 0, 0
		q.Bb = 30000
		p.Params = q
		p.Challenge, p.Z = new(big.Int), rk()
		p.Sp, p.Sq1, p.Sq2 = rng.Big(np), rng.Big(nq), rng.Big(nq)
		p.W = ff.Element().BaseScale(p.Sp)
		p.Kp, p.Kq1, p.Kq2 = zvPed(p.Z, p.Sp, par.GFF), zvPed(p.Z, p.Sq1, par.GEC), zvPed(p.Z, p.Sq2, par.GEC)
	case "params-h":
		// H = d G with a known d: open every commitment to x.
		q := par
		d := big.NewInt(7)
		q.GFF.H, q.GEC.H = ff.Element().BaseScale(d), ec.Element().BaseScale(d)
		p.Params = q
		p.Kp, p.Kq1, p.Kq2 = zvPed(k, tp, q.GFF), zvPed(k, t1, q.GEC), zvPed(k, t2, q.GEC)
		respond(hash(), x)
	case "sign-W", "sign-1", "sign-2", "sign-12":
		// the negated components are true for -x (or -r)
		neg := func(v, n *big.Int) *big.Int { v = new(big.Int).Neg(v); return v.Mod(v, n) }
		var flip [3]bool // W, 1, 2
		x = st.xp
		switch strategy {
		case "sign-W":
			st.x1, st.x2 = x, x
			st.ry = neg(st.rp, np)
			flip[0] = true
		case "sign-1":
			st.x1, st.x2, st.ry = neg(x, nq), x, st.rp
			flip[1] = true
		case "sign-2":
			st.x1, st.x2, st.ry = x, neg(x, nq), st.rp
			flip[2] = true
		default: // the ciphertext is off, with a negative secret
			x = new(big.Int).Neg(st.x1)
			st.x2, st.ry, st.xp = st.x1, st.rp, new(big.Int).Mod(x, np)
			flip[1], flip[2] = true, true
			if par.Bb > 1 {
				k = rng.Big(new(big.Int).Sub(hi, new(big.Int).Lsh(lo, 1)))
				k.Add(k, new(big.Int).Lsh(lo, 1))
			} else {
				k.Sub(hi, big.NewInt(1))
			}
			p.Kp, p.Kq1, p.Kq2 = zvPed(k, tp, par.GFF), zvPed(k, t1, par.GEC), zvPed(k, t2, par.GEC)
		}
		comm = st.comm(&par)
		if flip[0] {
			p.W.Negate(p.W)
		}
		if flip[1] {
			p.Kq1.Negate(p.Kq1)
		}
		if flip[2] {
			p.Kq2.Negate(p.Kq2)
		}
		respond(hash(), x)
		if flip[1] {
			p.Sq1 = modadd(t1, p.Challenge, neg(st.r1, nq), nq)
		}
		if flip[2] {
			p.Sq2 = modadd(t2, p.Challenge, neg(st.r2, nq), nq)
		}
	case "degenerate":
		// The equation that cannot hold gets the degenerate values.
		at := 0
		switch eq := func(a, b *big.Int) bool { return a.Cmp(b) == 0 }; {
		case eq(st.x1, st.x2):
			x = st.x1
			if eq(st.xp, st.x1) {
				at = 3
			}
		case eq(st.xp, st.x2):
			x, at = st.x2, 1
		default:
			x, at = st.x1, 2
		}
		how := rng.Intn(4)
		zero := new(big.Int)
		rp := st.rp
		if how >= 2 { // the statement itself is the identity
			switch at {
			case 0:
				st.xp, st.rp = zero, zero
			case 1:
				st.x1, st.r1 = zero, zero
			case 2:
				st.x2, st.r2 = zero, zero
			case 3:
				st.ry = zero
			}
			comm = st.comm(&par)
		}
		if how != 3 {
			switch at {
			case 0:
				p.Kp = ff.Identity()
			case 1:
				p.Kq1 = ec.Identity()
			case 2:
				p.Kq2 = ec.Identity()
			case 3:
				p.W = ff.Identity()
			}
		}
		respond(hash(), x)
		p.Sp = modadd(tp, p.Challenge, st.ry, np)
		if at == 3 {
			p.Sp = modadd(tp, p.Challenge, rp, np)
		}
		if how == 1 {
			switch at {
			case 0:
				p.Sp = zero
			case 1:
				p.Sq1 = zero
			case 2:
				p.Sq2 = zero
			case 3:
				p.Sp = zero
			}
		}
	case "identity":
		p.W, p.Kp, p.Kq1, p.Kq2 = ff.Identity(), ff.Identity(), ec.Identity(), ec.Identity()
		p.Challenge, p.Z = new(big.Int), new(big.Int).Set(lo)
		p.Sp, p.Sq1, p.Sq2 = new(big.Int), new(big.Int), new(big.Int)
	default:
		panic(fmt.Sprint("no strategy ", strategy))
	}
	if d := zvSigmaDraft; d != nil {
		d.p.SigmaChallenge, d.p.SigmaResponse = p.SigmaChallenge, p.SigmaResponse
		if !strings.HasPrefix(strategy, "late-") {
			zvSigmaDraft = nil
		}
	}
	return p, comm, true
}

// holds: is the statement true?
func (s zvStatement) holds(np, nq *big.Int) bool {
	m := func(x, n *big.Int) *big.Int { return new(big.Int).Mod(x, n) }
	if m(s.ry, np).Cmp(m(s.rp, np)) != 0 || m(s.x1, nq).Cmp(m(s.x2, nq)) != 0 {
		return false
	}
	// the secret is small, so equality is equality of residues in both groups
	return m(s.xp, np).Cmp(m(s.x1, nq)) == 0
}
