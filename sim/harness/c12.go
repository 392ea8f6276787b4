//go:build go1.22

package main

// C12: the wire encoding is lossless for every group element and ballot.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C12", gen: zvGenC12, exec: zvExecC12, quick: 4000, deep: 400000,
		rule:   "one evaluation is one element, proof or ballot that was encoded, carried to another party and decoded there, or one damaged encoding given to a decoder; distinct cases differ in group, codec, class of element, state of the receiver, and kind of damage",
		reals:  []string{"MarshalJSON, UnmarshalJSON, MarshalBinary, UnmarshalBinary, SetBytes of all groups; BallotDataUnmarshalJSON, BulletProofUnmarshalJSON, ProofUnmarshalJSON; castVote, Prove"},
		stubs:  []string{"network that damages encodings", "membership is judged by own arithmetic", "entropy, scheduling (simulated)"},
		assume: []string{"elements are made from known scalars, among them ones whose coordinates have one to three leading zero bytes", "SetBytes is only given undamaged encodings: it has no way to report an error"},
	})
}

// Scalars whose multiples of the generator have coordinates with leading (or, for ristretto255,
// also trailing) zero bytes.
var zvZeroScalars = map[string][]int64{
	"p256": {43, 7772, 444, 7528, 7944, 379, 7747, 552, 2376, 61552, 77299, 120189, 40393, 116173, 209780, 302630, 49350, 112756, 120908, 124396, 1476301, 7280631},
	"k256": {122, 8068, 130, 8035, 153, 8012, 246, 7936, 41192, 394851, 396508, 502058, 44629, 58165, 63439, 68831, 55959, 62762, 166259, 297252, 8169169, 8673773},
	"p384": {8133, 197, 234, 7939, 176, 7938, 7887, 7863, 6394, 10184, 64159, 108595, 14971, 40603, 64109, 142047, 93150, 119438, 229562, 279702, 17471827, 36728291},
	"r255": {248, 369, 420, 115468, 122355, 136479, 68, 322, 416, 14431, 48997, 105483, 478019},
}

var zvC12Groups = []string{"p256", "r255", "k256", "p384", "m256", "m264", "m200", "m512", "m3072", "p256", "k256", "p384", "r255", "m257"}

func zvGenC12(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	p.Quantum, p.Budget = r.PickInt(0, 3, 20, 200), r.PickInt(20, 200)
	if idx%8 == 0 {
		p.Cfg = zvElection(r, zvCurves, 3)
		p.Cfg.Str = "ballots"
		p.Cfg.Nodes = 2 + r.Intn(2)
		p.Quantum = r.PickInt(0, 300, 3000)
		c := &p.Cfg
		n := 1 + r.Intn(2)
		for i := 0; i < n; i++ {
			st := zvStep{K: "cast", At: int64(r.Intn(2000)), Node: r.Intn(c.Nodes), S: r.Sub(), A: int64(c.Lo + r.Intn(c.Hi-c.Lo+1))}
			if r.Chance(1, 3) {
				st.A = -1
			}
			if r.Chance(1, 3) {
				st.Faults = []zvFault{{At: r.Intn(30), Kind: r.Pick("zeros", "ones", "lead", "low"), Count: r.PickInt(1, 3)}}
			}
			p.Steps = append(p.Steps, st)
		}
		for i := 0; i < 6; i++ {
			st := zvStep{At: 400000 + int64(r.Intn(400000)), Node: r.Intn(c.Nodes), S: r.Sub(), A: int64(r.Intn(n))}
			st.K = []string{"relay", "subst", "damage", "relay", "subst", "damage"}[i]
			st.Str = zvDamageKinds[(idx/8+i)%len(zvDamageKinds)]
			p.Steps = append(p.Steps, st)
		}
		return p
	}
	if idx%8 == 4 {
		p.Cfg.Str = "proofs"
		c := &p.Cfg
		c.FF, c.EC = r.Pick("m256", "m264", "m512", "m200"), zvCurves[r.Intn(len(zvCurves))]
		c.N = r.PickInt(1, 2, 4, 8, 16, 32, 64)
		if c.N > 32 {
			c.N = 32
		}
		c.Bc = 64
		for i := 0; i < 4; i++ {
			st := zvStep{K: []string{"bp", "sigma"}[i%2], At: int64(r.Intn(2000)), S: r.Sub()}
			if r.Chance(1, 3) {
				st.Faults = []zvFault{{At: r.Intn(30), Kind: r.Pick("zeros", "ones", "lead", "low"), Count: r.PickInt(1, 3)}}
			}
			p.Steps = append(p.Steps, st)
		}
		return p
	}
	p.Cfg.Str = "elements"
	p.Cfg.EC = zvC12Groups[(idx+idx/14)%len(zvC12Groups)]
	n := 16
	for i := 0; i < n; i++ {
		st := zvStep{At: int64(r.Intn(40)), S: r.Sub(), A: int64(r.Intn(6)), B: int64(r.Intn(8))}
		st.K = []string{"trip", "damage", "trip", "damage"}[i%4]
		if i == 2 {
			st.K = "raw"
		}
		st.Str = r.Pick("json", "json", "bin", "bin", "set", "jsonlib")
		p.Steps = append(p.Steps, st)
	}
	return p
}

// zvScalarFor draws a scalar of an interesting class; the class is returned too.
func zvScalarFor(name string, r *zvRNG, n *big.Int) (*big.Int, string) {
	switch r.Intn(10) {
	case 0:
		return new(big.Int), "identity"
	case 1:
		return big.NewInt(1), "generator"
	case 2:
		return new(big.Int).Sub(n, big.NewInt(int64(1+r.Intn(3)))), "inverse"
	case 3:
		return big.NewInt(int64(2 + r.Intn(300))), "small"
	case 4, 5, 6, 7:
		if l := zvZeroScalars[name]; len(l) > 0 {
			k := l[r.Intn(len(l))]
			v := big.NewInt(k)
			if r.Chance(1, 3) {
				v.Sub(n, v)
			}
			return v, fmt.Sprint("zero bytes ", k)
		}
		if _, ok := zvPrimes[name]; ok {
			return big.NewInt(int64(1 + r.Intn(20))), "short"
		}
	}
	return r.Big(n), "random"
}

func zvEncode(e group.Element, how string) ([]byte, error) {
	switch how {
	case "json":
		return e.MarshalJSON()
	case "jsonlib":
		return json.Marshal(map[string]any{"e": e})
	}
	return e.MarshalBinary()
}

func zvDecode(e group.Element, b []byte, how string) (group.Element, error) {
	switch how {
	case "json":
		return e, e.UnmarshalJSON(b)
	case "jsonlib":
		w := struct{ E json.RawMessage }{}
		if err := json.Unmarshal(b, &w); err != nil {
			return nil, err
		}
		return e, json.Unmarshal(w.E, e)
	case "set":
		return e.SetBytes(b), nil
	}
	return e, e.UnmarshalBinary(b)
}

func zvExecC12(e *zvEngine) {
	switch e.plan.Cfg.Str {
	case "ballots":
		zvExecC12Ballots(e)
	case "proofs":
		zvExecC12Proofs(e)
	default:
		zvExecC12Elements(e)
	}
}

func zvExecC12Elements(e *zvEngine) {
	name := e.plan.Cfg.EC
	// Two parties with groups of their own.
	ga, gb := zvGroup(name), zvGroup(name)
	n := ga.N()
	var shared [3]group.Element
	var sharedS [3]*big.Int
	e.oracle(func() {
		rr := zvNewRNG(e.plan.Sched, 61)
		for i := range shared {
			sharedS[i], _ = zvScalarFor(name, rr, n)
			shared[i] = ga.Element().BaseScale(sharedS[i])
		}
	})
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		rng := zvNewRNG(st.S, 62)
		if st.K == "raw" {
			zvC12Raw(e, name, i, st, rng)
			continue
		}
		s, class := zvScalarFor(name, rng, n)
		var src group.Element
		recv := int(st.A)
		codec := st.Str
		var dec group.Element
		var derr, eerr error
		var enc, enc2 []byte
		kind := ""
		if st.K == "damage" && codec == "set" {
			codec = "bin"
		}
		done, known := false, false
		t := e.spawn(fmt.Sprintf("%s%d", st.K, i), st.At, st.S, nil, 0, func(t *zvTask) {
			// the element, made in different ways
			switch st.B {
			case 0:
				k := rng.Intn(len(shared))
				src, s, class = shared[k], sharedS[k], "shared"
			case 1:
				a := rng.Big(n)
				src = ga.Element().Add(ga.Element().BaseScale(a), ga.Element().BaseScale(new(big.Int).Sub(s, a)))
			case 2:
				src = ga.Element().Scale(ga.Generator(), s)
			case 3:
				src = ga.Identity()
				src.Set(ga.Element().BaseScale(s))
			case 4:
				src = ga.Element().Negate(ga.Element().BaseScale(new(big.Int).Neg(s)))
			case 5:
				a := ga.Element().BaseScale(s)
				src = ga.Element().Subtract(ga.Element().Add(a, a), a)
			default:
				src = ga.Element().BaseScale(s)
			}
			if s.Sign() == 0 && rng.Chance(1, 2) && st.B > 0 {
				src = ga.Identity()
			}
			if s.Cmp(big.NewInt(1)) == 0 && rng.Chance(1, 2) && st.B > 0 {
				src = ga.Generator()
			}
			if enc, eerr = zvEncode(src, codec); eerr != nil {
				return
			}
			if st.K == "damage" {
				e.oracle(func() {
					if rng.Chance(1, 4) { // of an element with unusual coordinates
						if c, js, bin, cl := zvRawPoint(name, rng, ga); c != "" {
							class = cl
							switch {
							case codec == "json" && js != nil:
								enc = js
							case codec == "jsonlib" && js != nil:
								enc = []byte(`{"e":` + string(js) + `}`)
							case bin != nil:
								enc = bin
							}
						}
					}
					known = zvDenotes(name, codec, zvMustEnc(ga.Generator(), codec)) == zvCanon(name, ga.Generator())
				})
				enc, kind = zvDamageElement(name, codec, enc, rng)
			}
			var rc group.Element
			switch recv {
			case 0:
				rc = gb.Generator()
			case 1:
				rc = gb.Identity()
			case 2:
				rc = gb.Element().BaseScale(big.NewInt(77))
			case 3:
				rc = gb.Element()
				if _, err := zvDecode(rc, zvMustEnc(gb.Generator(), codec), codec); err != nil {
					derr = err
					return
				}
			default:
				rc = gb.Element()
			}
			keep := append([]byte(nil), enc...)
			dec, derr = zvDecode(rc, enc, codec)
			if !bytes.Equal(keep, enc) {
				panic("decoding changed the message")
			}
			if derr == nil && st.K != "damage" {
				enc2, eerr = zvEncode(dec, codec)
			}
			done = true
		})
		t.onEnd = func(t *zvTask) {
			if st.K == "damage" {
				e.fault("encoding/" + zvDamageClass(kind))
				e.eval(name, codec, class, recv, kind)
				if !done || derr != nil || t.panicV != nil || eerr != nil {
					e.probe("damaged: error reported")
					if t.panicV != nil {
						e.probe("damaged: panic") // (C04 judges this)
					}
					return
				}
				e.oracle(func() {
					c := ""
					if !zvQuiet(func() { c = zvCanon(name, dec) }) {
						e.probe("damaged: decoded, cannot be encoded")
						return
					}
					e.probe("damaged: decoded to a member")
					if strings.HasPrefix(c, "!") {
						e.fail("nonmember-decoded", "%s: a damaged %s encoding (%s) of an element (%s) decodes without error to a non-member (%s)", name, codec, kind, class, zvShortErr(c))
						return
					}
					if !known || c == "" {
						return
					}
					if want := zvDenotes(name, codec, enc); want != "" && want != c {
						e.fail("decoded-to-another", "%s: a damaged %s encoding (%s) of an element (%s) decodes without error to %s, but it says %s", name, codec, kind, class, zvShortErr(c), zvShortErr(want))
						return
					}
					e.probe("damaged: decoded to what it denotes")
				})
				return
			}
			e.eval(name, codec, class, recv, st.B)
			bad := func(f string, a ...any) {
				e.fail("not-lossless", "%s, %s codec, element %s (%s) decoded into receiver %d: %s", name, codec, zvShortBig(s), class, recv, fmt.Sprintf(f, a...))
			}
			if t.panicV != nil {
				bad("panic: %s", t.panicText())
				return
			}
			if eerr != nil || derr != nil {
				bad("error %v %v", eerr, derr)
				return
			}
			e.oracle(func() {
				if !zvQuiet(func() {
					ref := gb.Element().BaseScale(s)
					c, cr := zvCanon(name, dec), zvRef(name, s)
					switch {
					case !dec.IsEqual(src) || !src.IsEqual(dec) || !dec.IsEqual(ref):
						bad("the decoded element is not equal to the one sent")
					case c != "" && c != cr:
						bad("the decoded element is %s instead of %s", zvShortErr(c), zvShortErr(cr))
					case !bytes.Equal(enc, enc2):
						bad("encoding it again gives other bytes")
					case dec.IsIdentity() != (new(big.Int).Mod(s, n).Sign() == 0):
						bad("IsIdentity is %v", dec.IsIdentity())
					case dec.String() != src.String():
						bad("the decoded element has another string form")
					case !gb.Element().Add(dec, gb.Generator()).IsEqual(gb.Element().BaseScale(new(big.Int).Add(s, big.NewInt(1)))):
						bad("the decoded element plus the generator is wrong")
					case zvCanon(name, gb.Generator()) != zvRef(name, big.NewInt(1)) || !gb.Identity().IsIdentity():
						bad("decoding changed the group")
					}
				}) {
					bad("comparing the decoded element panics")
				}
			})
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	e.oracle(func() {
		for i := range shared {
			if c := zvCanon(name, shared[i]); c != zvRef(name, sharedS[i]) {
				e.fail("element-changed", "%s: encoding changed an element (%s)", name, zvShortErr(c))
			}
		}
	})
}

// zvRawPoint makes an element of unknown discrete logarithm with own arithmetic, among them
// elements with extreme coordinates. It returns the canonical form and both encodings, in the
// form the group itself uses ("" if that form is not known).
func zvRawPoint(name string, r *zvRNG, g group.Group) (canon string, js, bin []byte, class string) {
	gb, _ := g.Generator().MarshalBinary()
	gj, _ := g.Generator().MarshalJSON()
	if w := zvWeis[name]; w != nil {
		var pt struct{ X, Y *big.Int }
		if json.Unmarshal(gj, &pt) != nil || pt.X == nil || pt.Y == nil || pt.X.Cmp(w.gx) != 0 || pt.Y.Cmp(w.gy) != 0 {
			return
		}
		x := new(big.Int)
		switch r.Intn(5) {
		case 0:
			class = "x zero"
		case 1:
			class = "x small"
			x.SetInt64(int64(r.Intn(40)))
		case 2:
			class = "x large"
			x.Sub(w.p, big.NewInt(int64(1+r.Intn(40))))
		case 3:
			class = "x short"
			x = r.Big(new(big.Int).Rsh(w.p, uint(8*(1+r.Intn(w.size-1)))))
		default:
			class = "x random"
			x = r.Big(w.p)
		}
		for {
			v := new(big.Int).Mul(x, x)
			v.Mul(v.Add(v, w.a), x)
			v.Mod(v.Add(v, w.b), w.p)
			if y := new(big.Int).ModSqrt(v, w.p); y != nil && y.Sign() != 0 {
				if r.Chance(1, 2) {
					y.Sub(w.p, y)
				}
				js = []byte(strings.Replace(strings.Replace(string(gj), w.gx.String(), x.String(), 1), w.gy.String(), y.String(), 1))
				xy := append(x.FillBytes(make([]byte, w.size)), y.FillBytes(make([]byte, w.size))...)
				switch {
				case len(gb) == 2*w.size:
					bin = xy
				case len(gb) == 2*w.size+1 && gb[0] == 4:
					bin = append([]byte{4}, xy...)
				}
				return x.Text(16) + "," + y.Text(16), js, bin, class
			}
			if x.Add(x, big.NewInt(1)); x.Cmp(w.p) >= 0 {
				x.SetInt64(0)
			}
		}
	}
	if name == "r255" {
		if len(gb) != 32 || string(gj) != `"`+base64.StdEncoding.EncodeToString(gb)+`"` {
			return
		}
		s := new(big.Int)
		class = "s small"
		switch r.Intn(4) {
		case 0:
			s.SetInt64(int64(r.Intn(60)))
		case 1:
			s.Sub(zvEP, big.NewInt(int64(1+r.Intn(60))))
			class = "s large"
		case 2:
			s = r.Big(new(big.Int).Rsh(zvEP, uint(8*(1+r.Intn(30)))))
			class = "s short"
		default:
			s = r.Big(zvEP)
			class = "s random"
		}
		for !zvEvalid(zvLE(s)) || s.Sign() == 0 {
			if s.Add(s, big.NewInt(1)); s.Cmp(zvEP) >= 0 {
				s.SetInt64(0)
			}
		}
		bin = zvLE(s)
		return hex.EncodeToString(bin), []byte(`"` + base64.StdEncoding.EncodeToString(bin) + `"`), bin, class
	}
	if _, ok := zvPrimes[name]; ok {
		p := zvPrime(name)
		v := new(big.Int)
		class = "value small"
		switch r.Intn(4) {
		case 0:
			v.SetInt64(int64(2 + r.Intn(60)))
		case 1:
			v.Sub(p, big.NewInt(int64(1+r.Intn(60))))
			class = "value large"
		case 2:
			v = r.Big(new(big.Int).Rsh(p, uint(8*(1+r.Intn(18)))))
			class = "value short"
		default:
			v = r.Big(p)
			class = "value random"
		}
		for v.Cmp(big.NewInt(2)) < 0 || big.Jacobi(v, p) != 1 {
			if v.Add(v, big.NewInt(1)); v.Cmp(p) >= 0 {
				v.SetInt64(2)
			}
		}
		gen := zvRef(name, big.NewInt(1))
		gi := zvHex(gen)
		if string(gj) == gi.String() {
			js = []byte(v.String())
		}
		if bytes.Equal(gb, gi.Bytes()) {
			bin = v.Bytes()
		} else if len(gb) == len(p.Bytes()) {
			bin = v.FillBytes(make([]byte, len(gb)))
		}
		return v.Text(16), js, bin, class
	}
	return
}

// zvC12Raw: elements nobody computed from a scalar travel as well.
func zvC12Raw(e *zvEngine, name string, i int, st zvStep, rng *zvRNG) {
	ga, gb := zvGroup(name), zvGroup(name)
	var canon, class string
	var js, bin []byte
	e.oracle(func() { canon, js, bin, class = zvRawPoint(name, rng, ga) })
	for _, how := range []string{"json", "bin"} {
		enc := js
		other := "bin"
		if how == "bin" {
			enc, other = bin, "json"
		}
		if canon == "" || enc == nil {
			e.probe("raw element: form not known")
			continue
		}
		var a, b group.Element
		var err error
		var again []byte
		t := e.spawn(fmt.Sprintf("raw%d-%s", i, how), st.At, st.S, nil, 0, func(t *zvTask) {
			if a, err = zvDecode(ga.Element(), enc, how); err != nil {
				return
			}
			if again, err = zvEncode(a, how); err != nil {
				return
			}
			// and on to another party in the other encoding
			var x []byte
			if x, err = zvEncode(a, other); err != nil {
				return
			}
			b, err = zvDecode(gb.Generator(), x, other)
		})
		t.onEnd = func(t *zvTask) {
			e.eval("raw", name, how, class)
			bad := func(f string, v ...any) {
				e.fail("not-lossless", "%s: the %s encoding of an element (%s, %s): %s", name, how, class, zvShortErr(canon), fmt.Sprintf(f, v...))
			}
			if t.panicV != nil || err != nil {
				bad("%v %s", err, t.panicText())
				return
			}
			e.oracle(func() {
				if !zvQuiet(func() {
					ca, cb := zvCanon(name, a), zvCanon(name, b)
					switch {
					case ca != canon && ca != "":
						bad("it decodes to %s", zvShortErr(ca))
					case cb != canon && cb != "":
						bad("after another hop it is %s", zvShortErr(cb))
					case !a.IsEqual(b) || !b.IsEqual(a) || a.IsIdentity() || b.IsIdentity():
						bad("the decoded elements are not equal or are the identity")
					case !bytes.Equal(again, enc):
						bad("encoding it again gives other bytes")
					case a.String() != b.String():
						bad("the decoded elements have different string forms")
					case !ga.Element().Scale(a, ga.N()).IsIdentity() || !ga.Element().Add(a, a).IsEqual(ga.Element().Scale(a, big.NewInt(2))):
						bad("it does not obey the group")
					}
				}) {
					bad("using it panics")
				}
			})
		}
	}
}

func zvMustEnc(x group.Element, how string) []byte {
	b, err := zvEncode(x, how)
	if err != nil {
		panic(err)
	}
	return b
}

func zvShortBig(s *big.Int) string {
	t := s.Text(16)
	if len(t) > 24 {
		return t[:24] + "..."
	}
	return t
}

// zvDamageElement damages the encoding of an element.
func zvDamageElement(name, codec string, enc []byte, r *zvRNG) ([]byte, string) {
	generic := func() ([]byte, string) {
		return zvBytes(enc, r.Pick("flip", "truncate", "insert", "delete", "duplicate", "replace", "digit", "zero"), r)
	}
	if r.Chance(1, 3) {
		return generic()
	}
	w := zvWeis[name]
	_, modp := zvPrimes[name]
	if r.Chance(1, 8) { // an element of another group
		o := r.Pick("p256", "p384", "k256", "r255", "m256")
		if o != name {
			return zvMustEnc(zvGroup(o).Element().BaseScale(big.NewInt(int64(1+r.Intn(1000)))), codec), "foreign " + o
		}
	}
	switch {
	case w != nil:
		var x, y *big.Int
		if codec == "json" || codec == "jsonlib" {
			var pt struct{ X, Y *big.Int }
			raw := enc
			if codec == "jsonlib" {
				wr := struct{ E json.RawMessage }{}
				json.Unmarshal(enc, &wr)
				raw = wr.E
			}
			if json.Unmarshal(raw, &pt) != nil || pt.X == nil || pt.Y == nil {
				return generic()
			}
			x, y = pt.X, pt.Y
		} else {
			b := enc
			if len(b) == 2*w.size+1 {
				b = b[1:]
			}
			if len(b) != 2*w.size {
				if len(b) == 1 {
					return r.Bytes(r.PickInt(1, 2, w.size+1, 2*w.size, 2*w.size+1)), "random bytes"
				}
				return generic()
			}
			x, y = new(big.Int).SetBytes(b[:w.size]), new(big.Int).SetBytes(b[w.size:])
		}
		one := big.NewInt(1)
		kind := r.Pick("x+1", "y+1", "x+p", "y+p", "swap", "x=0", "y=0", "neg", "-x", "-y", "random", "x=p", "y=p", "twist", "y-p", "big", "0,p", "p,0", "y*2", "other prefix")
		switch kind {
		case "x+1":
			x = new(big.Int).Add(x, one)
		case "y+1":
			y = new(big.Int).Add(y, one)
		case "x+p":
			x = new(big.Int).Add(x, w.p)
		case "y+p":
			y = new(big.Int).Add(y, w.p)
		case "swap":
			x, y = y, x
		case "x=0":
			x = new(big.Int)
		case "y=0":
			y = new(big.Int)
		case "neg":
			y = new(big.Int).Sub(w.p, y)
		case "-x":
			x = new(big.Int).Neg(x)
		case "-y":
			y = new(big.Int).Neg(y)
		case "y-p":
			y = new(big.Int).Sub(y, w.p)
		case "random":
			x, y = r.Big(w.p), r.Big(w.p)
		case "x=p":
			x = w.p
		case "y=p":
			y = w.p
		case "0,p":
			x, y = new(big.Int), w.p
		case "p,0":
			x, y = w.p, new(big.Int)
		case "twist": // a point of a curve with another b
			y = new(big.Int).Sub(w.p, new(big.Int).Add(y, one))
		case "y*2":
			y = new(big.Int).Lsh(y, 1)
		case "big":
			x = new(big.Int).Lsh(one, uint(8*w.size+r.Intn(64)))
		}
		switch codec {
		case "json":
			return []byte(fmt.Sprintf(`{"x":%s,"y":%s}`, x, y)), kind
		case "jsonlib":
			return []byte(fmt.Sprintf(`{"e":{"x":%s,"y":%s}}`, x, y)), kind
		}
		if kind == "other prefix" && len(enc) == 2*w.size+1 {
			c := append([]byte(nil), enc...)
			c[0] = byte(r.Intn(8))
			return c, kind
		}
		max := new(big.Int).Lsh(one, uint(8*w.size))
		b := make([]byte, 2*w.size)
		new(big.Int).Mod(x, max).FillBytes(b[:w.size])
		new(big.Int).Mod(y, max).FillBytes(b[w.size:])
		if len(enc) == 2*w.size+1 {
			b = append([]byte{4}, b...)
		}
		return b, kind
	case modp:
		p := zvPrime(name)
		v, ok := new(big.Int).SetString(strings.Trim(string(enc), `{"e:}`), 10)
		if codec == "bin" {
			v, ok = new(big.Int).SetBytes(enc), true
		}
		if !ok {
			return generic()
		}
		kind := r.Pick("p-v", "v+p", "0", "p", "p+1", "p-1", "-v", "v+1", "random", "2p-v", "big", "v+2p")
		switch kind {
		case "p-v":
			v = new(big.Int).Sub(p, v)
		case "v+p":
			v = new(big.Int).Add(p, v)
		case "v+2p":
			v = new(big.Int).Add(new(big.Int).Lsh(p, 1), v)
		case "0":
			v = new(big.Int)
		case "p":
			v = p
		case "p+1":
			v = new(big.Int).Add(p, big.NewInt(1))
		case "p-1":
			v = new(big.Int).Sub(p, big.NewInt(1))
		case "-v":
			v = new(big.Int).Neg(v)
		case "v+1":
			v = new(big.Int).Add(v, big.NewInt(1))
		case "random":
			v = r.Big(p)
		case "2p-v":
			v = new(big.Int).Sub(new(big.Int).Lsh(p, 1), v)
		case "big":
			v = new(big.Int).Lsh(v, uint(1+r.Intn(5000)))
		}
		switch codec {
		case "json":
			return []byte(v.String()), kind
		case "jsonlib":
			return []byte(fmt.Sprintf(`{"e":%s}`, v)), kind
		}
		return v.Bytes(), kind
	case name == "r255":
		raw := enc
		switch codec {
		case "json", "jsonlib":
			s := string(enc)
			if i := strings.LastIndex(strings.TrimRight(s, `"}`), `"`); i >= 0 {
				s = strings.TrimRight(s, `"}`)[i+1:]
			}
			var err error
			if raw, err = base64.StdEncoding.DecodeString(s); err != nil {
				return generic()
			}
		}
		if len(raw) != 32 {
			return generic()
		}
		c := append([]byte(nil), raw...)
		le := make([]byte, 32)
		for i := range le {
			le[i] = c[31-i]
		}
		v := new(big.Int).SetBytes(le)
		kind := r.Pick("odd", "high bit", "random", "p", "v+p", "p-v", "long", "short", "flip", "ones")
		put := func(v *big.Int) {
			v.Mod(v, new(big.Int).Lsh(big.NewInt(1), 256))
			c = zvLE(v)
		}
		switch kind {
		case "odd":
			c[0] ^= 1
		case "high bit":
			c[31] ^= 0x80
		case "random":
			c = r.Bytes(32)
			if r.Chance(1, 2) {
				c[0] &^= 1
				c[31] &= 0x7f
			}
		case "p":
			put(new(big.Int).Set(zvEP))
		case "v+p":
			put(new(big.Int).Add(v, zvEP))
		case "p-v":
			put(new(big.Int).Sub(zvEP, v))
		case "long":
			c = append(c, r.Bytes(r.PickInt(1, 32))...)
		case "short":
			c = c[:r.Intn(32)]
		case "flip":
			k := r.Intn(256)
			c[k/8] ^= 1 << uint(k%8)
		case "ones":
			for i := range c {
				c[i] = 0xff
			}
		}
		switch codec {
		case "json":
			return zvMustJSON(c), kind
		case "jsonlib":
			return []byte(`{"e":` + string(zvMustJSON(c)) + `}`), kind
		}
		return c, kind
	}
	return generic()
}

// zvDenotes reads an encoding with own code: the canonical form of the element it denotes,
// "!..." if it denotes none, "" if this code cannot tell. It knows the forms in use today; a
// caller checks with the encoding of a known element that the group uses one of them.
func zvDenotes(name, codec string, enc []byte) string {
	none := func(f string, a ...any) string { return "!" + fmt.Sprintf(f, a...) }
	if codec == "jsonlib" {
		if zvDupKeys(enc) {
			return ""
		}
		wr := struct{ E json.RawMessage }{}
		if json.Unmarshal(enc, &wr) != nil {
			return none("not JSON")
		}
		if len(wr.E) == 0 || string(wr.E) == "null" {
			return "" // the library does not even ask the group
		}
		codec, enc = "json", wr.E
	}
	if w := zvWeis[name]; w != nil {
		var x, y *big.Int
		if codec == "json" {
			if zvDupKeys(enc) {
				return ""
			}
			var pt struct{ X, Y *big.Int }
			if json.Unmarshal(enc, &pt) != nil {
				return none("not the JSON of a point")
			}
			x, y = pt.X, pt.Y
			if x == nil || y == nil {
				return none("a coordinate is missing")
			}
			if x.Sign() == 0 && y.Sign() == 0 {
				return "O"
			}
		} else {
			n := w.size
			switch {
			case len(enc) == 1 && enc[0] == 0:
				return "O"
			case len(enc) == 2*n+1 && enc[0] == 4:
				x, y = new(big.Int).SetBytes(enc[1:n+1]), new(big.Int).SetBytes(enc[n+1:])
			case len(enc) == n+1 && enc[0]|1 == 3:
				x = new(big.Int).SetBytes(enc[1:])
				v := new(big.Int).Mul(x, x)
				v.Mul(v.Add(v, w.a), x)
				v.Mod(v.Add(v, w.b), w.p)
				if y = new(big.Int).ModSqrt(v, w.p); y == nil {
					return none("no such point")
				}
				if byte(y.Bit(0)) != enc[0]&1 {
					y.Sub(w.p, y)
				}
			case len(enc) == 2*n:
				x, y = new(big.Int).SetBytes(enc[:n]), new(big.Int).SetBytes(enc[n:])
				if x.Sign() == 0 && y.Sign() == 0 {
					return "O"
				}
			default:
				return none("%d bytes", len(enc))
			}
		}
		if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(w.p) >= 0 || y.Cmp(w.p) >= 0 {
			return none("coordinates outside the field")
		}
		if !w.on(x, y) {
			return none("not on the curve")
		}
		return x.Text(16) + "," + y.Text(16)
	}
	if name == "r255" {
		if codec == "json" {
			var b []byte
			if json.Unmarshal(enc, &b) != nil {
				return none("not a JSON string")
			}
			enc = b
		}
		if len(enc) != 32 {
			return none("%d bytes", len(enc))
		}
		if !zvEvalid(enc) {
			return none("not an element")
		}
		return hex.EncodeToString(enc)
	}
	if _, ok := zvPrimes[name]; ok {
		v := new(big.Int)
		if codec == "json" {
			if v.UnmarshalJSON(enc) != nil {
				return none("not a number")
			}
		} else {
			v.SetBytes(enc)
		}
		p := zvPrime(name)
		if v.Sign() <= 0 || v.Cmp(p) >= 0 || big.Jacobi(v, p) != 1 {
			return none("not in the group")
		}
		return v.Text(16)
	}
	return ""
}

// zvDupKeys: some object has the same key twice, so that its meaning is open.
func zvDupKeys(js []byte) bool {
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	type frame struct {
		keys map[string]bool
		key  bool
	}
	var st []frame
	val := func() {
		if n := len(st); n > 0 && st[n-1].keys != nil {
			st[n-1].key = true
		}
	}
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		if dl, ok := t.(json.Delim); ok {
			switch dl {
			case '{':
				st = append(st, frame{map[string]bool{}, true})
			case '[':
				st = append(st, frame{})
			default:
				st = st[:len(st)-1]
				val()
			}
			continue
		}
		if n := len(st); n > 0 && st[n-1].keys != nil && st[n-1].key {
			k := strings.ToLower(t.(string))
			if st[n-1].keys[k] {
				return true
			}
			st[n-1].keys[k] = true
			st[n-1].key = false
			continue
		}
		val()
	}
}

// zvAt finds a component of a message by its path, as in a.b[2]; nil if it is not there.
func zvAt(js []byte, path string) json.RawMessage {
	cur := json.RawMessage(js)
	for _, p := range strings.Split(path, ".") {
		idx := -1
		if i := strings.IndexByte(p, '['); i >= 0 {
			fmt.Sscanf(p[i:], "[%d]", &idx)
			p = p[:i]
		}
		var m map[string]json.RawMessage
		if json.Unmarshal(cur, &m) != nil {
			return nil
		}
		cur = nil
		for k, v := range m {
			if strings.EqualFold(k, p) {
				cur = v
			}
		}
		if cur == nil {
			return nil
		}
		if idx >= 0 {
			var l []json.RawMessage
			if json.Unmarshal(cur, &l) != nil || idx >= len(l) {
				return nil
			}
			cur = l[idx]
		}
	}
	return cur
}

// zvWirePath: where a component of a ballot is in its JSON.
func zvWirePath(slot string) string {
	i := strings.IndexByte(slot, '.')
	if pre, f := slot[:i+1], slot[i+1:]; pre == "lbProof." || pre == "ubProof." {
		switch {
		case f == "P" || f == "Cc" || f == "a" || f == "b":
			return pre + "InnerProductProof." + f
		case f[0] == 'L' || f[0] == 'R':
			return pre + "InnerProductProof." + f[:1] + "[" + f[1:] + "]"
		}
	}
	return slot
}

// zvReads compares a decoded ballot with what the bytes say, component by component. It
// returns the first component that is something else, or "".
func zvReads(js []byte, b *BallotData, pp *PublicParameters, ff, ec string) string {
	if zvDupKeys(js) {
		return ""
	}
	for pre, p := range map[string]*bulletproofs.BulletProof{"lbProof": &b.BpLower, "ubProof": &b.BpUpper} {
		for f, v := range map[string][]group.Element{"L": p.InnerProductProof.L, "R": p.InnerProductProof.R} {
			var l []json.RawMessage
			raw := zvAt(js, pre+".InnerProductProof."+f)
			if raw != nil && json.Unmarshal(raw, &l) != nil || len(l) != len(v) {
				return fmt.Sprintf("%s.%s has %d elements", pre, f, len(v))
			}
		}
	}
	for _, s := range zvSlots(b, pp) {
		raw := zvAt(js, zvWirePath(s.name))
		if s.e != nil {
			nm := ec
			if s.g == pp.FFGroupParams.I {
				nm = ff
			}
			want := "!it is missing"
			if raw != nil {
				want = zvDenotes(nm, "json", raw)
			} else if nm == "tg" {
				want = ""
			}
			if want == "" {
				continue
			}
			if *s.e == nil {
				return s.name + " is nil"
			}
			if got := zvCanon(nm, *s.e); got != "" && got != want {
				return fmt.Sprintf("%s is %s but the bytes say %s", s.name, zvShortErr(got), zvShortErr(want))
			}
			continue
		}
		v := new(big.Int)
		if raw == nil || string(raw) == "null" || v.UnmarshalJSON(raw) != nil {
			return s.name + " is missing in the bytes, or no number"
		}
		if *s.s == nil || (*s.s).Cmp(v) != 0 {
			return s.name + " is another number than in the bytes"
		}
	}
	return ""
}

// zvElements lists the elements of a ballot with the group each belongs to.
func zvElements(b *BallotData, pp *PublicParameters, ff, ec string) map[string][]group.Element {
	m := map[string][]group.Element{}
	for _, s := range zvSlots(b, pp) {
		if s.e != nil {
			k := ec
			if s.g == pp.FFGroupParams.I {
				k = ff
			}
			m[k] = append(m[k], *s.e)
		}
	}
	return m
}

func zvExecC12Ballots(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	var casts []int
	nf, ne := w.nodes[0].pp.FFGroupParams.I.N(), w.nodes[0].pp.ECGroupParams.I.N()
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		if st.K == "cast" {
			casts = append(casts, i)
			w.castStep(i, st, func(b *zvBallot, d zvDel, v zvVerdict) {})
			continue
		}
		what := ""
		var c0 zvContent
		var sent []byte
		hops := 0
		var derr error
		var got BallotData
		t := e.spawn(fmt.Sprintf("%s%d", st.K, i), st.At, st.S, nil, 0, func(t *zvTask) {
			if len(casts) == 0 || w.ballots[casts[int(st.A)%len(casts)]] == nil {
				return
			}
			b := w.ballots[casts[int(st.A)%len(casts)]]
			rng := zvNewRNG(st.S, 63)
			switch st.K {
			case "relay":
				e.oracle(func() { c0 = zvBallotContent(&b.bd, nf, ne, false) })
				sent = b.js
			case "subst", "damage":
				e.oracle(func() {
					pp := w.nodes[st.Node%len(w.nodes)].pp
					if st.K == "damage" {
						sent, what = zvDamage(b.js, st.Str, 1+rng.Intn(2), rng, pp)
						return
					}
					// a ballot with unusual, but well-formed components
					zvQuiet(func() {
						bd, err := BallotDataUnmarshalJSON(b.js, pp)
						if err != nil {
							return
						}
						sl := zvSlots(&bd, &pp)
						for k := 1 + rng.Intn(6); k > 0; k-- {
							s := sl[rng.Intn(len(sl))]
							if s.e != nil {
								nm := w.cfg.EC
								if s.g == pp.FFGroupParams.I {
									nm = w.cfg.FF
								}
								v, _ := zvScalarFor(nm, rng, s.g.N())
								*s.e = s.g.Element().BaseScale(v)
							} else {
								*s.s, _ = zvScalarFor("", rng, s.g.N())
							}
							what += s.name + " "
						}
						c0 = zvBallotContent(&bd, nf, ne, false)
						sent = zvBallotJSON(&bd)
					})
				})
			}
			if sent == nil {
				return
			}
			msg := sent
			for h := 0; h < 3; h++ {
				pp := w.nodes[(st.Node+h)%len(w.nodes)].pp
				if got, derr = BallotDataUnmarshalJSON(msg, pp); derr != nil {
					return
				}
				hops++
				if st.K == "damage" {
					return
				}
				again := zvBallotJSON(&got)
				if !bytes.Equal(again, msg) {
					derr = fmt.Errorf("hop %d: the decoded ballot is encoded to other bytes (first difference at %d of %d)", h, zvDiffAt(again, msg), len(msg))
					return
				}
				msg = again
			}
		})
		t.onEnd = func(t *zvTask) {
			if sent == nil {
				return
			}
			if st.K == "damage" {
				e.fault("ballot/" + st.Str)
				e.eval("ballot", w.cfg.EC, w.cfg.FF, zvDamageClass(what))
				if t.panicV != nil || derr != nil {
					e.probe("damaged ballot: error")
					return
				}
				e.oracle(func() {
					pp := w.nodes[st.Node%len(w.nodes)].pp
					ff := w.cfg.FF
					if ff == "setup" {
						ff = "m3072"
					}
					zvQuiet(func() {
						for g, es := range zvElements(&got, &pp, ff, w.cfg.EC) {
							for _, x := range es {
								if c := zvCanon(g, x); strings.HasPrefix(c, "!") {
									e.fail("nonmember-decoded", "%s/%s: a damaged ballot (%s) is decoded without error to one with an element that is not in the group (%s)", w.cfg.EC, w.cfg.FF, what, zvShortErr(c))
									return
								}
							}
						}
						e.probe("damaged ballot: decoded to members")
						b := w.ballots[casts[int(st.A)%len(casts)]]
						if zvReads(b.js, &b.bd, &pp, ff, w.cfg.EC) != "" {
							e.probe("ballot: form not known")
							return
						}
						if d := zvReads(sent, &got, &pp, ff, w.cfg.EC); d != "" {
							e.fail("decoded-to-another", "%s/%s: a damaged ballot (%s) is decoded without error to another one than the bytes say: %s", w.cfg.EC, w.cfg.FF, what, d)
							return
						}
						e.probe("damaged ballot: decoded to what it denotes")
					})
				})
				return
			}
			e.eval("ballot", w.cfg.EC, w.cfg.FF, st.K, zvDamageClass(what))
			bad := func(f string, a ...any) {
				e.fail("ballot-not-lossless", "%s/%s: a ballot (%s %s) sent as JSON: %s", w.cfg.EC, w.cfg.FF, st.K, what, fmt.Sprintf(f, a...))
			}
			if t.panicV != nil {
				bad("panic: %s", t.panicText())
				return
			}
			if derr != nil {
				bad("%v", derr)
				return
			}
			e.oracle(func() {
				c1 := zvBallotContent(&got, nf, ne, false)
				if d := c0.diff(c1, true); d != "" {
					bad("component %s is different after decoding", d)
				}
				e.probe("ballots relayed")
			})
		}
	}
	e.run()
}

func zvDiffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func zvExecC12Proofs(e *zvEngine) {
	cfg := e.plan.Cfg
	var bpA, bpB bulletproofs.BulletProofSetupParams
	var spA, spB voteproof.ProofParams
	e.spawn("setup", 0, 1, nil, 0, func(t *zvTask) {
		var err [4]error
		bpA, err[0] = bulletproofs.Setup(int64(1)<<uint(cfg.N), zvGroup(cfg.EC))
		bpB, err[1] = bulletproofs.Setup(int64(1)<<uint(cfg.N), zvGroup(cfg.EC))
		c := cfg
		c.N = 16
		spA, err[2] = zvC10Params(c)
		spB, err[3] = zvC10Params(c)
		for _, x := range err {
			if x != nil {
				panic(x)
			}
		}
	}).onEnd = func(t *zvTask) {
		if t.panicV != nil {
			e.fail("setup-panic", "set-up fails: %s", t.panicText())
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	ne, nf := bpA.GP.N(), spA.GFF.I.N()
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		rng := zvNewRNG(st.S, 64)
		var c0, c1 zvContent
		var js, js2 []byte
		var derr error
		ok := [2]bool{}
		t := e.spawn(fmt.Sprintf("%s%d", st.K, i), st.At, st.S, st.Faults, 0, func(t *zvTask) {
			if st.K == "bp" {
				v := zvRangeValue(rng, cfg.N, rng.Chance(1, 5), ne)
				p, _, err := bulletproofs.Prove(v, bpA)
				if err != nil {
					return
				}
				e.oracle(func() { c0.bp("", &p, ne, false) })
				ok[0], _ = p.Verify()
				js = zvMustJSON(&p)
				var q bulletproofs.BulletProof
				if q, derr = bulletproofs.BulletProofUnmarshalJSON(js, bpB); derr != nil {
					return
				}
				e.oracle(func() { c1.bp("", &q, ne, false) })
				ok[1], _ = q.Verify()
				js2 = zvMustJSON(&q)
				return
			}
			x := rng.Big(big.NewInt(65536))
			rp := rng.BigNZ(nf)
			s := &zvStatement{xp: x, x1: x, x2: x, ry: rp, rp: rp, r1: rng.BigNZ(ne), r2: rng.BigNZ(ne)}
			p := voteproof.Prove(x, rp, s.r1, s.r2, spA)
			e.oracle(func() { c0.sigma("", &p, nf, ne, true) })
			ok[0] = p.Verify(s.comm(&spA))
			js = zvMustJSON(&p)
			var q voteproof.SigmaProof
			if q, derr = voteproof.ProofUnmarshalJSON(js, spB.GFF.I, spB.GEC.I); derr != nil {
				return
			}
			e.oracle(func() { c1.sigma("", &q, nf, ne, true) })
			ok[1] = q.Verify(s.comm(&spB))
			js2 = zvMustJSON(&q)
		})
		t.onEnd = func(t *zvTask) {
			if js == nil && t.panicV == nil {
				return
			}
			e.eval("proof", st.K, cfg.EC, cfg.FF, cfg.N, ok[0], zvFaultKinds(st.Faults))
			e.probe(fmt.Sprintf("%s valid=%v", st.K, ok[0]))
			bad := func(f string, a ...any) {
				e.fail("proof-not-lossless", "%s/%s, %d bits: a %s proof sent as JSON: %s", cfg.EC, cfg.FF, cfg.N, st.K, fmt.Sprintf(f, a...))
			}
			switch {
			case t.panicV != nil:
				bad("panic: %s", t.panicText())
			case derr != nil:
				bad("%v", derr)
			case c0.diff(c1, true) != "":
				bad("component %s is different after decoding", c0.diff(c1, true))
			case !bytes.Equal(js, js2):
				bad("encoding the decoded proof gives other bytes")
			case ok[0] != ok[1]:
				bad("the verdict is %v before and %v after decoding", ok[0], ok[1])
			}
		}
	}
	e.run()
}
