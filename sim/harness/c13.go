//go:build go1.22

package main

// C13: group elements are values: any history of in-place operations obeys the group.

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/group"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C13", gen: zvGenC13, exec: zvExecC13, quick: 10000, deep: 400000,
		rule:   "one evaluation is one operation on a register machine of group elements, compared with the model; distinct cases differ in group, operation, aliasing pattern, class of scalar and classes of operands",
		reals:  []string{"all Element and Group methods of P-256, P-384, secp256k1, ristretto255 and the mod-p groups"},
		stubs:  []string{"scheduling (tasks share elements they read)", "reference: vectors of discrete logarithms, with own arithmetic for the value of each register"},
		assume: []string{"tasks do not write elements that other tasks use", "an element is given a value before it is read"},
	})
}

var zvC13Groups = []string{"p256", "k256", "r255", "p384", "m256", "m200", "m512", "p256", "k256", "r255", "p384", "m264", "m1024", "m257"}

func zvGenC13(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	p.Cfg.EC = zvC13Groups[r.Intn(len(zvC13Groups))]
	if r.Chance(1, 50) {
		p.Cfg.EC = "m3072"
	}
	p.Quantum, p.Budget = r.PickInt(0, 1, 2, 4, 10, 40), r.PickInt(20, 100, 400)
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		p.Steps = append(p.Steps, zvStep{K: "ops", At: int64(r.Intn(60)), S: r.Sub(), A: int64(r.PickInt(6, 12, 25, 40)), B: int64(r.Intn(3)), Kill: int64(0)})
	}
	if r.Chance(1, 4) {
		p.Steps[0].Kill = int64(1 + r.Intn(200))
	}
	return p
}

type zvReg struct {
	e group.Element
	m *zvTE
}

func zvScalarC13(r *zvRNG, n *big.Int) (*big.Int, string) {
	one := big.NewInt(1)
	switch r.Intn(24) {
	case 15: // words of zeros and ones
		x := new(big.Int)
		for i := (n.BitLen() + 63) / 64; i > 0; i-- {
			x.Lsh(x, 64)
			switch r.Intn(3) {
			case 0:
				x.Or(x, new(big.Int).SetUint64(^uint64(0)))
			case 1:
				x.Or(x, new(big.Int).SetUint64(r.Sub()))
			}
		}
		return x, "words"
	case 16:
		return new(big.Int).Rsh(new(big.Int).Add(n, big.NewInt(int64(r.PickInt(-1, 1)))), 1), "n/2"
	case 17:
		return new(big.Int).Sub(n, big.NewInt(int64(r.Intn(70)))), "n-small"
	case 18:
		return new(big.Int).Sub(new(big.Int).Lsh(one, uint(r.PickInt(8, 16, 31, 32, 63, 64, 127, 128, 192, 255, 256, 257, 320, 384, n.BitLen()))), big.NewInt(int64(r.Intn(3)))), "2^k-"
	case 19:
		return new(big.Int).Lsh(r.BigNZ(n), uint(r.Intn(200))), "shifted"
	case 0:
		return new(big.Int), "0"
	case 1:
		return big.NewInt(1), "1"
	case 2:
		return big.NewInt(-1), "-1"
	case 3:
		return new(big.Int).Set(n), "n"
	case 4:
		return new(big.Int).Sub(n, one), "n-1"
	case 5:
		return new(big.Int).Add(n, one), "n+1"
	case 6:
		return new(big.Int).Neg(n), "-n"
	case 7:
		return new(big.Int).Add(new(big.Int).Lsh(n, 1), big.NewInt(int64(r.Intn(5)))), "2n+"
	case 8:
		return new(big.Int).Neg(r.BigNZ(n)), "negative"
	case 9:
		return r.BigNZ(new(big.Int).Lsh(one, uint(n.BitLen()+64+r.Intn(700)))), "huge"
	case 10:
		return new(big.Int).Neg(r.BigNZ(new(big.Int).Lsh(one, uint(n.BitLen()+64+r.Intn(700))))), "-huge"
	case 11:
		return big.NewInt(int64(2 + r.Intn(9))), "small"
	case 12:
		return big.NewInt(-int64(2 + r.Intn(9))), "-small"
	case 13:
		return new(big.Int).Lsh(one, uint(r.Intn(n.BitLen()+10))), "2^k"
	case 14:
		return new(big.Int).Mul(n, r.BigNZ(n)), "multiple of n"
	}
	return r.BigNZ(n), "random"
}

func zvExecC13(e *zvEngine) {
	name := e.plan.Cfg.EC
	gs := []group.Group{zvGroup(name), zvGroup(name)}
	n := new(big.Int).Set(gs[0].N())
	p := new(big.Int).Set(gs[0].P())
	mg := &zvTG{"model", n}
	_, modp := zvPrimes[name]
	basis := map[string]func() group.Element{} // unknown logarithms, rebuilt when needed
	syms := 0
	const nShared = 5
	var shared [nShared]zvReg
	rr := zvNewRNG(e.plan.Sched, 71)
	ref := func(m *zvTE) string { return m.String() }
	lab := func(k string) string { return k }
	_ = lab
	mapTo := func(g group.Group, s string) group.Element {
		x, err := g.Element().MapToGroup(s)
		if err != nil {
			panic(err)
		}
		return x
	}
	e.oracle(func() {
		for i := range shared {
			g := gs[i%2]
			switch {
			case i == 0:
				shared[i] = zvReg{g.Generator(), mg.Generator().(*zvTE)}
			case i == 1 && rr.Chance(1, 2):
				shared[i] = zvReg{g.Identity(), mg.Identity().(*zvTE)}
			case i == 2 && !modp:
				s := fmt.Sprintf("shared %d", rr.Intn(50))
				shared[i] = zvReg{mapTo(g, s), &zvTE{mg, map[string]*big.Int{"#" + s: big.NewInt(1)}}}
				basis["#"+s] = func() group.Element { return mapTo(gs[0], s) }
			default:
				v, _ := zvScalarFor(name, rr, n)
				shared[i] = zvReg{g.Element().BaseScale(v), mg.Element().BaseScale(v).(*zvTE)}
			}
		}
	})
	// value compares a register with the model, using own arithmetic.
	value := func(r zvReg) string {
		c := zvCanon(name, r.e)
		if strings.HasPrefix(c, "!") {
			return c
		}
		known := true
		for k := range r.m.c {
			if k != "" {
				known = false
			}
		}
		s := r.m.c[""]
		if s == nil {
			s = new(big.Int)
		}
		if known {
			if w := zvRef(name, s); c != "" && w != c {
				return fmt.Sprintf("is %s, must be %s", zvShortErr(c), zvShortErr(w))
			}
		}
		x := gs[0].Element().BaseScale(s)
		for _, k := range zvCoefKeys(r.m) {
			if k != "" {
				y := gs[0].Element().Scale(basis[k](), r.m.c[k])
				x = gs[0].Element().Add(x, y)
			}
		}
		if !x.IsEqual(r.e) || zvEl(x) != zvEl(r.e) {
			return "differs from what the group gives"
		}
		if r.e.IsIdentity() != (len(r.m.c) == 0) {
			return fmt.Sprintf("IsIdentity says %v", r.e.IsIdentity())
		}
		return ""
	}
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		rng := zvNewRNG(st.S, 72)
		const nOwn = 5
		var own [nOwn]zvReg
		t := e.spawn(fmt.Sprintf("ops%d", i), st.At, st.S, nil, st.Kill, func(t *zvTask) {
			g := gs[int(st.B)%2]
			var hist []string
			bad := func(class, f string, a ...any) {
				h := hist
				if len(h) > 6 {
					h = h[len(h)-6:]
				}
				e.fail(class, "%s: %s (task %d, operation %d; last operations: %s)", name, fmt.Sprintf(f, a...), i, len(hist), strings.Join(h, "; "))
			}
			for j := range own { // registers start with a value of their own
				a := shared[rng.Intn(nShared)]
				x := g.Element()
				x.Set(a.e)
				own[j] = zvReg{x, a.m}
			}
			src := func() (zvReg, string) {
				if rng.Chance(1, 3) {
					k := rng.Intn(nShared)
					return shared[k], fmt.Sprint("s", k)
				}
				k := rng.Intn(nOwn)
				return own[k], fmt.Sprint("r", k)
			}
			snap := func() []string {
				var l []string
				for _, r := range own {
					l = append(l, zvEl(r.e))
				}
				for _, r := range shared {
					l = append(l, zvEl(r.e))
				}
				return l
			}
			for k := int64(0); k < st.A && e.vio == nil; k++ {
				var before []string
				e.oracle(func() { before = snap() })
				d := rng.Intn(nOwn)
				a, an := src()
				b, bn := src()
				if rng.Chance(1, 15) { // an element of another group among the operands
					e.oracle(func() {
						op, refused, after := zvForeign(name, rng, own[d].e, a.e)
						e.eval(name, "foreign", op, refused)
						if !refused {
							bad("mixed-groups", "r%d.%s with an element of another group is not refused", d, op)
						}
						if !zvQuiet(func() { after = snap() }) {
							after = nil
						}
						if e.vio == nil && strings.Join(after, " ") != strings.Join(before, " ") {
							bad("operand-changed", "r%d.%s with an element of another group is refused but changes an element", d, op)
						}
					})
					continue
				}
				if rng.Chance(1, 3) {
					a, an = own[d], fmt.Sprint("r", d)
				}
				if rng.Chance(1, 4) {
					b, bn = own[d], fmt.Sprint("r", d)
				}
				if rng.Chance(1, 6) { // a fresh receiver, which has no value yet
					own[d].e = g.Element()
				}
				rc := own[d].e
				s, sn := zvScalarC13(rng, n)
				if rng.Chance(1, 20) {
					s, sn = g.N(), "N()"
				}
				s0 := new(big.Int).Set(s)
				var m group.Element
				mm := func() *zvTE { return &zvTE{mg, nil} }
				var ret group.Element
				var buf []byte // what was decoded
				op := rng.Pick("Add", "Add", "Add", "Subtract", "Subtract", "Negate", "Scale", "Scale", "BaseScale", "Set", "Set", "SetBytes", "UnmarshalBinary", "UnmarshalJSON", "MapToGroup", "Generator", "Identity", "Random")
				if op == "MapToGroup" && modp {
					op = "Set"
				}
				desc := ""
				switch op {
				case "Add":
					m = mm().Add(a.m, b.m)
					desc = fmt.Sprintf("r%d.Add(%s,%s)", d, an, bn)
					hist = append(hist, desc)
					ret = rc.Add(a.e, b.e)
				case "Subtract":
					m = mm().Subtract(a.m, b.m)
					desc = fmt.Sprintf("r%d.Subtract(%s,%s)", d, an, bn)
					hist = append(hist, desc)
					ret = rc.Subtract(a.e, b.e)
				case "Negate":
					m = mm().Negate(a.m)
					desc = fmt.Sprintf("r%d.Negate(%s)", d, an)
					hist = append(hist, desc)
					ret = rc.Negate(a.e)
				case "Scale":
					m = mm().Scale(a.m, s0)
					desc = fmt.Sprintf("r%d.Scale(%s,%s)", d, an, sn)
					hist = append(hist, desc)
					ret = rc.Scale(a.e, s)
				case "BaseScale":
					m = mm().BaseScale(s0)
					desc = fmt.Sprintf("r%d.BaseScale(%s)", d, sn)
					hist = append(hist, desc)
					ret = rc.BaseScale(s)
				case "Set":
					m = mm().Set(a.m)
					desc = fmt.Sprintf("r%d.Set(%s)", d, an)
					hist = append(hist, desc)
					ret = rc.Set(a.e)
				case "SetBytes", "UnmarshalBinary", "UnmarshalJSON":
					m = mm().Set(a.m)
					desc = fmt.Sprintf("r%d.%s(%s)", d, op, an)
					hist = append(hist, desc)
					var err error
					if op == "UnmarshalJSON" {
						var js []byte
						if js, err = a.e.MarshalJSON(); err == nil {
							err = rc.UnmarshalJSON(js)
							buf = js
						}
					} else {
						var bs []byte
						if bs, err = a.e.MarshalBinary(); err == nil {
							buf = bs
							if op == "SetBytes" {
								rc.SetBytes(bs)
							} else {
								err = rc.UnmarshalBinary(bs)
							}
						}
					}
					if err != nil {
						bad("operation-fails", "%s: %v", desc, err)
						return
					}
					ret = rc
				case "MapToGroup":
					str := fmt.Sprintf("%s%d", rng.Pick("a", "seed", ""), rng.Intn(1000))
					m = &zvTE{mg, map[string]*big.Int{"#" + str: big.NewInt(1)}}
					basis["#"+str] = func() group.Element { return mapTo(gs[0], str) }
					desc = fmt.Sprintf("r%d=MapToGroup(%q)", d, str)
					hist = append(hist, desc)
					var err error
					if ret, err = rc.MapToGroup(str); err != nil {
						bad("operation-fails", "%s: %v", desc, err)
						return
					}
					own[d].e = ret
					rc = ret
				case "Generator":
					m = mm().BaseScale(big.NewInt(1))
					desc = fmt.Sprintf("r%d=Generator()", d)
					hist = append(hist, desc)
					own[d].e = g.Generator()
					rc, ret = own[d].e, own[d].e
				case "Identity":
					m = mm().BaseScale(new(big.Int))
					desc = fmt.Sprintf("r%d=Identity()", d)
					hist = append(hist, desc)
					own[d].e = g.Identity()
					rc, ret = own[d].e, own[d].e
				case "Random":
					desc = fmt.Sprintf("r%d=Random()", d)
					hist = append(hist, desc)
					own[d].e = g.Random()
					rc, ret = own[d].e, own[d].e
					syms++
					lb := fmt.Sprintf("#random%d", syms)
					m = &zvTE{mg, map[string]*big.Int{lb: big.NewInt(1)}}
					e.oracle(func() {
						enc, _ := rc.MarshalBinary()
						basis[lb] = func() group.Element {
							x := gs[0].Element()
							if err := x.UnmarshalBinary(enc); err != nil {
								panic(err)
							}
							return x
						}
					})
				}
				own[d].m = m.(*zvTE)
				e.oracle(func() {
					if !zvQuiet(func() {
						e.eval(name, op, d == zvRegNo(an), d == zvRegNo(bn), an == bn, sn, len(a.m.c), len(b.m.c))
						if ret == nil || !ret.IsEqual(rc) {
							bad("wrong-result", "%s does not return its receiver", desc)
							return
						}
						if s.Cmp(s0) != 0 {
							bad("operand-changed", "%s changes its scalar", desc)
							return
						}
						if sn != "N()" && op != "MapToGroup" { // the caller goes on using its own integer and buffer
							s.Xor(s, big.NewInt(0x155))
							for q := range buf {
								buf[q] ^= 0x5a
							}
							if op != "Random" {
								if w := value(own[d]); (sn != "huge" || rng.Chance(1, 4)) && w != "" && (op == "Scale" || op == "BaseScale" || buf != nil) {
									bad("wrong-result", "after %s and the caller changing what it passed, r%d %s", desc, d, w)
									return
								}
							}
						}
						after := snap()
						for q := range after {
							if q != d && after[q] != before[q] {
								nm := fmt.Sprint("r", q)
								if q >= nOwn {
									nm = fmt.Sprint("s", q-nOwn)
								}
								bad("operand-changed", "%s changes the element %s", desc, nm)
								return
							}
						}
						if rng.Chance(1, 4) || zvWeis[name] != nil && name != "k256" {
							if w := value(own[d]); w != "" {
								bad("wrong-result", "after %s r%d %s", desc, d, w)
								return
							}
						}
						// equality, string forms
						o, on := src()
						eq := ref(o.m) == ref(own[d].m)
						if x := own[d].e.IsEqual(o.e); x != eq {
							bad("wrong-equality", "after %s r%d.IsEqual(%s) is %v", desc, d, on, x)
						} else if x := o.e.IsEqual(own[d].e); x != eq {
							bad("wrong-equality", "after %s %s.IsEqual(r%d) is %v", desc, on, d, x)
						} else if x := own[d].e.String() == o.e.String(); x != eq {
							bad("wrong-equality", "after %s the string forms of r%d and %s are equal: %v", desc, d, on, x)
						} else if own[d].e.IsIdentity() != (len(own[d].m.c) == 0) {
							bad("wrong-equality", "after %s r%d.IsIdentity() is %v", desc, d, own[d].e.IsIdentity())
						} else if own[d].e.GroupOrder().Cmp(n) != 0 || own[d].e.FieldOrder().Cmp(p) != 0 || g.N().Cmp(n) != 0 || g.P().Cmp(p) != 0 {
							bad("group-changed", "after %s the orders of the group are different", desc)
						}
					}) && e.vio == nil {
						bad("operation-fails", "after %s reading the elements panics", desc)
					}
				})
			}
			e.oracle(func() {
				if !zvQuiet(func() {
					for j := range own {
						if w := value(own[j]); w != "" {
							bad("wrong-result", "at the end r%d %s", j, w)
							return
						}
					}
				}) && e.vio == nil {
					bad("operation-fails", "at the end reading the elements panics")
				}
			})
		})
		t.onEnd = func(t *zvTask) {
			if t.panicV != nil {
				e.fail("operation-fails", "%s: an operation panics: %s", name, t.panicText())
			}
		}
	}
	e.run()
	if e.vio != nil {
		return
	}
	e.oracle(func() {
		for i := range shared {
			if w := value(shared[i]); w != "" {
				e.fail("operand-changed", "%s: the shared element s%d %s", name, i, w)
				return
			}
		}
		for k := range gs {
			if zvCanon(name, gs[k].Generator()) != zvRef(name, big.NewInt(1)) || !gs[k].Identity().IsIdentity() {
				e.fail("group-changed", "%s: the generator or identity of the group is different afterwards", name)
			}
		}
	})
}

// Safe primes of the same lengths as those of the groups of these names.
var zvOtherPrimes = map[string]string{
	"m200": "f92ad39062b18673f0ca431071e7ce5e888812953782d19ba7",
	"m256": "f87b1e619f908ccef63649aca5769ade0b9846803dd595b5ac2ff44ea003a6a3",
	"m264": "c9c2d3444e1f71917c8b848be546bae04cb48febf3b4b69031a0c336a44a2914ff",
	"m512": "f2169d7151b3a32f3d4d74112fd0a88df271260e962f6460d8da6116e430704cd114824fee35506ab83476f0ae8e6a67d7bf344a08a7527f091ca15a2fb8257f",
}

// zvForeign performs an operation in which one operand is of another group. It must be refused.
func zvForeign(name string, r *zvRNG, rc, a group.Element) (op string, refused bool, _ []string) {
	other := name
	for other == name {
		other = r.Pick("p256", "k256", "r255", "p384", "m256", "m200", "m264", "m512")
	}
	og := zvGroup(other)
	if p, ok := zvOtherPrimes[name]; ok && r.Chance(1, 2) { // alike, but for the prime
		other = "other prime"
		og = group.NewModPGroup(r.Pick(name, "other"), p, "4")
	}
	f := og.Element().BaseScale(big.NewInt(int64(r.PickInt(0, 1, 1, 2, 77))))
	op = r.Pick("Add(a,"+other+")", "Add("+other+",a)", "Subtract(a,"+other+")", "Subtract("+other+",a)", "Negate("+other+")", "Scale("+other+")", "Set("+other+")", "IsEqual("+other+")")
	same := false
	done := zvQuiet(func() {
		switch {
		case strings.HasPrefix(op, "Add(a"):
			rc.Add(a, f)
		case strings.HasPrefix(op, "Add"):
			rc.Add(f, a)
		case strings.HasPrefix(op, "Subtract(a"):
			rc.Subtract(a, f)
		case strings.HasPrefix(op, "Subtract"):
			rc.Subtract(f, a)
		case strings.HasPrefix(op, "Negate"):
			rc.Negate(f)
		case strings.HasPrefix(op, "Scale"):
			rc.Scale(f, big.NewInt(3))
		case strings.HasPrefix(op, "Set"):
			rc.Set(f)
		default:
			same = rc.IsEqual(f)
		}
	})
	if strings.HasPrefix(op, "IsEqual") {
		return op, !done || !same, nil
	}
	return op, !done, nil
}

func zvRegNo(s string) int {
	if len(s) > 1 && s[0] == 'r' {
		return int(s[1] - '0')
	}
	return -1
}

func zvCoefKeys(m *zvTE) []string {
	var ks []string
	for k := range m.c {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}
