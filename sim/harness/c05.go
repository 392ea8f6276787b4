//go:build go1.22

package main

// C05: shared parameters and ballots are never modified; verdicts are repeatable.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C05", gen: zvGenC05, exec: zvExecC05, quick: 400, deep: 80000,
		rule:   "one evaluation is one comparison of all shared objects with their initial content at a scheduling or crash point, or one repeated verdict compared with the first; distinct cases differ in group, kind of activity and whether the point is a preemption, an end or a death of a task",
		reals:  []string{"castVote, encryptVote, bulletproofs Prove/Verify/MultiProve, voteproof Prove/Verify, verifyVote, JSON coding, all groups, over one shared set of parameters"},
		stubs:  []string{"scheduling (statement-level preemption), task deaths, entropy, network"},
		assume: []string{"code outside the repository (curve libraries) runs without preemption", "values are compared through their encodings"},
	})
}

func zvGenC05(r *zvRNG, idx int, tier string) *zvPlan {
	cs := []string{"p256", "r255", "k256", "p384", "tg"}
	p := &zvPlan{Cfg: zvElection(r, cs, 3)}
	c := &p.Cfg
	if c.EC == "tg" && c.FF == "setup" {
		c.FF, c.Bc = "m512", 128
	}
	if c.N >= 16 && c.FF != "setup" && r.Chance(2, 3) {
		c.N = r.PickInt(2, 4, 8)
		if c.Hi-c.Lo >= 1<<uint(c.N) {
			c.Hi = c.Lo + 1<<uint(c.N) - 1
		}
	}
	c.Nodes = 1
	p.Quantum = r.PickInt(10, 60, 300, 3000)
	p.Budget = r.PickInt(30, 120, 500)
	cold := int64(r.Intn(2)) // nothing has been verified before the concurrent part
	for i := 0; i < 2; i++ {
		p.Steps = append(p.Steps, zvStep{K: "base", S: r.Sub(), A: -1, B: cold})
	}
	if r.Chance(2, 3) {
		p.Steps = append(p.Steps, zvStep{K: "altered", S: r.Sub(), Str: zvAlterKinds[r.Intn(len(zvAlterKinds))]})
	}
	if r.Chance(1, 2) {
		p.Steps = append(p.Steps, zvStep{K: "altered", S: r.Sub(), Str: "unreduced", B: int64(r.Intn(4))})
	}
	n := r.Range(4, 9)
	for i := 0; i < n; i++ {
		st := zvStep{At: int64(r.Intn(300)), S: r.Sub(), A: int64(r.Intn(3))}
		st.K = r.Pick("cast", "cast", "mem", "mem", "mem", "json", "encode", "range", "multi", "sigma", "bad", "inner", "setup", "decode-into", "scribble", "elsewhere", "elsewhere")
		if r.Chance(1, 4) {
			st.Kill = int64(r.Range(1, 6000))
		}
		if r.Chance(1, 8) && st.K == "cast" {
			st.Faults = []zvFault{{At: r.Intn(60), Kind: r.Pick("err", "eof", "part"), Count: 1000}}
		}
		p.Steps = append(p.Steps, st)
	}
	// afterwards, alone
	for i := 0; i < 3; i++ {
		p.Steps = append(p.Steps, zvStep{K: "mem", At: 50_000_000_000 + int64(i)*1_000_000, A: int64(i)})
	}
	return p
}

type zvShared struct {
	name string
	snap func() zvContent
	base zvContent
	dig  string
}

type zvWatch struct {
	e    *zvEngine
	objs []*zvShared
	n    int
}

func (w *zvWatch) add(name string, snap func() zvContent) {
	o := &zvShared{name: name, snap: snap}
	w.e.oracle(func() {
		o.base = snap()
		o.dig = o.base.digest(true)
	})
	w.objs = append(w.objs, o)
}

// check compares all shared objects with what they were.
func (w *zvWatch) check(when string) {
	w.e.oracle(func() {
		for _, o := range w.objs {
			var c zvContent
			if !zvQuiet(func() { c = o.snap() }) {
				w.e.fail("modified", "%s can no longer be read %s", o.name, when)
				return
			}
			if c.digest(true) != o.dig {
				w.e.fail("modified", "%s has changed %s: %s", o.name, when, o.base.diff(c, true))
				return
			}
		}
	})
}

func zvExecC05(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	pp := w.nodes[0].pp
	nff, nec := pp.FFGroupParams.N, pp.ECGroupParams.N
	wt := &zvWatch{e: e}
	wt.add("the public parameters", func() zvContent { return zvPPContent(&pp) })

	type shared struct {
		bd      BallotData
		js      []byte
		verdict map[string]bool
		what    string
	}
	var pool []*shared
	verdict := func(s *shared, way string, got bool, when string) {
		e.eval(w.cfg.EC, "verdict", way, when, s.what)
		if want, ok := s.verdict[way]; ok && want != got {
			e.fail("verdict-changed", "%s/%s: verifying the same ballot (%s, %s) gives %v, earlier it gave %v (%s)", w.cfg.EC, w.cfg.FF, s.what, way, got, want, when)
		}
		s.verdict[way] = got
	}
	spawned := 0
	run := func(st zvStep, name string, fn func(t *zvTask), end func(ok bool)) {
		done := false
		t := e.spawn(name, st.At, st.S, st.Faults, st.Kill, func(t *zvTask) { fn(t); done = true })
		spawned++
		t.onEnd = func(t *zvTask) {
			kind := "end"
			if t.died {
				kind = "death"
			} else if t.panicV != nil {
				kind = "failure"
			}
			wt.check(fmt.Sprintf("at the %s of %s after %d statements", kind, name, t.yields))
			e.eval(w.cfg.EC, w.cfg.FF == "setup", st.K, kind)
			if t.panicV != nil && len(st.Faults) == 0 && st.K != "bad" && st.K != "decode-into" {
				e.fail("operation-fails", "%s/%s: %s panics next to other activity: %s", w.cfg.EC, w.cfg.FF, name, t.panicText())
			}
			if end != nil && e.vio == nil {
				end(done)
			}
		}
	}
	cold := false
	share := func(bd BallotData, what string) {
		s := &shared{bd: bd, what: what, verdict: map[string]bool{}}
		e.oracle(func() { s.js = zvBallotJSON(&bd) })
		pool = append(pool, s)
		wt.add("ballot "+what, func() zvContent { return zvBallotContent(&s.bd, nff, nec, true) })
		if cold {
			return
		}
		// the first verdict, alone
		st := zvStep{K: "first"}
		run(st, "first verification", func(t *zvTask) {
			ok, _ := verifyVote(s.bd, pp.RPParams)
			s.verdict["mem"] = ok
			v, _ := zvCollectJSON(s.js, pp)
			s.verdict["json"] = v.accepted
			ok, _ = s.bd.BpLower.Verify()
			s.verdict["range"] = ok
		}, nil)
		e.run()
	}
	phase2 := false
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		if e.vio != nil {
			return
		}
		if st.K == "base" && st.B == 1 {
			cold = true
			if i > 0 {
				continue
			}
			var bds []BallotData
			for j := range e.plan.Steps {
				if b := e.plan.Steps[j]; b.K == "base" {
					b.At = 0
					run(b, fmt.Sprintf("casting%d", j), func(t *zvTask) {
						bd := zvCastAny(pp, int(b.A))
						bds = append(bds, bd)
					}, nil)
				}
			}
			e.run()
			for _, bd := range bds {
				if e.vio == nil {
					share(bd, fmt.Sprintf("honest%d", len(pool)))
				}
			}
			continue
		}
		if st.K == "base" {
			var bd BallotData
			cast := false
			run(st, "casting", func(t *zvTask) { bd = zvCastAny(pp, int(st.A)); cast = true }, nil)
			e.run()
			if e.vio == nil && cast {
				share(bd, fmt.Sprintf("honest%d", len(pool)))
			}
			continue
		}
		if st.K == "altered" {
			if len(pool) < 2 {
				continue
			}
			var what string
			var bd BallotData
			e.oracle(func() {
				zvQuiet(func() {
					a := &zvBallot{bd: pool[0].bd, js: pool[0].js}
					b := &zvBallot{bd: pool[1].bd, js: pool[1].js}
					var js []byte
					if st.Str == "unreduced" { // the same scalars, written differently
						r := zvNewRNG(st.S, 42)
						var err error
						if bd, err = BallotDataUnmarshalJSON(a.js, pp); err != nil {
							return
						}
						for _, s := range zvSlots(&bd, &pp) {
							if s.s == nil || *s.s == nil || s.n == nil || st.B > 0 && !r.Chance(1, 4) {
								continue
							}
							k := int64(r.PickInt(1, -1, 1, 3, -5))
							*s.s = new(big.Int).Add(*s.s, new(big.Int).Mul(big.NewInt(k), s.g.N()))
						}
						what = "unreduced"
						return
					}
					what, bd, js = w.alter(st, a, b, pp)
					if js != nil {
						var err error
						if bd, err = BallotDataUnmarshalJSON(js, pp); err != nil {
							what = ""
						}
					}
				})
			})
			if what != "" {
				if what != "unreduced" {
					what = "altered"
				}
				share(bd, what)
			}
			continue
		}
		if len(pool) == 0 {
			return
		}
		if !phase2 {
			phase2 = true
			every := 1 + e.plan.Budget/40
			e.after = func() {
				if wt.n++; wt.n%every == 0 {
					wt.check("at a preemption")
					e.eval(w.cfg.EC, "preemption")
				}
			}
		}
		s := pool[int(st.A)%len(pool)]
		when := "concurrently"
		if st.At > 1_000_000_000 {
			when = "afterwards"
		}
		name := fmt.Sprintf("%s%d", st.K, i)
		switch st.K {
		case "cast":
			run(st, name, func(t *zvTask) { zvCastAny(pp, -1) }, nil)
		case "mem":
			var v [2]bool
			run(st, name, func(t *zvTask) {
				v[0], _ = verifyVote(s.bd, pp.RPParams)
				v[1], _ = verifyVote(s.bd, pp.RPParams)
			}, func(ok bool) {
				if ok {
					verdict(s, "mem", v[0], when)
					verdict(s, "mem", v[1], when)
					if strings.HasPrefix(s.what, "honest") && !v[1] {
						e.fail("verdict-changed", "%s/%s: an honest ballot is rejected (%s)", w.cfg.EC, w.cfg.FF, when)
					}
				}
			})
		case "json":
			var v zvVerdict
			run(st, name, func(t *zvTask) { v, _ = zvCollectJSON(s.js, pp) }, func(ok bool) {
				if ok {
					verdict(s, "json", v.accepted, when)
				}
			})
		case "range":
			var v bool
			run(st, name, func(t *zvTask) { v, _ = s.bd.BpLower.Verify(); s.bd.BpUpper.InnerProductProof.Verify() }, func(ok bool) {
				if ok {
					verdict(s, "range", v, when)
				}
			})
		case "inner":
			var a, b bool
			run(st, name, func(t *zvTask) {
				a, _ = s.bd.BpLower.InnerProductProof.Verify()
				b, _ = s.bd.BpLower.InnerProductProof.Verify()
			}, func(ok bool) {
				if ok {
					verdict(s, "inner", a, when)
					verdict(s, "inner", b, when)
				}
			})
		case "encode":
			var b []byte
			run(st, name, func(t *zvTask) { b, _ = json.Marshal(&s.bd) }, func(ok bool) {
				if ok && string(b) != string(s.js) {
					e.fail("encoding-changed", "%s/%s: encoding the same ballot (%s) again gives other bytes", w.cfg.EC, w.cfg.FF, s.what)
				}
			})
		case "multi":
			var a, b, first bool
			run(st, name, func(t *zvTask) {
				m := 1
				if pp.BPParams.N >= 4 {
					m = 2
				}
				vs := make([]*big.Int, m)
				for j := range vs {
					vs[j] = big.NewInt(int64(j))
				}
				mp, _, err := bulletproofs.MultiProve(vs, pp.BPParams)
				if err != nil {
					return
				}
				first, _ = mp.Verify()
				before := ""
				e.oracle(func() { var c zvContent; c.multi("", &mp, nec, true); before = c.digest(true) })
				a, _ = mp.Verify()
				b, _ = mp.Verify()
				e.oracle(func() {
					var c zvContent
					c.multi("", &mp, nec, true)
					if c.digest(true) != before {
						e.fail("modified", "an aggregated proof is changed by its verification")
					}
				})
			}, func(ok bool) {
				if ok && (a != first || b != first) {
					e.fail("verdict-changed", "%s: verifying the same aggregated proof gives %v, then %v, then %v", w.cfg.EC, first, a, b)
				}
			})
		case "sigma":
			run(st, name, func(t *zvTask) {
				x := big.NewInt(int64(w.cfg.Lo))
				rr := zvNewRNG(st.S, 5)
				voteproof.Prove(x, rr.BigNZ(nff), rr.BigNZ(nec), rr.BigNZ(nec), pp.RPParams)
			}, nil)
		case "bad":
			var js []byte
			e.oracle(func() {
				js, _ = zvDamage(s.js, zvDamageKinds[int(st.S%uint64(len(zvDamageKinds)))], 1, zvNewRNG(st.S, 9), pp)
			})
			run(st, name, func(t *zvTask) { zvCollectJSON(js, pp) }, nil)
		case "setup":
			run(st, name, func(t *zvTask) { bulletproofs.Setup(int64(1)<<uint(w.cfg.N), pp.BPParams.GP) }, nil)
		case "elsewhere": // the same process also serves another election
			rr := zvNewRNG(st.S, 77)
			cfg := zvElection(rr, []string{"p256", "r255", "k256", "p384", "tg"}, 0)
			if rr.Chance(1, 2) { // which differs in the candidates or in the challenge only
				cfg = w.cfg
				cfg.Lo = rr.Intn(65536 - (cfg.Hi - cfg.Lo))
				cfg.Hi = cfg.Lo + rr.Intn(w.cfg.Hi-w.cfg.Lo+1)
				if cfg.FF == "setup" {
					cfg.FF, cfg.Bc = "m264", 96
				} else if cfg.Bc > 104 {
					cfg.Bc -= 8
				}
			} else if cfg.N > 8 {
				cfg.N = 4
				cfg.Hi = cfg.Lo + (cfg.Hi-cfg.Lo)%16
			}
			var v [2]bool
			run(st, name, func(t *zvTask) {
				p2, err := zvMakePP(cfg)
				if err != nil {
					panic(err)
				}
				bd := zvCastAny(p2, -1)
				var js []byte
				e.oracle(func() { js = zvBallotJSON(&bd) })
				v[0] = zvVerify(bd, p2)
				x, _ := zvCollectJSON(js, p2)
				v[1] = x.accepted
			}, func(ok bool) {
				if ok && (!v[0] || !v[1]) {
					e.fail("verdict-changed", "%s/%s: an honest ballot of another election (%s/%s, candidates %d..%d) in the same process is rejected (in memory %v, sent %v)", w.cfg.EC, w.cfg.FF, cfg.EC, cfg.FF, cfg.Lo, cfg.Hi, v[0], v[1])
				}
			})
		case "scribble": // the owner of a ballot goes on computing with its parts
			var own BallotData
			run(st, name, func(t *zvTask) {
				if st.S%2 == 0 {
					own = zvCastAny(pp, -1)
				} else if b, err := BallotDataUnmarshalJSON(s.js, pp); err == nil {
					own = b
				}
				e.oracle(func() { zvQuiet(func() { zvScribble(reflect.ValueOf(&own), 0) }) })
			}, nil)
		case "decode-into": // decoding into elements the group hands out
			run(st, name, func(t *zvTask) {
				rr := zvNewRNG(st.S, 6)
				g := pp.ECGroupParams.I
				if rr.Chance(1, 3) {
					g = pp.FFGroupParams.I
				}
				src := g.Element().BaseScale(rr.BigNZ(g.N()))
				if rr.Chance(1, 2) {
					src = g.Identity()
				}
				dst := g.Generator()
				if rr.Chance(1, 3) {
					dst = g.Identity()
				}
				if js, err := src.MarshalJSON(); err == nil {
					dst.UnmarshalJSON(js)
				}
				if b, err := src.MarshalBinary(); err == nil {
					g.Generator().UnmarshalBinary(b)
					g.Identity().SetBytes(b)
				}
				dst.Add(dst, src)
			}, nil)
		}
	}
	e.run()
	if e.vio == nil {
		wt.check("at the end")
	}
}

// zvScribble changes every element and every integer of a ballot in place, but for the
// parameters, which it shares with others.
func zvScribble(v reflect.Value, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case group.Element:
			if x != nil && !(v.Kind() == reflect.Pointer && v.IsNil()) {
				x.Add(x, x)
			}
			return
		case *big.Int:
			if x != nil {
				x.Add(x, big.NewInt(1))
			}
			return
		case group.Group:
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		zvScribble(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			zvScribble(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && f.Name != "Params" {
				zvScribble(v.Field(i), depth+1)
			}
		}
	}
}
