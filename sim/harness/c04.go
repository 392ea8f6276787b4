//go:build go1.22

package main

// C04: malformed messages never crash the collector or disturb other ballots.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/voteproof"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C04", gen: zvGenC04, exec: zvExecC04, quick: 600, deep: 80000,
		rule:   "one evaluation is one message processed by one collector task: malformed (decode and verdict), or honest before, during or after malformed ones; distinct cases differ in group, kind of damage and damaged field",
		reals:  []string{"BallotDataUnmarshalJSON, BallotUnmarshalJSON, BulletProofUnmarshalJSON, ProofUnmarshalJSON, verifyVote, castVote, all group implementations"},
		stubs:  []string{"network (damages messages), node lifecycle, scheduling, entropy, clock"},
		assume: []string{"integers up to about 5000 bits and vectors up to a few thousand entries; larger ones only cost time", "a message that decodes to exactly the content of an honest ballot may be accepted however its bytes look"},
	})
}

func zvGenC04(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{Cfg: zvElection(r, zvCurves, 4)}
	if p.Cfg.FF != "setup" && p.Cfg.N >= 16 && r.Chance(1, 2) { // most runs are about decoding
		p.Cfg.N = 4
		if p.Cfg.Hi-p.Cfg.Lo > 15 {
			p.Cfg.Hi = p.Cfg.Lo + 15
		}
	}
	if p.Cfg.Nodes > 2 {
		p.Cfg.Nodes = 2
	}
	p.Quantum = r.PickInt(0, 40, 400, 4000)
	p.Budget = r.PickInt(20, 200, 1000)
	cast := func(at int64) {
		p.Steps = append(p.Steps, zvStep{K: "cast", At: at, Node: r.Intn(p.Cfg.Nodes), S: r.Sub(), A: -1,
			Del: []zvDel{{To: r.Intn(p.Cfg.Nodes), Delay: int64(r.Intn(200000))}}})
	}
	cast(0)
	n := r.Range(6, 14)
	for i := 0; i < n; i++ {
		st := zvStep{K: "bad", At: 200000 + int64(r.Intn(150000)), Node: r.Intn(p.Cfg.Nodes), S: r.Sub(), A: int64(r.Range(1, 3))}
		st.Str = zvDamageKinds[(idx*3+i)%len(zvDamageKinds)]
		if r.Chance(1, 4) {
			st.K = "part"
			st.Str = r.Pick("ballot", "lbProof", "voteProof", "element")
		}
		if r.Chance(1, 10) {
			st.Kill = int64(r.Range(1, 3000))
		}
		p.Steps = append(p.Steps, st)
	}
	p.Steps = append(p.Steps, zvStep{K: "again", At: 260000, Node: r.Intn(p.Cfg.Nodes)})
	cast(250000)
	// after everything
	p.Steps = append(p.Steps, zvStep{K: "again", At: 40_000_000_000, Node: 0})
	cast(40_000_000_000)
	return p
}

func zvExecC04(e *zvEngine) {
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	var base *zvBallot
	contents := map[string]bool{}
	nff, nec := w.nodes[0].pp.FFGroupParams.N, w.nodes[0].pp.ECGroupParams.N
	judge := func(b *zvBallot, d zvDel, v zvVerdict) {
		w.honestVerdict(b, d, v)
		if e.vio != nil {
			e.vio.Class = "honest-disturbed"
		}
	}
	first := true
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		nd := w.nodes[st.Node%len(w.nodes)]
		switch st.K {
		case "cast":
			w.castStep(i, st, judge)
			if first {
				first = false
				e.run()
				if e.vio != nil {
					return
				}
				if base = w.ballots[i]; base == nil {
					return
				}
				e.oracle(func() {
					c := zvBallotContent(&base.bd, nff, nec, false)
					contents[c.digest(false)] = true
				})
			}
		case "again":
			if base != nil {
				w.deliver(base, zvDel{To: st.Node}, st.At, judge)
			}
		case "bad":
			if base == nil {
				continue
			}
			var js []byte
			var what string
			e.oracle(func() { js, what = zvDamage(base.js, st.Str, int(st.A), zvNewRNG(st.S, 41), nd.pp) })
			e.fault("message/" + st.Str)
			var v zvVerdict
			var bd BallotData
			done := false
			t := e.spawn(fmt.Sprintf("collect-bad%d", i), st.At, 3, nil, st.Kill, func(t *zvTask) {
				v, bd = zvCollectJSON(js, nd.pp)
				done = true
			})
			t.onEnd = func(t *zvTask) {
				if t.panicV != nil {
					e.fail("panic", "%s/%s: a malformed message (%s) makes the collector panic: %s", w.cfg.EC, w.cfg.FF, what, t.panicText())
					return
				}
				if !done {
					return
				}
				e.eval(w.cfg.EC, w.cfg.FF == "setup", st.Str, zvDamageClass(what))
				e.probe(fmt.Sprintf("bad decoded=%v accepted=%v", v.decoded, v.accepted))
				if v.accepted {
					e.oracle(func() {
						if !zvQuiet(func() {
							c := zvBallotContent(&bd, nff, nec, false)
							if !contents[c.digest(false)] {
								panic("changed")
							}
						}) {
							e.fail("malformed-accepted", "%s/%s: a malformed message (%s) is accepted although its content differs from every ballot cast", w.cfg.EC, w.cfg.FF, what)
						}
						if !json.Valid(js) {
							e.fail("malformed-accepted", "%s/%s: a message that is not JSON (%s) is accepted", w.cfg.EC, w.cfg.FF, what)
						}
					})
				}
			}
		case "part":
			if base == nil {
				continue
			}
			rng := zvNewRNG(st.S, 43)
			var js []byte
			var what string
			grp := ""
			e.oracle(func() {
				src := base.js
				kind := zvDamageKinds[rng.Intn(len(zvDamageKinds))]
				if st.Str == "element" {
					grp = rng.Pick("p256", "p384", "r255", "k256", "m256", "m3072")
					g := zvGroup(grp)
					el := g.Element().BaseScale(rng.Big(g.N()))
					if rng.Chance(1, 4) {
						el = g.Identity()
					}
					src = zvMustJSON(el)
				} else {
					src = zvSub(base.js, st.Str)
				}
				js, what = zvDamage(src, kind, int(st.A), rng, nd.pp)
				what = st.Str + " " + what
			})
			e.fault("message-part/" + st.Str)
			t := e.spawn(fmt.Sprintf("part%d", i), st.At, 3, nil, st.Kill, func(t *zvTask) {
				switch st.Str {
				case "ballot":
					BallotUnmarshalJSON(js, nd.pp.FFGroupParams.I)
				case "lbProof":
					if b, err := bulletproofs.BulletProofUnmarshalJSON(js, nd.pp.BPParams); err == nil {
						b.Verify()
					}
				case "voteProof":
					if b, err := voteproof.ProofUnmarshalJSON(js, nd.pp.FFGroupParams.I, nd.pp.ECGroupParams.I); err == nil {
						b.Params = nd.pp.RPParams
						b.Verify(voteproof.VerCommitments{Y: base.bd.Ballot.U, Xp: base.bd.Ballot.V, Xq1: base.bd.BpLower.V, Xq2: base.bd.BpUpper.V})
					}
				case "element":
					g := zvGroup(grp)
					if el := g.Element(); el.UnmarshalJSON(js) == nil {
						_ = el.String()
					}
					if el := g.Identity(); el.UnmarshalBinary(js) == nil {
						_ = el.String()
					}
					b, _ := g.Element().BaseScale(big.NewInt(int64(st.S >> 1))).MarshalBinary()
					b, _ = zvBytes(b, rng.Pick("flip", "truncate", "insert", "delete", "replace"), rng)
					if el := g.Generator(); el.UnmarshalBinary(b) == nil {
						_ = el.String()
					}
				}
			})
			t.onEnd = func(t *zvTask) {
				if t.panicV != nil {
					e.fail("panic", "%s/%s: decoding a malformed %s makes the decoder panic: %s", w.cfg.EC, w.cfg.FF, what, t.panicText())
					return
				}
				e.eval(w.cfg.EC, grp, st.Str, zvDamageClass(what))
			}
		}
	}
	e.run()
}

// zvDamageClass drops the indices from a description.
func zvDamageClass(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' {
			continue
		}
		b.WriteRune(c)
	}
	return b.String()
}

var zvDamageKinds = []string{"field", "truncate", "field", "flip", "point", "remove", "field", "length", "bytes", "number", "splice", "point", "whole"}

func zvBytes(b []byte, how string, r *zvRNG) ([]byte, string) {
	c := append([]byte(nil), b...)
	if len(c) == 0 {
		return []byte{0}, "insert"
	}
	i := r.Intn(len(c))
	n := r.PickInt(1, 1, 2, 8, 100)
	if i+n > len(c) {
		n = len(c) - i
	}
	switch how {
	case "flip":
		for k := r.PickInt(1, 1, 1, 2, 5); k > 0; k-- {
			c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
		}
	case "truncate":
		c = c[:i]
	case "insert":
		ins := r.Bytes(n)
		if r.Chance(1, 2) {
			for j := range ins {
				ins[j] = "0123456789{}[],:\"-+.eE ntf\\"[int(ins[j])%27]
			}
		}
		c = append(append(append([]byte{}, c[:i]...), ins...), c[i:]...)
	case "delete":
		c = append(c[:i], c[i+n:]...)
	case "duplicate":
		c = append(append(append([]byte{}, c[:i+n]...), c[i:i+n]...), c[i+n:]...)
	case "replace":
		for j := i; j < i+n; j++ {
			c[j] = byte(r.U64())
		}
	case "digit": // replace a digit by another
		for k := 0; k < 1000; k++ {
			j := r.Intn(len(c))
			if c[j] >= '0' && c[j] <= '9' {
				c[j] = byte('0' + (int(c[j]-'0')+r.Range(1, 9))%10)
				break
			}
		}
	case "zero":
		for j := i; j < len(c); j++ {
			c[j] = 0
		}
	}
	return c, how
}

// zvDamage makes a malformed message from a good one.
func zvDamage(js []byte, kind string, times int, r *zvRNG, pp PublicParameters) ([]byte, string) {
	switch kind {
	case "truncate":
		return zvBytes(js, "truncate", r)
	case "flip":
		return zvBytes(js, "flip", r)
	case "bytes":
		return zvBytes(js, r.Pick("insert", "delete", "duplicate", "replace", "digit", "digit", "digit", "zero"), r)
	case "whole":
		w := r.Intn(12)
		s := []string{"", "null", "{}", "[]", "0", "\"\"", "{\"ballot\":{}}", strings.Repeat("[", 15000), strings.Repeat("{\"a\":", 12000),
			string(js) + string(js), "[" + string(js) + "]", "\xef\xbb\xbf" + string(js)}[w]
		return []byte(s), fmt.Sprintf("whole %c", 'a'+w)
	}
	root := zvDeep(zvTree(js))
	if root == nil {
		return zvBytes(js, "flip", r)
	}
	what := kind
	for k := 0; k < times; k++ {
		var paths []zvPath
		var points []zvPath
		var lists []zvPath
		var nums []zvPath
		zvWalk(root, nil, func(p zvPath, v any) {
			if len(p) == 0 {
				return
			}
			// parameters carried by the message are only one target of many
			if strings.Contains(p.String(), "Params") && r.Intn(8) > 0 {
				return
			}
			paths = append(paths, p)
			switch x := v.(type) {
			case map[string]any:
				_, a := x["x"]
				_, b := x["y"]
				if a && b && len(x) == 2 {
					points = append(points, p)
				}
			case []any:
				lists = append(lists, p)
			case json.Number:
				nums = append(nums, p)
			case string:
				points = append(points, p)
			}
		})
		if len(points) == 0 {
			points = nums
		}
		pick := func(l []zvPath) zvPath {
			if len(l) == 0 {
				l = paths
			}
			if len(l) == 0 {
				return nil
			}
			return l[r.Intn(len(l))]
		}
		switch kind {
		case "field":
			p := pick(paths)
			v, d := zvJunk(zvGet(root, p), r)
			root = zvPut(root, p, v)
			what += " " + p.String() + "=" + d
		case "remove":
			p := pick(paths)
			if len(p) > 0 {
				root = zvDelete(root, p)
			}
			what += " " + p.String()
		case "number":
			p := pick(nums)
			v, d := zvNumber(zvGet(root, p), r, pp)
			root = zvPut(root, p, v)
			what += " " + p.String() + "=" + d
		case "point":
			p := pick(points)
			v, d := zvPointJunk(zvGet(root, p), r, pp)
			root = zvPut(root, p, v)
			what += " " + p.String() + "=" + d
		case "length":
			p := pick(lists)
			l, ok := zvGet(root, p).([]any)
			d := ""
			if ok {
				c := append([]any{}, l...)
				switch r.Intn(8) {
				case 0:
					c, d = []any{}, "empty"
				case 1:
					if len(c) > 0 {
						c = c[:len(c)-1]
					}
					d = "shorter"
				case 2:
					if len(c) > 0 {
						c = append(c, c[len(c)-1])
					}
					d = "longer"
				case 3:
					c, d = append(c, c...), "doubled"
				case 4:
					if len(c) > 0 {
						c = c[:r.Intn(len(c))]
					}
					d = "cut"
				case 5:
					for len(c) < 3000 && len(l) > 0 {
						c = append(c, l...)
					}
					d = "huge"
				case 6:
					c, d = append(c, nil), "null added"
				default:
					// L and R (or Gg and Hh) both
					d = "pair shorter"
					if len(p) > 0 && len(c) > 0 {
						if par, ok := zvGet(root, p[:len(p)-1]).(map[string]any); ok {
							for _, k := range []string{"L", "R"} {
								if x, ok := par[k].([]any); ok && len(x) > 0 {
									par[k] = x[:len(x)-1]
								}
							}
						}
						continue
					}
				}
				root = zvPut(root, p, c)
			}
			what += " " + p.String() + " " + d
		case "splice":
			p, q := pick(paths), pick(paths)
			root = zvPut(root, p, zvDeep(zvGet(root, q)))
			what += " " + p.String() + "<-" + q.String()
		}
		if root == nil {
			break
		}
	}
	return zvUntree(root), what
}

func zvJunk(old any, r *zvRNG) (any, string) {
	i := r.Intn(16)
	num := func(s string) any { return json.Number(s) }
	vals := []any{nil, true, "", "x", []any{}, map[string]any{}, num("0"), num("-1"), num("1"), num("1.5"), num("1e3"),
		num("1" + strings.Repeat("0", 1200)), num("-1" + strings.Repeat("0", 80)), []any{old}, map[string]any{"x": old, "y": old}, strings.Repeat("A", 5000)}
	names := []string{"null", "true", "empty string", "string", "list", "object", "zero", "minus one", "one", "fraction", "exponent", "huge", "negative", "in list", "in object", "long string"}
	return vals[i], names[i]
}

func zvNumber(old any, r *zvRNG, pp PublicParameters) (any, string) {
	n, ok := old.(json.Number)
	if !ok {
		return nil, "null"
	}
	v, ok := new(big.Int).SetString(n.String(), 10)
	if !ok {
		return nil, "null"
	}
	p, q, nn := pp.FFGroupParams.I.P(), pp.ECGroupParams.I.P(), pp.ECGroupParams.I.N()
	var o *big.Int
	d := ""
	switch r.Intn(13) {
	case 0:
		o, d = new(big.Int).Neg(v), "negated"
	case 1:
		o, d = new(big.Int).Add(v, big.NewInt(1)), "plus one"
	case 2:
		o, d = new(big.Int).Add(v, p), "plus p"
	case 3:
		o, d = new(big.Int).Add(v, q), "plus q"
	case 4:
		o, d = new(big.Int).Sub(v, q), "minus q"
	case 5:
		o, d = new(big.Int), "zero"
	case 6:
		o, d = p, "p"
	case 7:
		o, d = q, "q"
	case 8:
		o, d = nn, "order"
	case 9:
		o, d = new(big.Int).Lsh(v, uint(r.PickInt(1, 8, 256, 4000))), "shifted"
	case 10:
		o, d = new(big.Int).Sub(p, v), "p minus"
	case 11:
		o, d = new(big.Int).Lsh(big.NewInt(1), uint(r.PickInt(255, 256, 264, 384, 392, 512, 3072, 5000))), "power of two"
	default:
		o, d = r.Big(q), "random"
	}
	return json.Number(o.String()), d
}

func zvPointJunk(old any, r *zvRNG, pp PublicParameters) (any, string) {
	q := pp.ECGroupParams.I.P()
	switch x := old.(type) {
	case map[string]any:
		m := map[string]any{"x": x["x"], "y": x["y"]}
		num := func(b *big.Int) json.Number { return json.Number(b.String()) }
		get := func(k string) *big.Int {
			n, _ := m[k].(json.Number)
			v, ok := new(big.Int).SetString(n.String(), 10)
			if !ok {
				return new(big.Int)
			}
			return v
		}
		k := r.Pick("x", "y")
		switch r.Intn(14) {
		case 0:
			m[k] = num(new(big.Int).Add(get(k), big.NewInt(1)))
			return m, "off the curve"
		case 1:
			m[k] = num(new(big.Int))
			return m, k + " zero"
		case 2:
			m["x"], m["y"] = num(new(big.Int)), num(new(big.Int))
			return m, "identity"
		case 3:
			m[k] = num(new(big.Int).Add(get(k), q))
			return m, k + " plus q"
		case 4:
			m[k] = num(new(big.Int).Neg(get(k)))
			return m, k + " negated"
		case 5:
			m[k] = nil
			return m, k + " null"
		case 6:
			delete(m, k)
			return m, k + " missing"
		case 7:
			m["x"], m["y"] = m["y"], m["x"]
			return m, "swapped"
		case 8:
			m[k] = num(new(big.Int).Lsh(big.NewInt(1), uint(r.PickInt(255, 256, 257, 264, 384, 385, 392, 512, 4000))))
			return m, k + " too long"
		case 9:
			m[k] = "12"
			return m, k + " string"
		case 10:
			m["x"], m["y"] = num(r.Big(q)), num(r.Big(q))
			return m, "random"
		case 11:
			m[k] = num(q)
			return m, k + " q"
		case 12:
			m["y"] = num(new(big.Int).Sub(q, get("y")))
			return m, "opposite"
		default:
			m[k] = json.Number("1.0")
			return m, k + " fraction"
		}
	case string:
		switch r.Intn(9) {
		case 0:
			return "", "empty"
		case 1:
			return strings.Repeat("A", 43) + "=", "identity"
		case 2:
			return string(zvMustJSON(r.Bytes(32)))[1:45], "random"
		case 3:
			return x + "AAAA", "longer"
		case 4:
			if len(x) > 4 {
				return x[4:], "shorter"
			}
			return "AA==", "shorter"
		case 5:
			return strings.Repeat("/", 43) + "8=", "all ones"
		case 6:
			return "!!!!", "not base64"
		case 7:
			b, _ := zvBytes([]byte(x), "flip", r)
			return strings.ToValidUTF8(string(b), "?"), "flip"
		default:
			b, _ := zvBytes([]byte(x), "replace", r)
			return strings.ToValidUTF8(string(b), "?"), "replace"
		}
	case json.Number:
		return zvNumber(old, r, pp)
	}
	return nil, "null"
}
