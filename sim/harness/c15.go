//go:build go1.22

package main

// C15: reported proving and verification times are the time the work took.

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/takakv/msc-poc/zzverif/vsim"
)

func init() {
	zvRegister(&zvScenario{
		prop: "C15", gen: zvGenC15, exec: zvExecC15, quick: 900, deep: 60000,
		rule:   "one evaluation is one cast or verification with the times it reports, or one block of the benchmark's report; distinct cases differ in groups, operation, verdict and where the work was slow",
		reals:  []string{"castVote, verifyVote, main and everything they use"},
		stubs:  []string{"both clocks (simulated; work and waiting advance the monotonic one, adjustments the wall clock)", "entropy source (seeded, slow at chosen reads)", "scheduling", "in part of the runs the groups are transparent", "the benchmark's iteration count is lowered to 2"},
		assume: []string{"one statement takes a microsecond, stalls take milliseconds to minutes"},
	})
}

func zvGenC15(r *zvRNG, idx int, tier string) *zvPlan {
	p := &zvPlan{}
	if idx%150 == 7 {
		p.Cfg = zvCfg{EC: "main", FF: "main"}
		p.Steps = []zvStep{{K: "main", S: r.Sub(), A: int64(r.PickInt(4, 20, 60)), B: int64(r.PickInt(20000, 200000))}}
		return p
	}
	c := &p.Cfg
	if r.Chance(1, 4) {
		*c = zvElection(r, zvCurves, 4)
	} else {
		c.EC, c.FF = r.Pick("tg", "tg384"), r.Pick("tf384", "m320")
		c.N = r.PickInt(1, 2, 4, 8, 16)
		c.Lo = r.Intn(60000)
		if c.Hi = c.Lo + r.Range(0, 1<<uint(c.N)-1); c.Hi > 65535 {
			c.Hi = 65535
		}
		c.Bc = r.PickInt(96, 128, 176)
	}
	c.Nodes = 1
	p.Quantum = r.PickInt(100, 2000, 20000)
	p.Budget = r.PickInt(5, 40, 200)
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		p.Steps = append(p.Steps, zvStep{K: "cast", At: int64(r.Intn(3000)), S: r.Sub(), A: int64(r.PickInt(2, 5, 20, 60)), B: int64(r.PickInt(0, 1, 2, 3))})
	}
	for i := r.Intn(4); i > 0; i-- {
		p.Steps = append(p.Steps, zvStep{K: "clock", At: int64(r.Intn(60000)), A: int64(r.PickInt(-1, 1)) * int64(r.Intn(1<<52))})
	}
	return p
}

var zvWork = []struct {
	name string
	re   *regexp.Regexp
}{
	{"encrypt", regexp.MustCompile(`\.encryptVote$`)},
	{"prove", regexp.MustCompile(`/bulletproofs\.Prove$|/voteproof\.Prove$`)},
	{"bp", regexp.MustCompile(`/bulletproofs\.\(?\*?BulletProof\)?\.Verify$`)},
	{"sigma", regexp.MustCompile(`/voteproof\.\(?\*?SigmaProof\)?\.Verify$`)},
	{"caster", regexp.MustCompile(`\.castVote$`)},
	{"verifier", regexp.MustCompile(`\.verifyVote$`)},
}

// zvWhere says in which part of the work the caller is ("": none of them).
func zvWhere() string {
	var pcs [96]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fr.Next()
		for _, q := range zvWork {
			if q.re.MatchString(f.Function) {
				return q.name
			}
		}
		if !more {
			return ""
		}
	}
}

// zvMeter keeps, for one operation, how long it was slow in which part.
type zvMeter struct {
	sync.Mutex
	start int64
	slow  map[string]int64
	rng   *zvRNG
	one   int // a read is slow once in so many times
}

func (m *zvMeter) stall(often int) {
	m.Lock()
	defer m.Unlock()
	if !m.rng.Chance(1, often) {
		return
	}
	d := int64(m.rng.PickInt(1, 30, 900, 45000)) * 1e6
	d += int64(m.rng.Intn(1000000))
	if w := zvWhere(); w != "" {
		m.slow[w] += d
	}
	vsim.Advance(d)
	if m.rng.Chance(1, 4) {
		vsim.JumpWall(int64(m.rng.PickInt(-1, 1)) * int64(m.rng.Intn(1<<50)))
	}
}

func zvExecC15(e *zvEngine) {
	if e.plan.Cfg.EC == "main" {
		for _, st := range e.plan.Steps {
			zvMainRun(e, st)
		}
		return
	}
	w := zvNewWorld(e)
	if !w.ok {
		return
	}
	meters := map[*zvTask]*zvMeter{}
	e.pause = func(t *zvTask) {
		if m := meters[t]; m != nil {
			m.stall(3)
			e.fault("slow-node")
		}
	}
	e.read = func(t *zvTask) {
		if m := meters[t]; m != nil {
			m.stall(m.one)
			e.fault("slow-entropy")
		}
	}
	for i := range e.plan.Steps {
		st := e.plan.Steps[i]
		switch st.K {
		case "clock":
			t := e.spawn("clock", st.At, 1, nil, 0, func(*zvTask) {})
			t.onEnd = func(*zvTask) { zvClockJump(e, st.A) }
		case "cast":
			e.spawn(fmt.Sprint("voter", i), st.At, st.S, nil, 0, func(t *zvTask) { w.timed(t, meters, i, st) })
		}
	}
	e.run()
	e.stats.SimMicros += vsim.Clock() / 1000
}

// timed casts a ballot and verifies it and altered copies, and judges the times reported.
func (w *zvWorld) timed(t *zvTask, meters map[*zvTask]*zvMeter, i int, st zvStep) {
	e, pp := w.e, w.nodes[0].pp
	m := &zvMeter{rng: zvNewRNG(st.S, 15), one: int(st.A)}
	meters[t] = m
	defer delete(meters, t)
	begin := func() { m.start, m.slow = vsim.Mono(), map[string]int64{} }
	name := func(op string) string { return fmt.Sprintf("%s/%s: %s", w.cfg.EC, w.cfg.FF, op) }

	begin()
	bd, d := castVote(pp)
	total := vsim.Mono() - m.start
	w.judgeTime(name("casting"), "making the proofs", int64(d), m.slow["prove"], total-m.slow["encrypt"], m.slow, total)
	e.eval(w.cfg.EC, w.cfg.FF, "cast", m.slow["prove"] > 0, m.slow["encrypt"] > 0)

	for k := 0; k < 3 && e.vio == nil; k++ {
		b := bd
		how := "its ballot"
		switch {
		case k == 0:
		case k == 2 && st.B == 0:
			how = "its ballot again"
		case st.B <= 1:
			how = "an altered ballot (bounds swapped)"
			b.BpLower, b.BpUpper = b.BpUpper, b.BpLower
		case st.B == 2:
			how = "an altered ballot (response)"
			b.VoteProof.Sp = new(big.Int).Add(b.VoteProof.Sp, big.NewInt(1))
		default:
			how = "an altered ballot (upper t')"
			b.BpUpper.Tprime = new(big.Int).Add(b.BpUpper.Tprime, big.NewInt(1))
		}
		begin()
		ok, ts := verifyVote(b, pp.RPParams)
		total := vsim.Mono() - m.start
		e.eval(w.cfg.EC, w.cfg.FF, how, ok, m.slow["bp"] > 0, m.slow["sigma"] > 0)
		if len(ts) != 2 {
			e.fail("times-missing", "%s %s reports %d times", name("verifying"), how, len(ts))
			continue
		}
		bp, sg := int64(ts[0]), int64(ts[1])
		if !ok {
			if bp < 0 || sg < 0 || bp > total || sg > total || !zvSerial && bp+sg > total {
				e.fail("impossible-time", "%s %s reports %v and %v, but took %v", name("verifying"), how, ts[0], ts[1], time.Duration(total))
			}
			continue
		}
		otherB, otherS := m.slow["bp"], m.slow["sigma"]
		if zvSerial { // the parts may run at the same time
			otherB, otherS = 0, 0
		}
		w.judgeTime(name("verifying")+" "+how, "verifying the range proofs", bp, m.slow["bp"], total-otherS, m.slow, total)
		w.judgeTime(name("verifying")+" "+how, "verifying the cross-group proof", sg, m.slow["sigma"], total-otherB, m.slow, total)
		if !zvSerial && bp+sg > total {
			e.fail("impossible-time", "%s %s reports %v and %v, but took %v in all", name("verifying"), how, ts[0], ts[1], time.Duration(total))
		}
	}
}

func (w *zvWorld) judgeTime(who, what string, got, min, max int64, slow map[string]int64, total int64) {
	if got < min || got > max || got < 0 {
		w.e.fail("wrong-time", "%s reports %v for %s, which is not within %v and %v (slow parts %v, all %v)",
			who, time.Duration(got), what, time.Duration(min), time.Duration(max), slow, time.Duration(total))
	}
}

// ---- the benchmark program -------------------------------------------------------------

// zvMainChild runs the benchmark on simulated clocks and marks in its output how slow it was where.
func zvMainChild(seed uint64, one, quantum int) {
	m := &zvMeter{rng: zvNewRNG(seed, 16), slow: map[string]int64{}}
	mark := func(often int) {
		m.slow = map[string]int64{}
		m.stall(often)
		for k, v := range m.slow {
			fmt.Fprintf(os.Stdout, "\x01%s %d\n", k, v)
		}
	}
	var key [32]byte
	binary.LittleEndian.PutUint64(key[:], seed)
	zvMainReader = func(p []byte, src *mrand.ChaCha8) {
		src.Read(p)
		mark(one)
	}
	zvMainSrc = mrand.NewChaCha8(key)
	os.Stdout = zvStdout
	vsim.SetClock(0)
	vsim.Block = func() { panic("blocked outside a task") }
	vsim.Left = int64(quantum)
	vsim.Switch = func() {
		vsim.Left = int64(quantum)
		mark(2)
	}
	vsim.Enabled = true
	zzOrigMain()
	vsim.Enabled = false
	for s, hit := range vsim.Hit {
		if hit {
			fmt.Fprintf(os.Stdout, "\x02%d\n", s)
		}
	}
}

var (
	zvMainReader func(p []byte, src *mrand.ChaCha8)
	zvMainSrc    *mrand.ChaCha8
)

func zvMainRun(e *zvEngine, st zvStep) {
	cmd := exec.Command(zvExe(), "-benchmark", fmt.Sprintf("%d,%d,%d", st.S, st.A, st.B))
	if zvSerial {
		cmd.Args = append(cmd.Args, "-serial")
	}
	var eb strings.Builder
	cmd.Stderr = &zvLimited{&eb, 1 << 14}
	so, err := cmd.StdoutPipe()
	zvDie(err)
	zvDie(cmd.Start())
	late := false
	timer := time.AfterFunc(90*time.Second, func() { late = true; cmd.Process.Kill() })
	type block struct {
		slow   map[string]int64
		report map[string]time.Duration
		ok     string
		name   string
	}
	var bs []*block
	sc := bufio.NewScanner(so)
	sc.Buffer(make([]byte, 1<<16), 1<<22)
	for sc.Scan() {
		l := sc.Text()
		if len(l) > 1 && l[0] == 2 {
			var s int
			if fmt.Sscan(l[1:], &s); s > 0 && s < len(vsim.Hit) {
				vsim.Hit[s] = true
			}
			continue
		}
		if i := strings.IndexByte(l, 1); i >= 0 {
			var k string
			var v int64
			fmt.Sscanf(l[i+1:], "%s %d", &k, &v)
			if len(bs) > 0 {
				bs[len(bs)-1].slow[k] += v
			}
			continue
		}
		k, v, _ := strings.Cut(l, ":")
		v = strings.TrimSpace(v)
		switch {
		case strings.HasPrefix(k, "Generating public parameters"):
			bs = append(bs, &block{slow: map[string]int64{}, report: map[string]time.Duration{}, name: v})
		case len(bs) == 0:
		case k == "Votes were correctly formed":
			bs[len(bs)-1].ok = v
		case strings.HasPrefix(k, "Prove time"), strings.HasPrefix(k, "Verify time"):
			if d, err := time.ParseDuration(v); err == nil {
				bs[len(bs)-1].report[k] = d
			}
		}
	}
	err = cmd.Wait()
	timer.Stop()
	if late {
		e.probe("benchmark too long, not judged")
		return
	}
	e.fault("slow-node")
	if err != nil {
		e.fail("benchmark-fails", "the benchmark program ends with %v: %s", err, zvShortErr(eb.String()))
		return
	}
	for _, b := range bs {
		if b.ok == "" {
			continue
		}
		e.eval("main", b.name, st.A, st.B)
		if b.ok != "true" {
			e.fail("benchmark-verdict", "the benchmark says of honest ballots in %s that they were correctly formed: %s", b.name, b.ok)
			return
		}
		k := time.Duration(vsim.MainIters)
		if k == 0 {
			continue
		}
		judge := func(line, around string, parts ...string) {
			min := int64(0)
			for _, q := range parts {
				min += b.slow[q]
			}
			got, ok := b.report[line]
			// What is not in a slow place takes no more than seconds.
			lo, hi := time.Duration(min)/k, time.Duration(min+b.slow[around])/k+5*time.Second
			if ok && (got < lo-10 || got > hi) {
				e.fail("benchmark-time", "%s: the benchmark reports \"%s: %v\", the work took %v to %v on average", b.name, line, got, lo, hi)
			}
		}
		judge("Prove time", "caster", "prove")
		judge("Verify time BP", "verifier", "bp")
		judge("Verify time RP", "verifier", "sigma")
		judge("Verify time total", "verifier", "bp", "sigma")
	}
	if len(bs) > 0 {
		e.probe("benchmark reports judged")
	}
}
