//go:build go1.22

package main

// The simulator core: one integer decides everything. A plan (steps, configuration, schedule
// seed) is derived from the seed; executing a plan is a pure function of the plan and the code.

import (
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/takakv/msc-poc/zzverif/vsim"
)

// ---- pseudo-random numbers -------------------------------------------------------------

type zvRNG struct{ s uint64 }

func zvMix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func zvNewRNG(parts ...uint64) *zvRNG {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = zvMix(s ^ zvMix(p))
	}
	return &zvRNG{s}
}
func zvStrSeed(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }
func (r *zvRNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *zvRNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *zvRNG) Range(lo, hi int) int     { return lo + r.Intn(hi-lo+1) }
func (r *zvRNG) Chance(num, den int) bool { return r.Intn(den) < num }
func (r *zvRNG) Pick(xs ...string) string { return xs[r.Intn(len(xs))] }
func (r *zvRNG) PickInt(xs ...int) int    { return xs[r.Intn(len(xs))] }
func (r *zvRNG) Sub() uint64              { return r.U64() }
func (r *zvRNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// Big returns a uniform integer in [0, max).
func (r *zvRNG) Big(max *big.Int) *big.Int {
	n := (max.BitLen() + 7) / 8
	v := new(big.Int).SetBytes(r.Bytes(n + 8))
	return v.Mod(v, max)
}

// BigNZ returns a uniform integer in [1, max).
func (r *zvRNG) BigNZ(max *big.Int) *big.Int {
	v := r.Big(new(big.Int).Sub(max, big.NewInt(1)))
	return v.Add(v, big.NewInt(1))
}

// ---- plans -----------------------------------------------------------------------------

// zvFault is one fault of the entropy source: it applies to reads At..At+Count-1.
type zvFault struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"` // err eof part short zero-n zeros ones pat
	Count int    `json:"count,omitempty"`
	Pat   string `json:"pat,omitempty"` // hex
}

// zvDel is the fate of one copy of a message.
type zvDel struct {
	To     int    `json:"to"`
	Delay  int64  `json:"delay"` // simulated microseconds
	Mem    bool   `json:"mem,omitempty"`
	Tamper string `json:"tamper,omitempty"`
	S      uint64 `json:"s,omitempty"`
	Kill   int64  `json:"kill,omitempty"` // the receiving task dies after that many yields
	Again  int    `json:"again,omitempty"`
}

type zvStep struct {
	K      string    `json:"k"`
	At     int64     `json:"at"` // simulated microseconds
	Node   int       `json:"node,omitempty"`
	S      uint64    `json:"s,omitempty"` // sub-seed
	A      int64     `json:"a,omitempty"`
	B      int64     `json:"b,omitempty"`
	C      int64     `json:"c,omitempty"`
	Str    string    `json:"str,omitempty"`
	Kill   int64     `json:"kill,omitempty"`
	Faults []zvFault `json:"faults,omitempty"`
	Del    []zvDel   `json:"del,omitempty"`
}

type zvCfg struct {
	EC    string `json:"ec"`
	FF    string `json:"ff"`
	Lo    int    `json:"lo"`
	Hi    int    `json:"hi"`
	Bc    int    `json:"bc"`
	N     int    `json:"n"`
	Nodes int    `json:"nodes"`
	Str   string `json:"str,omitempty"`
}

type zvPlan struct {
	Prop    string   `json:"prop"`
	Seed    uint64   `json:"seed"`
	Index   int      `json:"index"`
	Cfg     zvCfg    `json:"cfg"`
	Cfg2    *zvCfg   `json:"cfg2,omitempty"` // another election in the same process
	Sched   uint64   `json:"sched"`
	Quantum int      `json:"quantum"`          // mean yields between preemptions, 0: never preempt
	Budget  int      `json:"budget"`           // preemptions before tasks run to completion
	Target  int      `json:"target,omitempty"` // preemptions at two chosen statements
	Steps   []zvStep `json:"steps"`
}

func (p *zvPlan) clone() *zvPlan {
	q := *p
	q.Steps = append([]zvStep(nil), p.Steps...)
	return &q
}

// ---- violations and statistics ---------------------------------------------------------

type zvViolation struct {
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
}

type zvStats struct {
	Runs      int               `json:"runs"`
	Steps     int               `json:"steps"`
	Evals     int               `json:"evals"`
	Yields    int64             `json:"yields"`
	Preempts  int               `json:"preempts"`
	SimMicros int64             `json:"sim_micros"`
	Faults    map[string]int    `json:"faults"`
	Probes    map[string]int    `json:"probes"`
	Cases     map[uint64]int    `json:"-"`
	Inter     map[uint64]int    `json:"-"`
	CaseKeys  []uint64          `json:"case_keys"`
	InterKeys []uint64          `json:"inter_keys"`
	Samples   []string          `json:"samples"`
	Digests   map[string]string `json:"digests"`
	History   uint64            `json:"history"` // sum over the runs of a hash of what happened in each
	Reached   []int             `json:"reached"` // statements of the code under test
	reached   map[int]bool
}

func zvNewStats() *zvStats {
	return &zvStats{Faults: map[string]int{}, Probes: map[string]int{}, Cases: map[uint64]int{}, Inter: map[uint64]int{}, Digests: map[string]string{}, reached: map[int]bool{}}
}

// ---- entropy ---------------------------------------------------------------------------

type zvEntropy struct {
	src    *mrand.ChaCha8
	reads  int
	failed int
	faults []zvFault
	log    []string // hex of each successful read, when keep is set
	keep   bool
	bytes  int
	flip   int // 1 + position of the byte of the stream that differs in its lowest bit
}

func zvNewEntropy(seed uint64, faults []zvFault) *zvEntropy {
	var k [32]byte
	r := zvNewRNG(seed, 0xe17)
	copy(k[:], r.Bytes(32))
	return &zvEntropy{src: mrand.NewChaCha8(k), faults: faults}
}

var zvErrEntropy = errors.New("simulated entropy failure")

func (e *zvEntropy) read(p []byte) (int, error) {
	i := e.reads
	e.reads++
	e.src.Read(p)
	for _, f := range e.faults {
		c := f.Count
		if c == 0 {
			c = 1
		}
		if i < f.At || i >= f.At+c || len(p) == 0 {
			continue
		}
		if zvCur != nil {
			zvCur.eng.stats.Faults["entropy/"+f.Kind]++
		}
		switch f.Kind {
		case "err":
			e.failed++
			for j := range p {
				p[j] = 0
			}
			return 0, zvErrEntropy
		case "eof":
			e.failed++
			for j := range p {
				p[j] = 0
			}
			return 0, io.EOF
		case "part":
			e.failed++
			for j := len(p) / 2; j < len(p); j++ {
				p[j] = 0
			}
			e.bytes += len(p) / 2
			return len(p) / 2, zvErrEntropy
		case "short":
			n := 1 + len(p)/3
			if n > len(p) {
				n = len(p)
			}
			for j := n; j < len(p); j++ {
				p[j] = 0
			}
			e.bytes += n
			return n, nil
		case "zero-n":
			for j := range p {
				p[j] = 0
			}
			return 0, nil
		case "zeros":
			for j := range p {
				p[j] = 0
			}
		case "ones":
			for j := range p {
				p[j] = 0xff
			}
		case "low": // a small value: only the last byte is non-zero
			b := p[len(p)-1]
			for j := range p {
				p[j] = 0
			}
			p[len(p)-1] = b | 1
		case "lead": // a value with leading zero bytes
			for j := 0; j < len(p)/4+1; j++ {
				p[j] = 0
			}
		case "pat":
			b, _ := hex.DecodeString(f.Pat)
			if len(b) == len(p) {
				copy(p, b)
			} else if len(b) < len(p) {
				for j := range p {
					p[j] = 0
				}
				copy(p[len(p)-len(b):], b)
			}
		}
	}
	if f := e.flip - 1 - e.bytes; e.flip > 0 && f >= 0 && f < len(p) {
		p[f] ^= 1
	}
	if e.keep {
		e.log = append(e.log, hex.EncodeToString(p))
	}
	e.bytes += len(p)
	return len(p), nil
}

type zvReader struct{}

var zvReaderMu sync.Mutex
var zvIdle = zvNewEntropy(99, nil)

func (zvReader) Read(p []byte) (int, error) {
	zvReaderMu.Lock()
	defer zvReaderMu.Unlock()
	if zvMainReader != nil && vsim.Enabled {
		zvMainReader(p, zvMainSrc)
		return len(p), nil
	}
	e := zvIdle
	t := zvCur
	if t != nil && t.ent != nil && vsim.Enabled {
		e = t.ent
		if t.eng.read != nil {
			t.eng.read(t)
		}
		if e.reads > t.readCap {
			panic(zvStuck{fmt.Sprintf("more than %d reads of the entropy source", t.readCap)})
		}
	}
	return e.read(p)
}

// ---- tasks and scheduler ---------------------------------------------------------------

type zvStuck struct{ what string }

type zvTask struct {
	eng     *zvEngine
	name    string
	id      int
	at      int64
	ent     *zvEntropy
	fn      func(t *zvTask)
	resume  chan bool // false: die
	started bool
	done    bool
	blocked bool
	died    bool
	panicV  any
	stack   string
	yields  int64
	cap     int64
	readCap int
	killAt  int64
	killPt  bool
	held    int
	onEnd   func(t *zvTask)
}

var zvCur *zvTask

type zvEngine struct {
	plan   *zvPlan
	rng    *zvRNG // schedule
	stats  *zvStats
	tasks  []*zvTask
	now    int64
	budget int
	yield  chan *zvTask
	trace  []string
	vio    *zvViolation
	ihash  uint64
	chash  uint64 // the sequence of evaluations
	mem    map[string]any
	serial bool
	nextID int
	last   *zvTask
	hit    bool            // the running task stopped at a chosen statement
	pause  func(t *zvTask) // called by a task when it is preempted
	read   func(t *zvTask) // called by a task when it reads entropy
	after  func()          // invariant, called by the scheduler between tasks
}

func zvNewEngine(p *zvPlan, st *zvStats) *zvEngine {
	vsim.Count, vsim.Held = 0, 0
	vsim.SetClock(0)
	zvIdle = zvNewEntropy(99, nil)
	e := &zvEngine{plan: p, rng: zvNewRNG(p.Sched, 7), stats: st, budget: p.Budget,
		yield: make(chan *zvTask), ihash: 1469598103934665603, mem: map[string]any{}, serial: zvSerial}
	e.aim()
	return e
}

// aim chooses two statements at which tasks are preempted, preferably ones that touch state
// that tasks may share.
func (e *zvEngine) aim() {
	vsim.T1, vsim.T2 = 0, 0
	left := e.plan.Target
	if left <= 0 || e.serial || vsim.Sites < 2 {
		return
	}
	r := zvNewRNG(e.plan.Sched, 11)
	pick := func() int {
		if len(vsim.Hot) > 0 && r.Chance(1, 2) {
			return vsim.Hot[r.Intn(len(vsim.Hot))]
		}
		return 1 + r.Intn(vsim.Sites-1)
	}
	vsim.T1, vsim.T2 = pick(), pick()
	gap := 1 << uint(r.Intn(10))
	skip := 0
	vsim.AtTarget = func() bool {
		if zvCur == nil || left <= 0 {
			return false
		}
		if skip > 0 {
			skip--
			return false
		}
		left--
		skip = r.Intn(gap)
		e.hit = true
		return true
	}
}

// zvSerial: the build is not instrumented, tasks run to completion one after the other.
var zvSerial bool

func (e *zvEngine) logf(f string, a ...any) {
	if len(e.trace) < 400 {
		e.trace = append(e.trace, fmt.Sprintf("t=%dus ", e.now)+fmt.Sprintf(f, a...))
	}
}
func (e *zvEngine) fail(class, f string, a ...any) {
	if e.vio == nil {
		e.vio = &zvViolation{Class: class, Msg: fmt.Sprintf(f, a...)}
		e.logf("VIOLATION %s: %s", class, e.vio.Msg)
	}
}
func (e *zvEngine) probe(s string) { e.stats.Probes[s]++ }
func (e *zvEngine) fault(s string) { e.stats.Faults[s]++ }
func (e *zvEngine) eval(key ...any) {
	e.stats.Evals++
	if len(key) > 0 {
		k := zvStrSeed(fmt.Sprintf("%v", key))
		if e.stats.Cases[k] == 0 && len(e.stats.Samples) < 12 && e.stats.Evals%7 == 1 {
			s := fmt.Sprintf("%v", key)
			if len(s) > 200 {
				s = s[:200]
			}
			e.stats.Samples = append(e.stats.Samples, s)
		}
		e.stats.Cases[k]++
		e.chash = zvMix(e.chash ^ k)
	}
}

// oracle runs f outside the simulation: no yields, no simulated entropy.
func (e *zvEngine) oracle(f func()) {
	old := vsim.Enabled
	vsim.Enabled = false
	defer func() { vsim.Enabled = old }()
	f()
}

// spawn adds a task that becomes runnable at simulated time at.
func (e *zvEngine) spawn(name string, at int64, seed uint64, faults []zvFault, kill int64, fn func(t *zvTask)) *zvTask {
	t := &zvTask{eng: e, name: name, id: e.nextID, at: at, ent: zvNewEntropy(seed, faults), fn: fn,
		resume: make(chan bool), cap: zvStepCap, readCap: 6000, killAt: kill}
	e.nextID++
	e.tasks = append(e.tasks, t)
	return t
}

const zvStepCap = 30_000_000

func (t *zvTask) body() {
	defer func() {
		if r := recover(); r != nil {
			t.panicV = r
			t.stack = string(debug.Stack())
		}
		vsim.Enabled = false
		t.done = true
		t.eng.yield <- t
	}()
	vsim.Enabled = true
	t.fn(t)
}

// zvSwitch is called by the running task when its quantum is used up.
func zvSwitch() {
	t := zvCur
	if t == nil {
		vsim.Left = 1 << 40
		return
	}
	if t.eng.pause != nil {
		t.eng.pause(t)
	}
	t.eng.yield <- t
	if !<-t.resume {
		vsim.Enabled = false
		t.died = true
		runtime.Goexit()
	}
}
func zvBlock() {
	t := zvCur
	if t == nil {
		panic("blocked outside a task")
	}
	t.blocked = true
	zvSwitch()
}

// run executes all tasks until none is left.
func (e *zvEngine) run() {
	vsim.Switch, vsim.Block = zvSwitch, zvBlock
	defer func() { vsim.Enabled = false; zvCur = nil }()
	idle := 0
	for e.vio == nil {
		// Runnable tasks in order of id.
		var ready []*zvTask
		next := int64(-1)
		live := e.tasks[:0]
		for _, t := range e.tasks {
			if t.done {
				continue
			}
			live = append(live, t)
			if t.at <= e.now {
				ready = append(ready, t)
			} else if next < 0 || t.at < next {
				next = t.at
			}
		}
		e.tasks = live
		if len(live) == 0 {
			break
		}
		if len(ready) == 0 {
			e.now = next
			continue
		}
		sort.SliceStable(ready, func(i, j int) bool { return ready[i].id < ready[j].id })
		unblocked := ready[:0:0]
		for _, t := range ready {
			if !t.blocked {
				unblocked = append(unblocked, t)
			}
		}
		pool := unblocked
		if len(pool) == 0 {
			pool = ready
			idle++
			if idle > 2000 {
				if next >= 0 {
					e.now = next
					idle = 0
					continue
				}
				e.fail("deadlock", "no task can make progress: %s", ready[0].name)
				break
			}
		} else {
			idle = 0
		}
		t := pool[e.rng.Intn(len(pool))]
		hit := e.hit
		e.hit = false
		if hit && t == e.last && len(pool) > 1 {
			for t == e.last {
				t = pool[e.rng.Intn(len(pool))]
			}
		}
		e.last = t
		if len(pool) > 1 {
			e.ihash = zvMix(e.ihash ^ uint64(t.id)*31 ^ uint64(t.yields)<<8)
		}
		q := int64(1) << 50
		if e.plan.Quantum > 0 && e.budget > 0 && (len(live) > 1 || e.pause != nil) && !e.serial && !(hit && e.rng.Chance(3, 4)) {
			q = 1 + int64(e.rng.Intn(2*e.plan.Quantum))
			if e.rng.Chance(1, 8) {
				q = 1 + int64(e.rng.Intn(4))
			}
		}
		if t.killAt > 0 && t.yields+q > t.killAt {
			q = t.killAt - t.yields
			if q < 1 {
				q = 1
			}
		}
		if t.cap-t.yields < q {
			q = t.cap - t.yields
		}
		e.exec(t, q)
		if t.done {
			// A task that ended may have released what others wait for.
			for _, o := range e.tasks {
				o.blocked = false
			}
		}
		if e.after != nil && e.vio == nil {
			e.oracle(e.after)
		}
	}
	// Let unfinished tasks die.
	for _, t := range e.tasks {
		if t.started && !t.done {
			zvCur = t
			vsim.Held = 0
			t.resume <- false
			<-e.yield
			zvCur = nil
		}
	}
	e.stats.Inter[e.ihash]++
	e.stats.SimMicros += e.now
	e.chash = zvMix(e.chash ^ e.ihash ^ uint64(e.now)<<20)
}

func (e *zvEngine) exec(t *zvTask, q int64) {
	die := false
	if t.started && t.killAt > 0 && t.yields >= t.killAt && t.held == 0 {
		die = true
	}
	zvCur = t
	vsim.Left, vsim.Held = q, t.held
	before := vsim.Count
	wasBlocked := t.blocked
	t.blocked = false
	if !t.started {
		t.started = true
		go t.body()
	} else {
		vsim.Enabled = true
		t.resume <- !die
	}
	<-e.yield
	vsim.Enabled = false
	zvCur = nil
	t.held = vsim.Held
	ran := vsim.Count - before
	t.yields += ran
	e.now += ran
	e.stats.Yields += ran
	if t.blocked && !wasBlocked || !t.blocked {
		// progress: others may be able to run
		if !t.blocked {
			for _, o := range e.tasks {
				if o != t {
					o.blocked = false
				}
			}
		}
	}
	if t.done {
		if t.died {
			e.fault("task-death")
			e.logf("task %s died after %d yields", t.name, t.yields)
		}
		if s, ok := t.panicV.(zvStuck); ok {
			e.logf("task %s stuck: %s", t.name, s.what)
		}
		if t.onEnd != nil {
			t.onEnd(t)
		}
		return
	}
	if t.yields >= t.cap {
		e.fail("no-progress", "%s has not finished after %d statements", t.name, t.yields)
		return
	}
	if t.killAt > 0 && t.yields >= t.killAt {
		return // dies at its next turn
	}
	e.stats.Preempts++
	if e.hit {
		e.stats.Probes["preempted at a chosen statement"]++
		e.logf("task %s preempted at a chosen statement after %d yields", t.name, t.yields)
	} else if e.budget > 0 {
		e.budget--
	}
}

// zvPanicText gives the panic value and the first frames of the system in its stack.
func (t *zvTask) panicText() string {
	if t.panicV == nil {
		return ""
	}
	var fr []string
	for _, l := range strings.Split(t.stack, "\n") {
		if strings.Contains(l, "takakv/msc-poc") && !strings.HasPrefix(l, "\t") && !strings.Contains(l, "zv") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			fr = append(fr, l[strings.LastIndex(l, "/")+1:])
		}
	}
	if len(fr) > 4 {
		fr = fr[:4]
	}
	return fmt.Sprintf("%v [%s]", t.panicV, strings.Join(fr, " < "))
}

func zvInstallSeams() {
	rand.Reader = zvReader{}
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		zvStdout = os.Stdout
		os.Stdout = f
	}
}

var zvStdout = os.Stdout
