//go:build go1.22

package main

// Command line:
//   sim -prop C01 -tier quick -seed 1 -out DIR -known FILE     run a check
//   sim -replay FILE                                           replay a violation
//   sim -worker k -of n ...                                    one worker (internal)
//   sim -exec FILE                                             execute one plan (internal)

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/takakv/msc-poc/zzverif/vsim"
)

type zvScenario struct {
	prop   string
	gen    func(r *zvRNG, idx int, tier string) *zvPlan
	exec   func(e *zvEngine)
	quick  int // number of runs
	deep   int
	rule   string
	reals  []string
	stubs  []string
	assume []string
}

var zvScenarios = map[string]*zvScenario{}

func zvRegister(s *zvScenario) { zvScenarios[s.prop] = s }

func zvGenPlan(s *zvScenario, seed uint64, idx int, tier string) *zvPlan {
	r := zvNewRNG(seed, zvStrSeed(s.prop), uint64(idx))
	ps := r.U64()
	p := s.gen(r, idx, tier)
	p.Prop, p.Seed, p.Index, p.Sched = s.prop, ps, idx, r.U64()
	if r.Chance(1, 2) {
		p.Target = r.PickInt(3, 12, 40)
	}
	return p
}

type zvKnown struct{ prop, class, match, text string }

var zvKnownList []zvKnown

func zvLoadKnown(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=ID class=CLASS match="SUBSTRING" text
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k zvKnown
		rest := strings.TrimPrefix(l, "known: ")
		for _, key := range []string{"property=", "class="} {
			rest = strings.TrimSpace(rest)
			if !strings.HasPrefix(rest, key) {
				continue
			}
			w := strings.Fields(rest)[0]
			if key == "property=" {
				k.prop = w[len(key):]
			} else {
				k.class = w[len(key):]
			}
			rest = rest[len(w):]
		}
		rest = strings.TrimSpace(rest)
		if strings.HasPrefix(rest, `match="`) {
			if i := strings.Index(rest[7:], `"`); i >= 0 {
				k.match = rest[7 : 7+i]
				rest = rest[7+i+1:]
			}
		}
		k.text = strings.TrimSpace(rest)
		if k.prop != "" && k.class != "" && k.match != "" {
			zvKnownList = append(zvKnownList, k)
		}
	}
}

func zvIsKnown(prop string, v *zvViolation) string {
	for _, k := range zvKnownList {
		if k.prop == prop && k.class == v.Class && strings.Contains(v.Msg, k.match) {
			return k.text
		}
	}
	return ""
}

// zvExecute runs one plan in this process.
func zvExecute(p *zvPlan, st *zvStats) *zvViolation {
	s := zvScenarios[p.Prop]
	e := zvNewEngine(p, st)
	func() {
		defer func() {
			if r := recover(); r != nil {
				// The checks panic on nothing the unchanged code does: what was read back from the
				// system had a shape that no honest or adversarial message has.
				fmt.Fprintf(os.Stderr, "plan %d of %s: %v\n%s\n", p.Index, p.Prop, r, debug.Stack())
				if e.vio == nil {
					e.vio = &zvViolation{Class: "unreadable", Msg: fmt.Sprintf("the check could not interpret what the code returned or published: %v", r)}
				}
			}
		}()
		s.exec(e)
	}()
	st.Runs++
	st.History += zvMix(e.chash ^ uint64(p.Index)<<40)
	st.Steps += len(p.Steps)
	if e.vio != nil {
		e.vio.Trace = e.trace
	}
	return e.vio
}

type zvResult struct {
	Stats *zvStats     `json:"stats"`
	Vio   *zvViolation `json:"vio,omitempty"`
	Plan  *zvPlan      `json:"plan,omitempty"`
	Known []string     `json:"known,omitempty"`
	Next  int          `json:"next"`
	Done  bool         `json:"done"`
	Log   []string     `json:"log,omitempty"`
}

type zvReplay struct {
	Property  string       `json:"property"`
	Seed      uint64       `json:"verif_seed"`
	Tier      string       `json:"tier"`
	Kind      string       `json:"kind"` // plan, or batch: the runs before it in the same process are needed too
	Plan      *zvPlan      `json:"plan,omitempty"`
	From      int          `json:"from,omitempty"`
	Of        int          `json:"of,omitempty"`
	Upto      int          `json:"upto,omitempty"`
	Violation *zvViolation `json:"violation"`
	Original  int          `json:"original_steps,omitempty"`
	Minimised int          `json:"minimised_steps,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	out := flag.String("out", "", "")
	known := flag.String("known", "", "")
	replay := flag.String("replay", "", "")
	execF := flag.String("exec", "", "")
	worker := flag.Int("worker", -1, "")
	life := flag.Int("life", 0, "")
	of := flag.Int("of", 1, "")
	upto := flag.Int("upto", -1, "")
	from := flag.Int("from", -1, "")
	count := flag.Int("count", 0, "")
	wall := flag.Int("wall", 0, "wall-clock budget in seconds")
	serial := flag.Bool("serial", false, "")
	logs := flag.Bool("logs", false, "")
	bench := flag.String("benchmark", "", "")
	gen := flag.Int("gen", -1, "")
	flag.Parse()
	zvSerial = *serial
	zvLoadKnown(*known)
	zvInstallSeams()

	switch {
	case *execF != "":
		b, err := os.ReadFile(*execF)
		zvDie(err)
		var p zvPlan
		zvDie(json.Unmarshal(b, &p))
		st := zvNewStats()
		v := zvExecute(&p, st)
		zvEmit(zvResult{Stats: st, Vio: v})
	case *gen >= 0:
		s := zvScenarios[*prop]
		b, _ := json.MarshalIndent(zvGenPlan(s, *seed, *gen, *tier), "", " ")
		fmt.Fprintln(zvStdout, string(b))
	case *worker >= 0:
		zvWorker(*prop, *tier, *seed, *worker, *of, *from, *count, *upto, *wall, *life, *logs)
	case *bench != "":
		var s uint64
		var one, quantum int
		fmt.Sscanf(*bench, "%d,%d,%d", &s, &one, &quantum)
		zvMainChild(s, one, quantum)
	case *replay != "":
		os.Exit(zvDoReplay(*replay))
	default:
		os.Exit(zvCheck(*prop, *tier, *seed, *out, *count, *wall, *known))
	}
}

func zvDie(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(2)
	}
}
func zvEmit(r zvResult) {
	if r.Stats != nil {
		for k := range r.Stats.Cases {
			r.Stats.CaseKeys = append(r.Stats.CaseKeys, k)
		}
		for k := range r.Stats.Inter {
			r.Stats.InterKeys = append(r.Stats.InterKeys, k)
		}
		for s, hit := range vsim.Hit {
			if hit && s > 0 {
				r.Stats.Reached = append(r.Stats.Reached, s)
			}
		}
	}
	b, err := json.Marshal(r)
	zvDie(err)
	fmt.Fprintf(zvStdout, "R %s\n", b)
}

func zvWorker(prop, tier string, seed uint64, k, of, from, count, upto, wall, life int, logs bool) {
	s := zvScenarios[prop]
	if s == nil {
		zvDie(fmt.Errorf("no scenario %q", prop))
	}
	start := time.Now()
	st := zvNewStats()
	res := zvResult{Stats: st}
	seen := map[string]bool{}
	if from < 0 {
		from = k
	}
	i := from
	res.Done = true
	for runs := 0; i < count+of; i += of {
		if runs++; life > 0 && runs > life {
			res.Done = false // the process ends here; the next one goes on
			break
		}
		idx := zvIndex(i, of)
		if idx >= count {
			continue
		}
		if upto >= 0 && i > upto {
			break
		}
		if wall > 0 && time.Since(start) > time.Duration(wall)*time.Second {
			break
		}
		fmt.Fprintf(zvStdout, "S %d\n", i)
		p := zvGenPlan(s, seed, idx, tier)
		v := zvExecute(p, st)
		if logs {
			vs := ""
			if v != nil {
				vs = v.Class + " " + v.Msg
			}
			res.Log = append(res.Log, fmt.Sprintf("%d yields=%d evals=%d %s", idx, st.Yields, st.Evals, vs))
		}
		if v != nil {
			if t := zvIsKnown(prop, v); t != "" {
				if !seen[t] {
					res.Known = append(res.Known, t)
				}
				seen[t] = true
				continue
			}
			res.Vio, res.Plan = v, p
			break
		}
	}
	res.Next = i
	zvEmit(res)
}

// zvIndex is the run at position i (worker i%of, its i/of-th run). It rotates the runs over the
// workers, so that no worker gets all runs of one kind.
func zvIndex(i, of int) int {
	return i/of*of + (i%of+i/of)%of
}

// zvLife is the number of runs after which worker k goes on in a fresh process (0: never). Some
// violations need a long history in one process, others happen only in a young one.
func zvLife(k, of, count int) int {
	if k%2 == 0 {
		return 0
	}
	n := count / of / 25
	if n < 4 {
		n = 4
	}
	if n > 60 {
		n = 60
	}
	return n
}

// zvSelf runs this binary again and returns its result; last is the last run it had started.
func zvSelf(limit time.Duration, args ...string) (res *zvResult, last int, errText string) {
	if zvSerial {
		args = append([]string{"-serial"}, args...)
	}
	cmd := exec.Command(zvExe(), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
	var eb strings.Builder
	cmd.Stderr = &zvLimited{&eb, 1 << 16}
	so, err := cmd.StdoutPipe()
	zvDie(err)
	zvDie(cmd.Start())
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	defer timer.Stop()
	last = -1
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		l, err := rd.ReadString('\n')
		if strings.HasPrefix(l, "S ") {
			fmt.Sscanf(l, "S %d", &last)
		} else if strings.HasPrefix(l, "R ") {
			res = &zvResult{}
			if json.Unmarshal([]byte(l[2:]), res) != nil {
				res = nil
			}
		}
		if err != nil {
			break
		}
	}
	if err := cmd.Wait(); err != nil || res == nil {
		errText = eb.String()
		if errText == "" {
			errText = fmt.Sprint("worker ended: ", err)
		}
	}
	return
}

type zvLimited struct {
	w io.Writer
	n int
}

func (l *zvLimited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}
func zvExe() string {
	e, err := os.Executable()
	zvDie(err)
	return e
}

func zvCheck(prop, tier string, seed uint64, out string, count, wall int, known string) int {
	s := zvScenarios[prop]
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		return 2
	}
	if count == 0 {
		count = s.quick
		if tier == "thorough" {
			count = s.deep
		}
	}
	if wall == 0 {
		wall = 240
		if tier == "thorough" {
			wall = 3600
		}
	}
	start := time.Now()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	type wres struct {
		r    *zvResult
		last int
		err  string
		from int
	}
	procs := 0
	results := make([][]wres, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := k
			life := zvLife(k, n, count)
			for tries := 0; tries < 4; {
				left := wall - int(time.Since(start).Seconds())
				if left < 1 {
					return
				}
				r, last, err := zvSelf(time.Duration(left+180)*time.Second, "-worker", fmt.Sprint(k), "-of", fmt.Sprint(n), "-prop", prop,
					"-tier", tier, "-seed", fmt.Sprint(seed), "-count", fmt.Sprint(count), "-wall", fmt.Sprint(left), "-known", known, "-from", fmt.Sprint(from), "-life", fmt.Sprint(life))
				results[k] = append(results[k], wres{r, last, err, from})
				if r != nil && err == "" {
					if r.Done || r.Vio != nil {
						return
					}
					from = r.Next
					continue
				}
				if last < 0 {
					return
				}
				tries++
				from = last + n // carry on after the run that ended the process
			}
		}()
	}
	wg.Wait()

	total := zvNewStats()
	var vio *zvResult
	vioFrom := 0
	crashed := 0
	benign := 0
	var crash *zvViolation
	var crashPlan *zvPlan
	knownSeen := map[string]bool{}
	digests := map[string]string{}
	for k := range results {
		for _, w := range results[k] {
			procs++
			if w.r == nil || w.err != "" {
				// The process died. Only a death of the system under test, repeated in a
				// process of its own, is a finding; everything else is trouble of the check.
				if w.last >= 0 {
					p := zvGenPlan(s, seed, zvIndex(w.last, n), tier)
					if strings.Contains(w.err, "crypto/rand: failed to read random data") {
						benign++
						continue
					}
					if v := zvCrash(p, out); v != nil {
						if crash == nil {
							crash, crashPlan = v, p
						}
						continue
					}
				}
				crashed++
				fmt.Fprintf(os.Stderr, "sim: worker %d failed in run %d: %s\n", k, w.last, zvTail(w.err, 1500))
				continue
			}
			zvMerge(total, w.r.Stats)
			for _, t := range w.r.Known {
				knownSeen[t] = true
			}
			for _, d := range zvSortedKeys(w.r.Stats.Digests) {
				vi := w.r.Stats.Digests[d]
				v, idx, _ := strings.Cut(vi, "@")
				if o, ok := digests[d]; ok && o != v && crash == nil && vio == nil {
					crash = &zvViolation{Class: "process-dependent", Msg: fmt.Sprintf("two processes derive different values for %s", d)}
					var pi int
					fmt.Sscan(idx, &pi)
					crashPlan = zvGenPlan(s, seed, pi, tier)
				}
				digests[d] = v
			}
			if w.r.Vio != nil && (vio == nil || w.r.Plan.Index < vio.Plan.Index) {
				vio, vioFrom = w.r, w.from
			}
		}
	}
	wallUsed := time.Since(start).Seconds()

	for t := range knownSeen {
		fmt.Fprintf(zvStdout, "KNOWN-FINDING: property=%s %s\n", prop, t)
	}
	code := 0
	nvio := 0
	if vio != nil || crash != nil {
		nvio = 1
		code = 1
		rp := zvReplay{Property: prop, Seed: seed, Tier: tier, Kind: "plan"}
		if vio != nil {
			rp.Plan, rp.Violation, rp.Original = vio.Plan, vio.Vio, len(vio.Plan.Steps)
			if v := zvFresh(vio.Plan, out); v != nil && v.Class == vio.Vio.Class {
				rp.Plan, rp.Violation = zvMinimise(vio.Plan, v, out, 75*time.Second)
			} else {
				rp.Kind, rp.From, rp.Of, rp.Upto = "batch", vioFrom, n, vio.Plan.Index
			}
			rp.Minimised = len(rp.Plan.Steps)
		} else {
			rp.Plan, rp.Violation, rp.Original, rp.Minimised = crashPlan, crash, len(crashPlan.Steps), len(crashPlan.Steps)
		}
		dir := filepath.Join(out, "replay")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, rp.Plan.Index))
		b, _ := json.MarshalIndent(rp, "", " ")
		zvDie(os.WriteFile(f, b, 0o644))
		fmt.Fprintf(zvStdout, "violation class: %s\nwhat: %s\nsteps: %d (minimised from %d)\n", rp.Violation.Class, rp.Violation.Msg, rp.Minimised, rp.Original)
		fmt.Fprintf(zvStdout, "VIOLATION property=%s replay=%s\n", prop, f)
	} else if crashed > 0 {
		code = 2
	} else if total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "sim: no run completed")
		code = 2
	}
	zvEvidence(s, tier, seed, total, wallUsed, nvio, n, procs, benign, filepath.Join(out, "..", "evidence"))
	fmt.Fprintf(zvStdout, "%s %s: %d runs, %d evaluations, %d distinct cases, %d interleavings, %.1f s\n", prop, tier, total.Runs, total.Evals, len(total.Cases), len(total.Inter), wallUsed)
	return code
}

func zvTail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func zvMerge(a, b *zvStats) {
	a.Runs += b.Runs
	a.Steps += b.Steps
	a.Evals += b.Evals
	a.Yields += b.Yields
	a.Preempts += b.Preempts
	a.SimMicros += b.SimMicros
	a.History += b.History
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Probes {
		a.Probes[k] += v
	}
	for _, k := range b.CaseKeys {
		a.Cases[k]++
	}
	for _, k := range b.InterKeys {
		a.Inter[k]++
	}
	for _, s := range b.Reached {
		a.reached[s] = true
	}
	for _, x := range b.Samples {
		if len(a.Samples) < 12 {
			a.Samples = append(a.Samples, x)
		}
	}
}

func zvTmp(p *zvPlan, out string) string {
	b, _ := json.Marshal(p)
	os.MkdirAll(out, 0o755)
	f, err := os.CreateTemp(out, "plan*.json")
	zvDie(err)
	f.Write(b)
	f.Close()
	return f.Name()
}

// zvFresh executes a plan in a fresh process.
func zvFresh(p *zvPlan, out string) *zvViolation {
	f := zvTmp(p, out)
	defer os.Remove(f)
	r, _, err := zvSelf(120*time.Second, "-exec", f)
	if err != "" || r == nil {
		return nil
	}
	return r.Vio
}

// zvAcross executes a plan in several processes and compares what they derive.
func zvAcross(p *zvPlan, out string) *zvViolation {
	f := zvTmp(p, out)
	defer os.Remove(f)
	seen := map[string]string{}
	for k := 0; k < 12; k++ {
		r, _, err := zvSelf(120*time.Second, "-exec", f)
		if err != "" || r == nil {
			continue
		}
		for _, d := range zvSortedKeys(r.Stats.Digests) {
			v := r.Stats.Digests[d]
			if o, ok := seen[d]; ok && o != v {
				return &zvViolation{Class: "process-dependent", Msg: fmt.Sprintf("two processes derive different values for %s", d)}
			}
			seen[d] = v
		}
	}
	return nil
}

func zvSortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// zvCrash: does the plan end the process with a Go run-time failure outside the harness?
func zvCrash(p *zvPlan, out string) *zvViolation {
	f := zvTmp(p, out)
	defer os.Remove(f)
	r, _, err := zvSelf(120*time.Second, "-exec", f)
	if err == "" && r != nil {
		return nil
	}
	for _, l := range strings.Split(err, "\n") {
		if strings.Contains(l, "harness:") {
			return nil
		}
		if strings.HasPrefix(l, "fatal error: ") && !strings.Contains(l, "all goroutines are asleep") {
			return &zvViolation{Class: "process-death", Msg: "the process dies: " + l}
		}
		if strings.Contains(l, "goroutine stack exceeds") {
			return &zvViolation{Class: "process-death", Msg: "the process dies: stack overflow"}
		}
	}
	return nil
}

// zvMinimise shrinks a failing plan while the same class of violation persists.
func zvMinimise(p *zvPlan, v *zvViolation, out string, budget time.Duration) (*zvPlan, *zvViolation) {
	end := time.Now().Add(budget)
	best, bv := p, v
	try := func(q *zvPlan) bool {
		if time.Now().After(end) {
			return false
		}
		w := zvFresh(q, out)
		if w != nil && w.Class == v.Class {
			best, bv = q, w
			return true
		}
		return false
	}
	// No preemption at all, then fewer preemptions.
	if best.Quantum > 0 {
		q := best.clone()
		q.Quantum, q.Budget = 0, 0
		if !try(q) {
			for b := best.Budget / 2; b >= 1; b /= 2 {
				q := best.clone()
				q.Budget = b
				if !try(q) {
					break
				}
			}
		}
	}
	if best.Target > 0 {
		q := best.clone()
		q.Target = 0
		if !try(q) {
			for b := best.Target / 2; b >= 1; b /= 2 {
				q := best.clone()
				q.Target = b
				if !try(q) {
					break
				}
			}
		}
	}
	// Drop steps.
	for size := len(best.Steps) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(best.Steps) && len(best.Steps) > 1; {
			q := best.clone()
			q.Steps = append(append([]zvStep{}, best.Steps[:i]...), best.Steps[i+size:]...)
			if !try(q) {
				i += size
			}
		}
	}
	// Drop deliveries, faults and kills within steps.
	for i := 0; i < len(best.Steps); i++ {
		for j := 0; j < len(best.Steps[i].Del); {
			q := best.clone()
			d := best.Steps[i].Del
			q.Steps[i].Del = append(append([]zvDel{}, d[:j]...), d[j+1:]...)
			if !try(q) {
				j++
			}
		}
		for j := 0; j < len(best.Steps[i].Faults); {
			q := best.clone()
			d := best.Steps[i].Faults
			q.Steps[i].Faults = append(append([]zvFault{}, d[:j]...), d[j+1:]...)
			if !try(q) {
				j++
			}
		}
		if best.Steps[i].Kill > 0 {
			q := best.clone()
			q.Steps[i].Kill = 0
			try(q)
		}
		for _, a := range []int64{1, best.Steps[i].A / 2} {
			if best.Steps[i].K == "ops" && best.Steps[i].A > a {
				q := best.clone()
				q.Steps[i].A = a
				if try(q) {
					break
				}
			}
		}
	}
	return best, bv
}

func zvDoReplay(f string) int {
	b, err := os.ReadFile(f)
	zvDie(err)
	var r zvReplay
	zvDie(json.Unmarshal(b, &r))
	var v *zvViolation
	if r.Kind == "batch" {
		s := zvScenarios[r.Property]
		st := zvNewStats()
		for i := r.From; ; i += r.Of {
			idx := zvIndex(i, r.Of)
			v = zvExecute(zvGenPlan(s, r.Seed, idx, r.Tier), st)
			if idx == r.Upto || i > r.Upto+r.Of {
				break
			}
		}
	} else if r.Violation.Class == "process-dependent" {
		v = zvAcross(r.Plan, filepath.Dir(f))
	} else if r.Violation.Class == "process-death" {
		v = zvCrash(r.Plan, filepath.Dir(f))
	} else {
		v = zvExecute(r.Plan, zvNewStats())
	}
	if v == nil {
		fmt.Fprintln(zvStdout, "the recorded violation does not occur")
		return 0
	}
	for _, l := range v.Trace {
		fmt.Fprintln(zvStdout, "  ", l)
	}
	same := v.Class == r.Violation.Class && v.Msg == r.Violation.Msg
	fmt.Fprintf(zvStdout, "violation class: %s\nwhat: %s\nexactly as recorded: %v\n", v.Class, v.Msg, same)
	fmt.Fprintf(zvStdout, "VIOLATION property=%s replay=%s\n", r.Property, f)
	return 1
}

func zvEvidence(s *zvScenario, tier string, seed uint64, st *zvStats, wall float64, nvio, workers, procs, benign int, dir string) {
	os.MkdirAll(dir, 0o755)
	perHour := 0.0
	if wall > 0 {
		perHour = float64(st.Runs) / wall * 3600
	}
	samples := []any{}
	sort.Strings(st.Samples)
	for _, x := range st.Samples {
		samples = append(samples, x)
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("run 0 of seed %d", seed))
	}
	stmts, missed := 0, []string{}
	for s, w := range vsim.Where {
		if w != "" {
			stmts++
			if !st.reached[s] && (len(missed) == 0 || missed[len(missed)-1] != w) {
				missed = append(missed, w)
			}
		}
	}
	mode := "instrumented: preemption between any two statements"
	if zvSerial {
		mode = "serial: tasks run to completion (code starts goroutines of its own or cannot be instrumented)"
	}
	ev := map[string]any{
		"property": s.prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nvio,
		"coverage": map[string]any{
			"evaluations": st.Evals, "distinct_nontrivial": len(st.Cases), "rule": s.rule, "samples": samples,
			"simulated_runs": st.Runs, "runs_per_hour": int(perHour), "seeds_per_hour": int(perHour),
			"simulated_seconds": float64(st.SimMicros) / 1e6, "plan_steps": st.Steps,
			"history_digest": fmt.Sprintf("%016x", st.History), "statements_executed": st.Yields, "preemptions": st.Preempts,
			"statements_in_code": stmts, "statements_reached": len(st.reached), "lines_not_reached": missed,
			"distinct_interleavings": len(st.Inter), "interleaving_measure": "hash of the sequence of (task, position) chosen by the scheduler whenever it had a choice",
			"faults_injected": st.Faults, "probes": st.Probes, "workers": workers, "processes": procs, "mode": mode,
			"real_code": s.reals, "stubs": s.stubs, "processes_ended_by_entropy_fault": benign,
		},
		"assumptions": s.assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	zvDie(os.WriteFile(filepath.Join(dir, s.prop+".json"), b, 0o644))
}
