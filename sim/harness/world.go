//go:build go1.22

package main

// The election world: nodes (each with public parameters it derived itself), voters, a network
// that delays, duplicates, reorders, drops and alters, and collectors.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vsim"
)

type zvNode struct {
	pp  PublicParameters
	gen int
	run []*zvTask
}

type zvBallot struct {
	step   int
	bd     BallotData
	js     []byte
	choice int // -1: chosen by castVote
	cast   bool
}

type zvWorld struct {
	rangeDraft *bulletproofs.BulletProof // see rangeFor
	e          *zvEngine
	cfg        zvCfg
	nodes      []*zvNode
	ballots    map[int]*zvBallot
	dec        *zvDecryptor
	ok         bool
}

// zvNewWorld derives the parameters of all nodes. It fails the run if that is impossible.
func zvNewWorld(e *zvEngine) *zvWorld { return zvNewWorldOf(e, e.plan.Cfg) }

func zvNewWorldOf(e *zvEngine, cfg zvCfg) *zvWorld {
	w := &zvWorld{e: e, cfg: cfg, ballots: map[int]*zvBallot{}}
	n := w.cfg.Nodes
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		w.nodes = append(w.nodes, &zvNode{})
		w.boot(i, 0)
	}
	e.run()
	if e.vio != nil {
		return w
	}
	w.ok = true
	e.oracle(func() { w.dec = zvGetDecryptor(w.cfg, w.nodes[0].pp) })
	return w
}

// boot (re)starts a node: it derives its parameters afresh.
func (w *zvWorld) boot(i int, at int64) {
	nd := w.nodes[i]
	nd.gen++
	t := w.e.spawn(fmt.Sprintf("boot%d", i), at, uint64(nd.gen)*977+uint64(i), nil, 0, func(t *zvTask) {
		pp, err := zvMakePP(w.cfg)
		if err != nil {
			w.e.fail("setup-error", "setting up %s/%s fails: %v", w.cfg.EC, w.cfg.FF, err)
			return
		}
		nd.pp = pp
	})
	t.onEnd = func(t *zvTask) {
		if t.panicV != nil {
			w.e.fail("setup-panic", "setting up %s/%s panics: %s", w.cfg.EC, w.cfg.FF, t.panicText())
		}
	}
}

// crash kills what runs on a node and boots it again.
func (w *zvWorld) crash(i int) {
	nd := w.nodes[i]
	for _, t := range nd.run {
		if !t.done {
			t.killAt = t.yields + 1
			if !t.started {
				t.killAt = 1
			}
		}
	}
	nd.run = nil
	w.e.fault("node-crash")
	w.boot(i, w.e.now)
}

// zvCastChoice composes a ballot for a given candidate from the voter's own parts, the way
// castVote does. lo and hi are those the voter proves for.
func zvCastChoice(pp PublicParameters, choice int) BallotData {
	ct, rp := encryptVote(uint16(choice), pp.EGPK, pp.FFGroupParams.I)
	b1, r1, err := bulletproofs.Prove(big.NewInt(int64(choice)-int64(pp.candidateMin)), pp.BPParams)
	if err != nil {
		panic(err)
	}
	b2, r2, err := bulletproofs.Prove(big.NewInt(int64(pp.candidateMax)-int64(choice)), pp.BPParams)
	if err != nil {
		panic(err)
	}
	r2 = new(big.Int).Sub(pp.ECGroupParams.N, r2)
	vp := voteproof.Prove(big.NewInt(int64(choice)), rp, r1, r2, pp.RPParams)
	return BallotData{Ballot: ct, BpLower: b1, BpUpper: b2, VoteProof: vp}
}

func zvCastAny(pp PublicParameters, choice int) BallotData {
	if choice < 0 {
		bd, _ := castVote(pp)
		return bd
	}
	return zvCastChoice(pp, choice)
}

// zvVerdict is what a collector says about one delivery.
type zvVerdict struct {
	accepted bool
	decoded  bool
	err      string
}

func zvCollectJSON(js []byte, pp PublicParameters) (zvVerdict, BallotData) {
	buf := append([]byte(nil), js...)
	bd, err := BallotDataUnmarshalJSON(buf, pp)
	for i := range buf { // the next message is received into the same buffer
		buf[i] = '{'
	}
	if err != nil {
		return zvVerdict{err: err.Error()}, bd
	}
	return zvVerdict{accepted: zvVerify(bd, pp), decoded: true}, bd
}

func zvCollectMem(bd BallotData, pp PublicParameters) zvVerdict {
	return zvVerdict{accepted: zvVerify(bd, pp), decoded: true}
}

// zvVerify is how the program uses verifyVote: it adds up the times whatever the verdict is.
func zvVerify(bd BallotData, pp PublicParameters) bool {
	ok, times := verifyVote(bd, pp.RPParams)
	zvTimes[0] += times[0]
	zvTimes[1] += times[1]
	return ok
}

var zvTimes [2]time.Duration

// zvSteer makes read at deliver the value v of size max bytes (what rand.Int would use).
func zvSteer(at int, v, max *big.Int) zvFault {
	n := (new(big.Int).Sub(max, big.NewInt(1)).BitLen() + 7) / 8
	if n == 0 {
		n = 1
	}
	b := make([]byte, n)
	v.FillBytes(b)
	return zvFault{At: at, Kind: "pat", Pat: hex.EncodeToString(b)}
}

// zvNet makes the delivery plan of one message: copies, delays and targets.
func zvNet(r *zvRNG, nodes int, max int64) []zvDel {
	var d []zvDel
	n := 1
	if r.Chance(1, 3) {
		n = 2
	}
	if r.Chance(1, 8) {
		n = 3
	}
	for i := 0; i < n; i++ {
		d = append(d, zvDel{To: r.Intn(nodes), Delay: int64(r.Intn(int(max))), Mem: r.Chance(1, 4)})
	}
	if r.Chance(1, 12) && len(d) > 1 {
		d = d[:len(d)-1]
	}
	return d
}

// jump moves the clock of the simulation.
func zvClockJump(e *zvEngine, ns int64) {
	vsim.JumpWall(ns)
	if ns > 0 {
		vsim.Advance(ns / 3) // the machine also slept for a while
	}
	e.fault("clock-jump")
}

func zvShortErr(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

func zvBallotJSON(bd *BallotData) []byte {
	b, err := json.Marshal(bd)
	if err != nil {
		panic(fmt.Sprintf("encoding failed: %v", err))
	}
	return b
}

// zvElection draws an election. small: own groups of moderate size, otherwise the repository's
// set-up.
func zvElection(r *zvRNG, curves []string, real int) zvCfg {
	c := zvCfg{Nodes: 1 + r.Intn(3)}
	c.EC = curves[r.Intn(len(curves))]
	if r.Intn(100) < real {
		c.FF, c.Lo, c.Hi, c.Bc, c.N = "setup", 101, 2000, 224, 16
		return c
	}
	c.FF = r.Pick("m256", "m264", "m320", "m512", "m200", "m257")
	if c.EC == "p384" {
		c.FF = r.Pick("m512", "m320", "m264", "m256")
	}
	c.N = r.PickInt(1, 2, 4, 4, 8, 8, 16, 16, 16, 16)
	if r.Chance(1, 25) {
		c.N = 32
	}
	span := 1<<uint(c.N) - 1
	if span > 65535 {
		span = 65535
	}
	switch r.Intn(6) {
	case 0: // a single candidate
		c.Lo = r.Intn(65536)
		c.Hi = c.Lo
	case 1: // as wide as the range proof allows
		c.Lo = r.Intn(65536 - span)
		c.Hi = c.Lo + span
	case 2: // at the top
		c.Hi = 65535
		c.Lo = c.Hi - r.Intn(span+1)
	case 3: // at the bottom
		c.Lo = 0
		c.Hi = r.Intn(span + 1)
	default:
		c.Lo = r.Intn(65536)
		if top := 65535 - c.Lo; top < span {
			span = top
		}
		c.Hi = c.Lo + r.Intn(span+1)
	}
	// the challenge must leave room for masking: Bb = Bg-1-16-Bc >= 1
	bg := zvOrderBits(c.EC)
	if b := zvOrderBits(c.FF); b < bg {
		bg = b
	}
	maxBc := (bg - 18) / 8 * 8
	if maxBc > 256 {
		maxBc = 256
	}
	// enough for soundness: at least 96 bits
	c.Bc = 96 + 8*r.Intn((maxBc-96)/8+1)
	if r.Chance(1, 3) {
		c.Bc = maxBc
	}
	return c
}

func zvOrderBits(name string) int {
	switch name {
	case "p256", "k256":
		return 256
	case "r255":
		return 253
	case "p384", "tg384", "tf384":
		return 384
	case "tg", "tg256":
		return 256
	case "tg192":
		return 192
	}
	return zvPrime(name).BitLen() - 1
}
