//go:build go1.22

package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// The content of a message: one entry per component, in canonical form.

type zvItem struct {
	Path string
	Val  string // canonical value
	Raw  string // exact value (scalars are not reduced)
}

type zvContent []zvItem

func zvEl(e group.Element) string {
	if e == nil {
		return "nil"
	}
	b, err := e.MarshalBinary()
	if err != nil {
		return "error:" + err.Error()
	}
	return hex.EncodeToString(b)
}

func (c *zvContent) el(path string, e group.Element) {
	s := zvEl(e)
	*c = append(*c, zvItem{path, s, s})
}
func (c *zvContent) sc(path string, s *big.Int, mod *big.Int) {
	if s == nil {
		*c = append(*c, zvItem{path, "nil", "nil"})
		return
	}
	v := s
	if mod != nil {
		v = new(big.Int).Mod(s, mod)
	}
	*c = append(*c, zvItem{path, v.Text(16), s.Text(16)})
}
func (c *zvContent) els(path string, es []group.Element) {
	c.add(path+".len", fmt.Sprint(len(es)))
	for i, e := range es {
		c.el(fmt.Sprintf("%s[%d]", path, i), e)
	}
}
func (c *zvContent) add(path, v string) { *c = append(*c, zvItem{path, v, v}) }

func (c *zvContent) ipp(pre string, p *bulletproofs.InnerProductProof, n *big.Int, params bool) {
	c.el(pre+"P", p.P)
	c.sc(pre+"Cc", p.Cc, n)
	c.sc(pre+"a", p.A, n)
	c.sc(pre+"b", p.B, n)
	c.els(pre+"L", p.L)
	c.els(pre+"R", p.R)
	if params {
		c.els(pre+"Params.Gg", p.Params.Gg)
		c.els(pre+"Params.Hh", p.Params.Hh)
		c.el(pre+"Params.Uu", p.Params.Uu)
	}
}

func (c *zvContent) bp(pre string, p *bulletproofs.BulletProof, n *big.Int, params bool) {
	c.el(pre+"V", p.V)
	c.el(pre+"A", p.A)
	c.el(pre+"S", p.S)
	c.el(pre+"T1", p.T1)
	c.el(pre+"T2", p.T2)
	c.sc(pre+"Taux", p.Taux, n)
	c.sc(pre+"Mu", p.Mu, n)
	c.sc(pre+"Tprime", p.Tprime, n)
	c.ipp(pre+"InnerProductProof.", &p.InnerProductProof, n, params)
	if params {
		c.bpParams(pre+"Params.", &p.Params)
	}
}

func (c *zvContent) multi(pre string, p *bulletproofs.MultiBulletProof, n *big.Int, params bool) {
	c.els(pre+"Vs", p.Vs)
	c.el(pre+"A", p.A)
	c.el(pre+"S", p.S)
	c.el(pre+"T1", p.T1)
	c.el(pre+"T2", p.T2)
	c.sc(pre+"Taux", p.Taux, n)
	c.sc(pre+"Mu", p.Mu, n)
	c.sc(pre+"Tprime", p.Tprime, n)
	c.ipp(pre+"InnerProductProof.", &p.InnerProductProof, n, params)
	if params {
		c.bpParams(pre+"Params.", &p.Params)
	}
}

func (c *zvContent) bpParams(pre string, p *bulletproofs.BulletProofSetupParams) {
	c.add(pre+"N", fmt.Sprint(p.N))
	c.el(pre+"G", p.G)
	c.el(pre+"H", p.H)
	c.els(pre+"Gg", p.Gg)
	c.els(pre+"Hh", p.Hh)
	c.group(pre+"GP", p.GP)
}

func (c *zvContent) group(pre string, g group.Group) {
	if g == nil {
		c.add(pre, "nil")
		return
	}
	c.add(pre+".name", g.Name())
	c.sc(pre+".N", g.N(), nil)
	c.sc(pre+".P", g.P(), nil)
	c.el(pre+".gen", g.Generator())
	c.el(pre+".id", g.Identity())
}

func (c *zvContent) gparams(pre string, p *voteproof.GroupParameters) {
	c.el(pre+"G", p.G)
	c.el(pre+"H", p.H)
	c.sc(pre+"N", p.N, nil)
	c.sc(pre+"F", p.F, nil)
	c.group(pre+"I", p.I)
}

func (c *zvContent) rpParams(pre string, p *voteproof.ProofParams) {
	c.add(pre+"ints", fmt.Sprint(p.Bx, p.Bc, p.Bg, p.Bb, p.RangeLo, p.RangeHi))
	c.gparams(pre+"GFF.", &p.GFF)
	c.gparams(pre+"GEC.", &p.GEC)
}

func (c *zvContent) sigma(pre string, p *voteproof.SigmaProof, nff, nec *big.Int, params bool) {
	c.el(pre+"W", p.W)
	c.el(pre+"Kp", p.Kp)
	c.el(pre+"Kq1", p.Kq1)
	c.el(pre+"Kq2", p.Kq2)
	c.sc(pre+"Challenge", p.Challenge, nil)
	c.sc(pre+"Z", p.Z, nil)
	c.sc(pre+"Sp", p.Sp, nff)
	c.sc(pre+"Sq1", p.Sq1, nec)
	c.sc(pre+"Sq2", p.Sq2, nec)
	if params {
		c.rpParams(pre+"Params.", &p.Params)
	}
}

// zvBallotContent lists the components of a ballot; with params also the parameters it carries.
func zvBallotContent(b *BallotData, nff, nec *big.Int, params bool) zvContent {
	var c zvContent
	c.el("ballot.u", b.Ballot.U)
	c.el("ballot.v", b.Ballot.V)
	c.bp("lbProof.", &b.BpLower, nec, params)
	c.bp("ubProof.", &b.BpUpper, nec, params)
	c.sigma("voteProof.", &b.VoteProof, nff, nec, params)
	return c
}

func zvPPContent(pp *PublicParameters) zvContent {
	var c zvContent
	c.gparams("FF.", &pp.FFGroupParams)
	c.gparams("EC.", &pp.ECGroupParams)
	c.el("EGPK", pp.EGPK)
	c.add("range", fmt.Sprint(pp.candidateMin, pp.candidateMax))
	c.bpParams("BP.", &pp.BPParams)
	c.rpParams("RP.", &pp.RPParams)
	return c
}

func (c zvContent) digest(raw bool) string {
	h := sha256.New()
	for _, i := range c {
		v := i.Val
		if raw {
			v = i.Raw
		}
		fmt.Fprintf(h, "%s=%s\n", i.Path, v)
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

// diff names the first component in which two contents differ.
func (c zvContent) diff(d zvContent, raw bool) string {
	for i := range c {
		if i >= len(d) || c[i].Path != d[i].Path {
			return c[i].Path + " (shape)"
		}
		a, b := c[i].Val, d[i].Val
		if raw {
			a, b = c[i].Raw, d[i].Raw
		}
		if a != b {
			return c[i].Path
		}
	}
	if len(d) > len(c) {
		return d[len(c)].Path + " (shape)"
	}
	return ""
}

// ---- JSON trees ------------------------------------------------------------------------

func zvTree(b []byte) any {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil
	}
	return v
}
func zvUntree(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// zvPaths lists the paths of a JSON tree that satisfy keep, in sorted order.
type zvPath []any

func (p zvPath) String() string {
	var s []string
	for _, x := range p {
		s = append(s, fmt.Sprint(x))
	}
	return strings.Join(s, ".")
}

func zvWalk(v any, pre zvPath, f func(p zvPath, v any)) {
	f(append(zvPath(nil), pre...), v)
	switch x := v.(type) {
	case map[string]any:
		for _, k := range zvKeys(x) {
			zvWalk(x[k], append(pre, k), f)
		}
	case []any:
		for i := range x {
			zvWalk(x[i], append(pre, i), f)
		}
	}
}

func zvKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func zvGet(v any, p zvPath) any {
	for _, k := range p {
		switch x := v.(type) {
		case map[string]any:
			v = x[k.(string)]
		case []any:
			i, ok := k.(int)
			if !ok || i >= len(x) {
				return nil
			}
			v = x[i]
		default:
			return nil
		}
	}
	return v
}

// zvPut replaces the node at p (in place) and returns the root.
func zvPut(root any, p zvPath, nv any) any {
	if len(p) == 0 {
		return nv
	}
	parent := zvGet(root, p[:len(p)-1])
	switch x := parent.(type) {
	case map[string]any:
		x[p[len(p)-1].(string)] = nv
	case []any:
		if i := p[len(p)-1].(int); i < len(x) {
			x[i] = nv
		}
	}
	return root
}
func zvDelete(root any, p zvPath) any {
	if len(p) == 0 {
		return nil
	}
	parent := zvGet(root, p[:len(p)-1])
	switch x := parent.(type) {
	case map[string]any:
		delete(x, p[len(p)-1].(string))
	case []any:
		i := p[len(p)-1].(int)
		y := append(append([]any{}, x[:i]...), x[i+1:]...)
		return zvPut(root, p[:len(p)-1], y)
	}
	return root
}
func zvDeep(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = zvDeep(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = zvDeep(x[i])
		}
		return l
	}
	return v
}
func zvMustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(fmt.Sprintf("encoding failed: %v", err))
	}
	return b
}
