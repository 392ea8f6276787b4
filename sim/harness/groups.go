//go:build go1.22

package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
)

// ---- a transparent group ---------------------------------------------------------------
//
// Elements are vectors of discrete logarithms over a basis: the generator and one symbol per
// MapToGroup seed. It is a prime-order group like the others, except that the oracles can read
// every exponent. It replaces only the group; proofs, encryption and verification run as they are.

type zvTG struct {
	name string
	n    *big.Int
}
type zvTE struct {
	g *zvTG
	c map[string]*big.Int // coefficient per basis label, "" is the generator; no zero entries
}

func zvTransparent(name string, bits int) *zvTG {
	d := map[int]int64{256: 189, 384: 317, 192: 237}[bits]
	n := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	return &zvTG{name, n.Sub(n, big.NewInt(d))}
}
func (g *zvTG) Name() string             { return g.name }
func (g *zvTG) P() *big.Int              { return new(big.Int).Set(g.n) }
func (g *zvTG) N() *big.Int              { return new(big.Int).Set(g.n) }
func (g *zvTG) Element() group.Element   { return &zvTE{g, map[string]*big.Int{}} }
func (g *zvTG) Identity() group.Element  { return g.Element() }
func (g *zvTG) Generator() group.Element { return g.Element().BaseScale(big.NewInt(1)) }
func (g *zvTG) Random() group.Element {
	r, err := rand.Int(rand.Reader, g.n)
	if err != nil {
		panic(err)
	}
	return g.Element().BaseScale(r)
}
func (g *zvTG) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]string{"group": g.name}) }

func (e *zvTE) ck(a group.Element) *zvTE {
	x, ok := a.(*zvTE)
	if !ok || x.g.n.Cmp(e.g.n) != 0 || x.g.name != e.g.name {
		panic("incompatible groups")
	}
	return x
}
func (e *zvTE) lin(a *zvTE, s *big.Int, b *zvTE) group.Element { // e = a + s b
	c := map[string]*big.Int{}
	for k, v := range a.c {
		c[k] = v
	}
	if b != nil {
		for k, v := range b.c {
			t := new(big.Int).Mul(v, s)
			if o, ok := c[k]; ok {
				t.Add(t, o)
			}
			t.Mod(t, e.g.n)
			if t.Sign() == 0 {
				delete(c, k)
			} else {
				c[k] = t
			}
		}
	}
	e.c = c
	return e.swap()
}

// zvSubst: while set, results of operations are exchanged for others (by their value).
var zvSubst map[string]*zvTE

func (e *zvTE) swap() group.Element {
	if zvSubst != nil {
		if t, ok := zvSubst[e.String()]; ok {
			e.c = t.c
		}
	}
	return e
}
func (e *zvTE) Add(a, b group.Element) group.Element {
	return e.lin(e.ck(a), big.NewInt(1), e.ck(b))
}
func (e *zvTE) Subtract(a, b group.Element) group.Element {
	return e.lin(e.ck(a), big.NewInt(-1), e.ck(b))
}
func (e *zvTE) Negate(a group.Element) group.Element { return e.Scale(a, big.NewInt(-1)) }
func (e *zvTE) Scale(a group.Element, s *big.Int) group.Element {
	return e.lin(&zvTE{e.g, nil}, new(big.Int).Set(s), e.ck(a))
}
func (e *zvTE) BaseScale(s *big.Int) group.Element {
	v := new(big.Int).Mod(s, e.g.n)
	e.c = map[string]*big.Int{}
	if v.Sign() != 0 {
		e.c[""] = v
	}
	return e.swap()
}
func (e *zvTE) Set(a group.Element) group.Element { return e.lin(e.ck(a), nil, nil) }
func (e *zvTE) SetBytes(b []byte) group.Element {
	if err := e.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return e
}
func (e *zvTE) MapToGroup(s string) (group.Element, error) {
	e.c = map[string]*big.Int{"#" + s: big.NewInt(1)}
	return e, nil
}
func (e *zvTE) IsEqual(a group.Element) bool { return e.String() == e.ck(a).String() }
func (e *zvTE) IsIdentity() bool             { return len(e.c) == 0 }
func (e *zvTE) GroupOrder() *big.Int         { return e.g.N() }
func (e *zvTE) FieldOrder() *big.Int         { return e.g.N() }
func (e *zvTE) String() string {
	ks := make([]string, 0, len(e.c))
	for k := range e.c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString("<")
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%s;", k, e.c[k].Text(62))
	}
	b.WriteString(">")
	return b.String()
}
func (e *zvTE) MarshalBinary() ([]byte, error) { return []byte(e.String()), nil }
func (e *zvTE) UnmarshalBinary(b []byte) error {
	s := string(b)
	if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
		return errors.New("bad element")
	}
	c := map[string]*big.Int{}
	for _, f := range strings.Split(s[1:len(s)-1], ";") {
		if f == "" {
			continue
		}
		i := strings.LastIndex(f, "=")
		if i < 0 {
			return errors.New("bad element")
		}
		v, ok := new(big.Int).SetString(f[i+1:], 62)
		if !ok || v.Sign() <= 0 || v.Cmp(e.g.n) >= 0 {
			return errors.New("bad element")
		}
		c[f[:i]] = v
	}
	e.c = c
	return nil
}
func (e *zvTE) MarshalJSON() ([]byte, error) { return json.Marshal(e.String()) }
func (e *zvTE) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	return e.UnmarshalBinary([]byte(s))
}

// coef returns the coefficient of x over the given basis element (which must be a single symbol).
func zvCoef(x group.Element, basis group.Element) *big.Int {
	t := x.(*zvTE)
	for k := range basis.(*zvTE).c {
		if v, ok := t.c[k]; ok {
			return v
		}
	}
	return new(big.Int)
}

// ---- named groups ----------------------------------------------------------------------

var zvPrimes = map[string]string{
	"m160":  "bd376c12f8ba5c0f4efa73260962e34ede8343af",
	"m200":  "d89b9d9ab4784b3642925d112467be3b5010f5827f8cfafefb",
	"m256":  "f2b19788485432e856c0ea5a5f416206e341dd3a152a90d0d39c2273de2df0b7",
	"m257":  "12ae30d6d1d75d3c4b5bc283f8cd1b6cdb0a003bb93871499747450daf3e2b5d7", // one byte longer than its order
	"m264":  "d27f68a620d46933cddd92a30af2f6bef5c2acd9a0315ef9b147bb642c62698a7b",
	"m320":  "eb5995753fc46b4a9df2af7a40aed63ef6246feba222d5e3a5deb6112efbb20f6e979da38328644b",
	"m512":  "dfee7c447aed8c3725b4f9a0d83019d10181a8c8aa0c2fcd998b669851a071bbdc36bdd7b64a5c61cbafddc4753102429ba37c896b00de03b6afa6aa8b147523",
	"m1024": "f2804719d4659489b879e889951200a5acc1f6c022d93633218aeead32b23700def8faf3eb9441f4275fae7078222c1de986e3d4d32fee0bc384134843e7270fb33d2dfae38f66b1a2718a45da13abd4c9c47b0f5ec36087995754016423d775b2ec966f2c8a9f994e72f4cb71fc94fdc8cc81425deb4519f909707735b8d15f",
	"m3072": `FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF`,
}

func zvPrime(name string) *big.Int {
	p, ok := new(big.Int).SetString(strings.Join(strings.Fields(zvPrimes[name]), ""), 16)
	if !ok {
		panic("no prime " + name)
	}
	return p
}

// zvGroup makes a new instance of the named group.
func zvGroup(name string) group.Group {
	switch name {
	case "p256":
		return group.P256()
	case "p384":
		return group.P384()
	case "r255":
		return group.Ristretto255()
	case "k256":
		return group.SecP256k1()
	case "tg", "tg256":
		return zvTransparent("tg", 256)
	case "tg192":
		return zvTransparent("tg192", 192)
	case "tg384":
		return zvTransparent("tg384", 384)
	case "tf384":
		return zvTransparent("tf384", 384)
	case "m3072":
		return group.NewModPGroup(name, zvPrimes[name], "2")
	}
	return group.NewModPGroup(name, zvPrimes[name], "4")
}

var zvCurves = []string{"p256", "r255", "k256", "p384"}

// ---- elections -------------------------------------------------------------------------

var zvTen = big.NewInt(10)

// zvKey is the ElGamal decryption key of an election.
func zvKey(cfg zvCfg) *big.Int {
	if cfg.FF == "setup" {
		return nil
	}
	n := zvGroup(cfg.FF).N()
	h := sha256.Sum256([]byte(fmt.Sprintf("election key %s %d %d %d", cfg.FF, cfg.Lo, cfg.Hi, cfg.Bc)))
	k := new(big.Int).SetBytes(append(h[:], h[:]...))
	return k.Mod(k, n)
}

// zvMakePP derives the public parameters of an election, independently each time it is called.
func zvMakePP(cfg zvCfg) (PublicParameters, error) {
	ec := zvGroup(cfg.EC)
	if cfg.FF == "setup" {
		return setup(ec)
	}
	var pp PublicParameters
	bp, err := bulletproofs.Setup(int64(1)<<uint(cfg.N), ec)
	if err != nil {
		return pp, err
	}
	var ff, gc voteproof.GroupParameters
	ff.I = zvGroup(cfg.FF)
	ff.F, ff.N, ff.G = ff.I.P(), ff.I.N(), ff.I.Generator()
	if _, ok := ff.I.(*zvTG); ok {
		ff.H, _ = ff.I.Element().MapToGroup(fmt.Sprintf("election key %d %d %d", cfg.Lo, cfg.Hi, cfg.Bc))
	} else {
		ff.H = ff.I.Element().BaseScale(zvKey(cfg))
	}
	gc.I = ec
	gc.F, gc.N, gc.G, gc.H = ec.P(), ec.N(), ec.Generator(), bp.H
	bg := gc.N.BitLen()
	if ff.N.BitLen() < bg {
		bg = ff.N.BitLen()
	}
	rp, err := voteproof.Setup(16, uint16(cfg.Bc), uint16(bg), uint16(cfg.Lo), uint16(cfg.Hi),
		voteproof.AlgebraicParameters{GFF: ff, GEC: gc})
	if err != nil {
		return pp, err
	}
	pp.FFGroupParams, pp.ECGroupParams, pp.EGPK = ff, gc, ff.H
	pp.candidateMin, pp.candidateMax = uint16(cfg.Lo), uint16(cfg.Hi)
	pp.BPParams, pp.RPParams = bp, rp
	return pp, nil
}

// zvPlain decrypts a ciphertext, or returns -1 if it is not an encryption of 0..65535.
type zvDecryptor struct {
	key   *big.Int
	g     group.Group
	table map[string]int
	tg    group.Element
}

var zvDecryptors = map[string]*zvDecryptor{}

func zvGetDecryptor(cfg zvCfg, pp PublicParameters) *zvDecryptor {
	id := cfg.FF
	if d, ok := zvDecryptors[id]; ok { // the table is the same for all elections in a group
		c := *d
		if c.tg == nil && cfg.FF != "setup" {
			c.key = zvKey(cfg)
		} else if c.tg != nil {
			c.tg = pp.EGPK
		}
		return &c
	}
	d := &zvDecryptor{g: pp.FFGroupParams.I}
	if _, ok := d.g.(*zvTG); ok {
		d.tg = pp.EGPK
		zvDecryptors[id] = d
		return d
	}
	p, n := new(big.Int).Set(d.g.P()), d.g.N()
	gen := zvElemInt(d.g.Generator())
	d.key = zvKey(cfg)
	if d.key == nil {
		// The demo set-up uses a small fixed key.
		y := zvElemInt(pp.EGPK)
		c := big.NewInt(1)
		for i := int64(0); i < 1<<17; i++ {
			if c.Cmp(y) == 0 {
				d.key = big.NewInt(i)
				break
			}
			c.Mod(c.Mul(c, gen), p)
		}
	}
	_ = n
	d.table = map[string]int{}
	c := big.NewInt(1)
	for i := 0; i < 1<<16; i++ {
		d.table[zvShort(c)] = i
		c.Mod(c.Mul(c, gen), p)
	}
	zvDecryptors[id] = d
	return d
}

func zvShort(c *big.Int) string {
	h := sha256.Sum256(c.Bytes())
	return string(h[:12])
}

// zvElemInt is the integer behind an element of a mod-p group.
func zvElemInt(e group.Element) *big.Int {
	b, _ := e.MarshalBinary()
	return new(big.Int).SetBytes(b)
}

func (d *zvDecryptor) plain(c ElGamalCiphertext) (int, bool) {
	if d.tg != nil {
		// U = r G, V = m G + r H
		r := zvCoef(c.U, d.g.Generator())
		m := d.g.Element().Subtract(c.V, d.g.Element().Scale(d.tg, r))
		mm := zvCoef(m, d.g.Generator())
		if len(m.(*zvTE).c) > 1 || !mm.IsInt64() || mm.Int64() > 65535 ||
			(len(m.(*zvTE).c) == 1 && mm.Sign() == 0) {
			return -1, true
		}
		return int(mm.Int64()), true
	}
	if d.key == nil {
		return 0, false
	}
	p := d.g.P()
	u, v := zvElemInt(c.U), zvElemInt(c.V)
	if u.Sign() == 0 {
		return -1, true
	}
	s := new(big.Int).Exp(u, d.key, p)
	s.ModInverse(s, p)
	s.Mod(s.Mul(s, v), p)
	if m, ok := d.table[zvShort(s)]; ok {
		return m, true
	}
	return -1, true
}
