//go:build go1.22

package main

// Independent reference arithmetic: the oracles for group elements do not use the code under
// test. Elements are compared in a canonical text form.

import (
	"crypto/elliptic"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/group"
)

func zvHex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// zvWei is a short Weierstrass curve y^2 = x^3 + ax + b.
type zvWei struct {
	p, n, a, b, gx, gy *big.Int
	size               int
	std                elliptic.Curve
}

var zvWeis = map[string]*zvWei{
	"k256": {p: zvHex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), n: zvHex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
		a: big.NewInt(0), b: big.NewInt(7), gx: zvHex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		gy: zvHex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"), size: 32},
	"p256": zvStdWei(elliptic.P256()),
	"p384": zvStdWei(elliptic.P384()),
}

func zvStdWei(c elliptic.Curve) *zvWei {
	q := c.Params()
	return &zvWei{p: q.P, n: q.N, a: big.NewInt(-3), b: q.B, gx: q.Gx, gy: q.Gy, size: (q.BitSize + 7) / 8, std: c}
}

func (c *zvWei) on(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.p) >= 0 || y.Cmp(c.p) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.a)
	r.Mul(r, x)
	r.Add(r, c.b)
	l.Sub(l, r)
	return l.Mod(l, c.p).Sign() == 0
}

// base returns s times the generator, nil, nil for the identity.
func (c *zvWei) base(s *big.Int) (*big.Int, *big.Int) {
	k := new(big.Int).Mod(s, c.n)
	if k.Sign() == 0 {
		return nil, nil
	}
	if c.std != nil {
		return c.std.ScalarBaseMult(k.Bytes())
	}
	// Jacobian, a = 0.
	m := func(a, b *big.Int) *big.Int { v := new(big.Int).Mul(a, b); return v.Mod(v, c.p) }
	sub := func(a, b *big.Int) *big.Int { v := new(big.Int).Sub(a, b); return v.Mod(v, c.p) }
	var X, Y, Z *big.Int
	for i := k.BitLen() - 1; i >= 0; i-- {
		if X != nil { // double
			yy := m(Y, Y)
			S := m(m(big.NewInt(4), X), yy)
			M := m(big.NewInt(3), m(X, X))
			x := sub(m(M, M), m(big.NewInt(2), S))
			y := sub(m(M, sub(S, x)), m(big.NewInt(8), m(yy, yy)))
			z := m(big.NewInt(2), m(Y, Z))
			X, Y, Z = x, y, z
		}
		if k.Bit(i) == 1 {
			if X == nil {
				X, Y, Z = new(big.Int).Set(c.gx), new(big.Int).Set(c.gy), big.NewInt(1)
				continue
			}
			zz := m(Z, Z)
			u2, s2 := m(c.gx, zz), m(c.gy, m(zz, Z))
			h, r := sub(u2, X), sub(s2, Y)
			// (the sum is never a doubling below the order, except for the last step of n-1+2)
			if h.Sign() == 0 {
				panic("reference arithmetic: exceptional case")
			}
			hh := m(h, h)
			hhh := m(hh, h)
			v := m(X, hh)
			x := sub(sub(m(r, r), hhh), m(big.NewInt(2), v))
			y := sub(m(r, sub(v, x)), m(Y, hhh))
			X, Y, Z = x, y, m(Z, h)
		}
	}
	zi := new(big.Int).ModInverse(Z, c.p)
	zi2 := m(zi, zi)
	return m(X, zi2), m(Y, m(zi2, zi))
}

// ---- ristretto255 after RFC 9496 --------------------------------------------------------

var (
	zvEP    = zvHex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
	zvEN    = zvHex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	zvED    *big.Int
	zvESqM1 *big.Int
	zvEIAMD *big.Int
	zvEB    [4]*big.Int
)

func zvEm(a, b *big.Int) *big.Int   { v := new(big.Int).Mul(a, b); return v.Mod(v, zvEP) }
func zvEadd(a, b *big.Int) *big.Int { v := new(big.Int).Add(a, b); return v.Mod(v, zvEP) }
func zvEsub(a, b *big.Int) *big.Int { v := new(big.Int).Sub(a, b); return v.Mod(v, zvEP) }
func zvEabs(a *big.Int) *big.Int {
	if a.Bit(0) == 1 {
		return zvEsub(new(big.Int), a)
	}
	return a
}

func zvESqrtRatio(u, v *big.Int) (bool, *big.Int) {
	v3 := zvEm(zvEm(v, v), v)
	v7 := zvEm(zvEm(v3, v3), v)
	e := new(big.Int).Rsh(new(big.Int).Sub(zvEP, big.NewInt(5)), 3)
	r := zvEm(zvEm(u, v3), new(big.Int).Exp(zvEm(u, v7), e, zvEP))
	chk := zvEm(v, zvEm(r, r))
	nu := zvEsub(new(big.Int), u)
	correct := chk.Cmp(new(big.Int).Mod(u, zvEP)) == 0
	flipped := chk.Cmp(nu) == 0
	flippedI := chk.Cmp(zvEm(nu, zvESqM1)) == 0
	if flipped || flippedI {
		r = zvEm(r, zvESqM1)
	}
	return correct || flipped, zvEabs(r)
}

func init() {
	one := big.NewInt(1)
	zvED = zvEm(zvEsub(new(big.Int), big.NewInt(121665)), new(big.Int).ModInverse(big.NewInt(121666), zvEP))
	zvESqM1 = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(zvEP, one), 2), zvEP)
	zvESqM1 = zvEabs(zvESqM1)
	_, zvEIAMD = zvESqrtRatio(one, zvEsub(zvEsub(new(big.Int), one), zvED))
	y := zvEm(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), zvEP))
	yy := zvEm(y, y)
	_, x := zvESqrtRatio(zvEsub(yy, one), zvEadd(zvEm(zvED, yy), one))
	zvEB = [4]*big.Int{x, y, one, zvEm(x, y)}
}

func zvEaddPt(a, b [4]*big.Int) [4]*big.Int {
	A := zvEm(zvEsub(a[1], a[0]), zvEsub(b[1], b[0]))
	B := zvEm(zvEadd(a[1], a[0]), zvEadd(b[1], b[0]))
	C := zvEm(zvEm(zvEadd(a[3], a[3]), zvED), b[3])
	D := zvEm(zvEadd(a[2], a[2]), b[2])
	E, F, G, H := zvEsub(B, A), zvEsub(D, C), zvEadd(D, C), zvEadd(B, A)
	return [4]*big.Int{zvEm(E, F), zvEm(G, H), zvEm(F, G), zvEm(E, H)}
}

func zvEencode(p [4]*big.Int) []byte {
	x0, y0, z0, t0 := p[0], p[1], p[2], p[3]
	u1 := zvEm(zvEadd(z0, y0), zvEsub(z0, y0))
	u2 := zvEm(x0, y0)
	_, is := zvESqrtRatio(big.NewInt(1), zvEm(u1, zvEm(u2, u2)))
	d1, d2 := zvEm(is, u1), zvEm(is, u2)
	zi := zvEm(zvEm(d1, d2), t0)
	x, y, di := x0, y0, d2
	if zvEm(t0, zi).Bit(0) == 1 {
		x, y, di = zvEm(y0, zvESqM1), zvEm(x0, zvESqM1), zvEm(d1, zvEIAMD)
	}
	if zvEm(x, zi).Bit(0) == 1 {
		y = zvEsub(new(big.Int), y)
	}
	s := zvEabs(zvEm(di, zvEsub(z0, y)))
	return zvLE(s)
}

func zvLE(s *big.Int) []byte {
	b := make([]byte, 32)
	s.FillBytes(b)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// zvEvalid: b is the canonical encoding of a ristretto255 element.
func zvEvalid(b []byte) bool {
	if len(b) != 32 {
		return false
	}
	c := make([]byte, 32)
	for i := range c {
		c[i] = b[31-i]
	}
	s := new(big.Int).SetBytes(c)
	if s.Cmp(zvEP) >= 0 || s.Bit(0) == 1 {
		return false
	}
	one := big.NewInt(1)
	ss := zvEm(s, s)
	u1, u2 := zvEsub(one, ss), zvEadd(one, ss)
	u2s := zvEm(u2, u2)
	v := zvEsub(zvEsub(new(big.Int), zvEm(zvED, zvEm(u1, u1))), u2s)
	ok, is := zvESqrtRatio(one, zvEm(v, u2s))
	dx := zvEm(is, u2)
	dy := zvEm(zvEm(is, dx), v)
	x := zvEabs(zvEm(zvEm(big.NewInt(2), s), dx))
	y := zvEm(u1, dy)
	return ok && zvEm(x, y).Bit(0) == 0 && y.Sign() != 0
}

// ---- canonical forms --------------------------------------------------------------------

var zvRefMu sync.Mutex
var zvRefCache = map[string]string{}

// zvRef is the canonical form of s times the generator of the named group ("" if unknown).
func zvRef(name string, s *big.Int) string {
	if w := zvWeis[name]; w != nil {
		k := name + new(big.Int).Mod(s, w.n).Text(62)
		zvRefMu.Lock()
		defer zvRefMu.Unlock()
		if v, ok := zvRefCache[k]; ok {
			return v
		}
		x, y := w.base(s)
		v := "O"
		if x != nil {
			v = x.Text(16) + "," + y.Text(16)
		}
		if len(zvRefCache) > 200000 {
			zvRefCache = map[string]string{}
		}
		zvRefCache[k] = v
		return v
	}
	if name == "r255" {
		k := new(big.Int).Mod(s, zvEN)
		key := name + k.Text(62)
		zvRefMu.Lock()
		defer zvRefMu.Unlock()
		if v, ok := zvRefCache[key]; ok {
			return v
		}
		acc := [4]*big.Int{new(big.Int), big.NewInt(1), big.NewInt(1), new(big.Int)}
		for i := k.BitLen() - 1; i >= 0; i-- {
			acc = zvEaddPt(acc, acc)
			if k.Bit(i) == 1 {
				acc = zvEaddPt(acc, zvEB)
			}
		}
		v := hex.EncodeToString(zvEencode(acc))
		zvRefCache[key] = v
		return v
	}
	if _, ok := zvPrimes[name]; ok {
		p := zvPrime(name)
		g := big.NewInt(4)
		if name == "m3072" {
			g = big.NewInt(2)
		}
		q := new(big.Int).Rsh(p, 1)
		return new(big.Int).Exp(g, new(big.Int).Mod(s, q), p).Text(16)
	}
	if t, ok := zvGroup(name).(*zvTG); ok {
		return t.Element().BaseScale(s).String()
	}
	return ""
}

// zvCanon is the canonical form of an element, read from its encodings; "" if they are in a
// form this code does not know, and "!..." if an encoding does not denote a member of the group.
func zvCanon(name string, e group.Element) string {
	b, err := e.MarshalBinary()
	if err != nil {
		return "!no binary encoding: " + err.Error()
	}
	if w := zvWeis[name]; w != nil {
		var x, y *big.Int
		n := w.size
		switch {
		case len(b) == 1 && b[0] == 0:
			return "O"
		case len(b) == 2*n+1 && b[0] == 4:
			x, y = new(big.Int).SetBytes(b[1:n+1]), new(big.Int).SetBytes(b[n+1:])
		case len(b) == 2*n:
			x, y = new(big.Int).SetBytes(b[:n]), new(big.Int).SetBytes(b[n:])
		default:
			var pt struct{ X, Y *big.Int }
			js, err := e.MarshalJSON()
			if err != nil || json.Unmarshal(js, &pt) != nil || pt.X == nil || pt.Y == nil {
				return ""
			}
			x, y = pt.X, pt.Y
		}
		if x.Sign() == 0 && y.Sign() == 0 {
			return "O"
		}
		if !w.on(x, y) {
			return fmt.Sprintf("!not on the curve: %s,%s", x.Text(16), y.Text(16))
		}
		return x.Text(16) + "," + y.Text(16)
	}
	if name == "r255" {
		if len(b) != 32 {
			return ""
		}
		if !zvEvalid(b) {
			return "!not an element: " + hex.EncodeToString(b)
		}
		return hex.EncodeToString(b)
	}
	if _, ok := zvPrimes[name]; ok {
		v := new(big.Int).SetBytes(b)
		p := zvPrime(name)
		if v.Sign() == 0 || v.Cmp(p) >= 0 || big.Jacobi(v, p) != 1 {
			return "!not in the group: " + v.Text(16)
		}
		return v.Text(16)
	}
	return e.String()
}
