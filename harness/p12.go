package main

import (
	"math/big"

	"github.com/mearaj/bips/bip32"
)

// addScalars is (a+b) mod n as 32 bytes; the point of it is the sum of the points of a and b.
func addScalars(a, b []byte) []byte {
	s := new(big.Int).Add(new(big.Int).SetBytes(a), new(big.Int).SetBytes(b))
	s.Mod(s, order())
	out := make([]byte, 32)
	s.FillBytes(out)
	return out
}

func p12(version uint32, k []byte) {
	// every point of the curve is the multiple of the base point by some k
	p := pubKeyOf(version, k)
	vAssume(p[4] < 255)
	idx := vU32("index")
	vAssume(idx < 1<<31)
	p12of(&p, k, idx)
}

func p12of(p *bip32.Key, k []byte, idx uint32) {
	keep := *p
	i := hmac512(append([]byte{}, keep[13:45]...), append(append([]byte{}, keep[45:78]...), be32(idx)...))
	il, ir := i[:32], i[32:]
	sum := addScalars(il, k)
	c, err := p.NewChildKey(idx)
	if less(il, orderBytes()) && !allZero(sum) {
		vAssert("accepted", err == nil)
		vAssert("public", !c.IsPrivate())
		cc, kb := c.GetChainCode(), c.GetKeyBytes()
		vAssert("chain code", eqBytes(cc[:], ir) && eqBytes(c[13:45], ir))
		vAssert("public key", eqBytes(kb[:], pubOf(sum)) && eqBytes(c[45:78], kb[:]))
		vObserve("child", c[:])
		vReach("derived")
	} else {
		vAssert("refused with an error", err != nil)
	}
}

func P12_Default() { p12(0x0488b21e, scalar("k")) }

func P12_AnyVersion() { p12(anyVersion(false), scalar("k")) }

// Parents whose point is unusually short.
func P12_Thin() { p12(0x0488b21e, thinScalar(8)) }

// Hardened indexes are refused whatever the key material, the version and the depth.
func P12_Hardened() {
	var p bip32.Key
	copy(p[:], vBytes("key", 78))
	vAssume(p[45] != 0)
	idx := vU32("index")
	vAssume(idx >= 1<<31)
	_, err := p.NewChildKey(idx)
	vAssert("hardened child of a public key refused", err != nil)
	vReach("hardened")
}
