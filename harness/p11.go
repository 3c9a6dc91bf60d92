package main

import (
	"math/big"

	"github.com/mearaj/bips/bip32"
)

// specPvtChild gives I and the child scalar BIP-32 prescribes, with ok false where derivation must fail.
func specPvtChild(parent *bip32.Key, idx uint32) (il, ir, child []byte, ok bool) {
	k := append([]byte{}, parent[46:78]...)
	var data []byte
	if idx >= 1<<31 {
		data = append(append([]byte{0}, k...), be32(idx)...)
	} else {
		data = append(append([]byte{}, pubOf(k)...), be32(idx)...)
	}
	i := hmac512(append([]byte{}, parent[13:45]...), data)
	il, ir = i[:32], i[32:]
	s := new(big.Int).Add(new(big.Int).SetBytes(il), new(big.Int).SetBytes(k))
	s.Mod(s, order())
	child = make([]byte, 32)
	s.FillBytes(child)
	return il, ir, child, less(il, orderBytes()) && !allZero(child)
}

func p11(version uint32, hardened bool, k []byte) {
	p := pvtKeyOf(version, k)
	vAssume(p[4] < 255)
	idx := vU32("index")
	vAssume((idx >= 1<<31) == hardened)
	p11of(&p, idx)
}

func p11of(p *bip32.Key, idx uint32) {
	keep := *p
	_, ir, child, ok := specPvtChild(&keep, idx)
	c, err := p.NewChildKey(idx)
	if ok {
		vAssert("accepted", err == nil)
		vAssert("private", c.IsPrivate() && c[45] == 0)
		cc, kb := c.GetChainCode(), c.GetPvtKeyBytes()
		vAssert("chain code", eqBytes(cc[:], ir) && eqBytes(c[13:45], ir))
		vAssert("private key", eqBytes(kb[:], child) && eqBytes(c[46:78], child))
		vObserve("child", c[:])
		vReach("derived")
	} else {
		vAssert("refused with an error", err != nil)
	}
}

func P11_Hardened() { p11(0x0488ade4, true, scalar("k")) }
func P11_Plain()    { p11(0x0488ade4, false, scalar("k")) }

func P11_AnyVersionHardened() { p11(anyVersion(true), true, scalar("k")) }
func P11_AnyVersionPlain()    { p11(anyVersion(true), false, scalar("k")) }

// Parents whose key or point is unusually short.
func P11_Thin() { p11(0x0488ade4, false, thinScalar(8)) }
