package main

import (
	"encoding/hex"

	"github.com/mearaj/bips/bip32"
)

func P17_Private()     { p17private(scalar("k")) }
func P17_ThinPrivate() { p17private(thinScalar(8)) }
func P17_Public()      { p17public(scalar("k")) }
func P17_ThinPublic()  { p17public(thinScalar(8)) }

func p17private(k []byte) {
	pvt, pub := anyPair()
	p := pvtKeyOf(pvt, k)
	p17of(&p, k, pub)
}

func p17of(p *bip32.Key, k []byte, pub uint32) {
	keep := *p
	x := p.PublicKeyExtended()
	vAssert("paired public version", x.GetVersion() == pub && eqBytes(x[0:4], be32(pub)))
	vAssert("depth, parent fingerprint, child number and chain code", eqBytes(x[4:45], keep[4:45]))
	vAssert("public point", eqBytes(x[45:78], pubOf(k)) && !x.IsPrivate())
	vAssert("public key hex", p.PublicKeyHex() == hex.EncodeToString(pubOf(k)))
	vAssert("private key hex", p.PrivateKeyHex() == hex.EncodeToString(k))
	vAssert("hex of the public form", x.PublicKeyHex() == p.PublicKeyHex())
	vAssert("no private hex from the public form", x.PrivateKeyHex() == "")
	vObserve("public", x[:])
	y := x.PublicKeyExtended()
	vAssert("the public form of a public key is itself", y == x)
	vReach("private")
}

func P17_Unregistered() {
	k := scalar("k")
	v := vU32("version")
	reg := map[uint32]bool{}
	for _, p := range versionPairs() {
		reg[p[0]] = true
	}
	vAssume(!reg[v])
	p := pvtKeyOf(v, k)
	keep := p
	x := p.PublicKeyExtended()
	vAssert("default public version", x.GetVersion() == 0x0488b21e)
	vAssert("depth, parent fingerprint, child number and chain code", eqBytes(x[4:45], keep[4:45]))
	vAssert("public point", eqBytes(x[45:78], pubOf(k)))
	vReach("unregistered")
}

func p17public(k []byte) {
	p := pubKeyOf(anyVersion(false), k)
	keep := p
	x := p.PublicKeyExtended()
	vAssert("the public form of a public key is itself", x == keep)
	vAssert("public key hex", p.PublicKeyHex() == hex.EncodeToString(pubOf(k)))
	vAssert("no private hex", p.PrivateKeyHex() == "")
	vReach("public")
}
