package main

import (
	"encoding/hex"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"golang.org/x/crypto/sha3"
)

func ethOf(uncompressed []byte) string {
	h := sha3.NewLegacyKeccak256()
	h.Write(uncompressed[1:])
	return hex.EncodeToString(h.Sum(nil)[12:])
}

func p27(k []byte, version [2]uint32) {
	pvt := pvtKeyOf(version[0], k)
	pub := pvt
	copy(pub[:4], be32(version[1]))
	copy(pub[45:], pubOf(k))
	want := ethOf(secp256k1.PrivKeyFromBytes(k).PubKey().SerializeUncompressed())
	a := util.KeyPath{Path: "m", Key: pvt}.AddrHex()
	b := util.KeyPath{Path: "m/0", Key: pub}.AddrHex()
	vAssert("40 digits", len(a) == 40 && len(b) == 40)
	vAssert("the address of the private key", a == want)
	vAssert("the address of the public key", b == want)
	vObserve("address", a)
	vReach("addressed")
}

func P27_AnyKey()     { p27(scalar("k"), [2]uint32{0x0488ade4, 0x0488b21e}) }
func P27_Thin()       { p27(thinScalar(8), [2]uint32{0x0488ade4, 0x0488b21e}) }
func P27_AnyVersion() { a, b := anyPair(); p27(scalar("k"), [2]uint32{a, b}) }

// Any point on the curve, given by its coordinates.
func P27_AnyPoint() {
	b := vBytes("point", 33)
	vAssume(b[0] == 2 || b[0] == 3)
	p, err := secp256k1.ParsePubKey(append([]byte{}, b...))
	vAssume(err == nil)
	k := rawKey(0x0488b21e, vByte("depth"), make([]byte, 4), make([]byte, 4), vBytes("chaincode", 32), b)
	a := util.KeyPath{Key: k}.AddrHex()
	vAssert("the address", a == ethOf(p.SerializeUncompressed()))
	vReach("addressed")
}

// Nothing else in the key counts.
func P27_Rest() {
	k := thinScalar(3)
	x, y := pvtKeyOf(0x0488ade4, k), rawKey(0x0488ade4, 0, nil, nil, make([]byte, 32), append([]byte{0}, k...))
	a := util.KeyPath{Path: bip32.Path(vString("path", 3)), Key: x}.AddrHex()
	vAssert("the key alone counts", a == util.KeyPath{Key: y}.AddrHex())
	vReach("addressed")
}
