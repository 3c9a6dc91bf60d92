package main

import (
	"crypto/sha256"

	"github.com/btcsuite/btcutil/base58"
	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"golang.org/x/crypto/ripemd160"
)

func b58addr(prefix byte, pub []byte) string {
	s := sha256.Sum256(pub)
	r := ripemd160.New()
	r.Write(s[:])
	b := append([]byte{prefix}, r.Sum(nil)...)
	c := sha256.Sum256(b)
	d := sha256.Sum256(c[:])
	return base58.Encode(append(b, d[:4]...))
}

func p28(k []byte, version [2]uint32) {
	v := vByte("prefix")
	pvt := pvtKeyOf(version[0], k)
	pub := pvt
	copy(pub[:4], be32(version[1]))
	copy(pub[45:], pubOf(k))
	want := b58addr(v, pubOf(k))
	a := util.KeyPath{Path: "m", Key: pvt}.AddrP2SH(v)
	b := util.KeyPath{Path: "m/0", Key: pub}.AddrP2SH(v)
	vAssert("the address of the private key", a == want)
	vAssert("the address of the public key", b == want)
	h, err := bip32.HashRipeMD160onSha256(pubOf(k))
	vAssert("the hash", err == nil && eqBytes(h, hash160(pubOf(k))))
	vReach("addressed")
}

func P28_AnyKey()     { p28(scalar("k"), [2]uint32{0x0488ade4, 0x0488b21e}) }
func P28_Thin()       { p28(thinScalar(8), [2]uint32{0x0488ade4, 0x0488b21e}) }
func P28_AnyVersion() { a, b := anyPair(); p28(scalar("k"), [2]uint32{a, b}) }

// The address of a key under one version byte after those under any other.
func P28_Again() {
	k := scalar("k")
	pvt := pvtKeyOf(0x0488ade4, k)
	e, v := vByte("earlier"), vByte("prefix")
	if vChoose("same prefix", 2) == 1 {
		v = e
	}
	p := util.KeyPath{Path: "m/0", Key: pvt}
	first := p.AddrP2SH(e)
	vAssert("the first address", first == b58addr(e, pubOf(k)))
	vAssert("the next address", p.AddrP2SH(v) == b58addr(v, pubOf(k)))
	vAssert("the first address again", p.AddrP2SH(e) == first)
	other := thinScalar(8)
	vAssert("the address of another key", util.KeyPath{Path: "m/0", Key: pvtKeyOf(0x0488ade4, other)}.AddrP2SH(v) == b58addr(v, pubOf(other)))
	vReach("addressed")
}

func P28_AnyPoint() {
	b := vBytes("point", 33)
	vAssume(b[0] == 2 || b[0] == 3)
	_, err := secp256k1.ParsePubKey(append([]byte{}, b...))
	vAssume(err == nil)
	k := rawKey(0x0488b21e, vByte("depth"), make([]byte, 4), make([]byte, 4), vBytes("chaincode", 32), b)
	v := vByte("prefix")
	vAssert("the address", util.KeyPath{Key: k}.AddrP2SH(v) == b58addr(v, b))
	vReach("addressed")
}

// The hashes of any text.
func P28_Hashes() {
	n := vChoose("length", 70)
	if vThorough() {
		n = vChoose("longer", 300)
	}
	b := vBytes("data", n)
	keep := append([]byte{}, b...)
	h, err := bip32.HashRipeMD160onSha256(b)
	vAssert("hash160", err == nil && eqBytes(h, hash160(keep)))
	c, err := bip32.ChecksumDblSha256(b)
	x := sha256.Sum256(keep)
	y := sha256.Sum256(x[:])
	vAssert("checksum", err == nil && eqBytes(c, y[:4]))
	d, err := bip32.AddChecksumDblSha256ToBytes(b)
	vAssert("with its checksum", err == nil && eqBytes(d, append(append([]byte{}, keep...), y[:4]...)))
	vAssert("the data stays", eqBytes(b, keep))
	vReach("hashed")
}
