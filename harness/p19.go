package main

import (
	"math/big"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
)

// expanded compares what bip32 makes of the compressed encoding of a point with the point itself.
func expanded(c, full []byte) {
	keep := append([]byte{}, c...)
	x, y := bip32.ExpandPublicKey(c)
	vAssert("the x coordinate", x.Sign() >= 0 && x.Cmp(new(big.Int).SetBytes(full[1:33])) == 0)
	vAssert("the y coordinate", y.Sign() >= 0 && y.Cmp(new(big.Int).SetBytes(full[33:65])) == 0)
	vAssert("the encoding is left alone", eqBytes(c, keep))
	a, b := make([]byte, 32), make([]byte, 32)
	x.FillBytes(a)
	y.FillBytes(b)
	vObserve("point", append(a, b...))
	vReach("expanded")
}

// Every point as a multiple of the generator.
func p19scalar(k []byte) {
	p := secp256k1.PrivKeyFromBytes(k).PubKey()
	expanded(p.SerializeCompressed(), p.SerializeUncompressed())
}

func P19_Scalar() { p19scalar(scalar("k")) }
func P19_Thin()   { p19scalar(thinScalar(8)) }

// Every 33 bytes that encode a point.
func P19_Encoding() {
	b := vBytes("encoding", 33)
	p, err := secp256k1.ParsePubKey(append([]byte{}, b...))
	vAssume(err == nil)
	expanded(b, p.SerializeUncompressed())
}

// The public forms of keys, whose points are on the curve by construction.
func P19_PublicForm() {
	k := thinScalar(8)
	x := pvtKeyOf(0x0488ade4, k)
	y := x.PublicKeyExtended()
	expanded(y[45:], secp256k1.PrivKeyFromBytes(k).PubKey().SerializeUncompressed())
}

// A point, its negation and the point again: what was expanded before plays no part.
func negated(c, full []byte) {
	p := secp256k1.S256().Params().P
	x, y := new(big.Int).SetBytes(full[1:33]), new(big.Int).SetBytes(full[33:65])
	d := append([]byte{}, c...)
	d[0] ^= 1
	if vChoose("order", 2) == 0 {
		bip32.ExpandPublicKey(append([]byte{}, c...))
		u, v := bip32.ExpandPublicKey(d)
		vAssert("the negated point", u.Cmp(x) == 0 && v.Cmp(new(big.Int).Sub(p, y)) == 0)
	} else {
		bip32.ExpandPublicKey(d)
		u, v := bip32.ExpandPublicKey(append([]byte{}, c...))
		vAssert("the point", u.Cmp(x) == 0 && v.Cmp(y) == 0)
	}
	vReach("negated")
}

func P19_Negated() {
	p := secp256k1.PrivKeyFromBytes(scalar("k")).PubKey()
	negated(p.SerializeCompressed(), p.SerializeUncompressed())
}

func P19_NegatedEncoding() {
	b := vBytes("encoding", 33)
	p, err := secp256k1.ParsePubKey(append([]byte{}, b...))
	vAssume(err == nil)
	negated(b, p.SerializeUncompressed())
}
