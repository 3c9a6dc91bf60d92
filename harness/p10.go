package main

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/hex"
	"math/big"

	"github.com/mearaj/bips/bip32"
)

// the order of the group, independent of the code under test
var orderHex = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"

func order() *big.Int {
	n, _ := new(big.Int).SetString(orderHex, 16)
	return n
}

func orderBytes() []byte {
	b, _ := hex.DecodeString(orderHex)
	return b
}

// less compares equally long big-endian numbers.
func less(a, b []byte) bool {
	return new(big.Int).SetBytes(a).Cmp(new(big.Int).SetBytes(b)) < 0
}

func allZero(b []byte) bool {
	var o byte
	for _, x := range b {
		o |= x
	}
	return o == 0
}

func hmac512(key, data []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	return h.Sum(nil)
}

func p10(n int) { p10of(vBytes("seed", n)) }

func p10of(seed []byte) {
	keep := append([]byte{}, seed...)
	i := hmac512([]byte("Bitcoin seed"), keep)
	ok := !allZero(i[:32]) && less(i[:32], orderBytes())
	k, err := bip32.NewMasterKey(seed)
	if ok {
		vAssert("accepted", err == nil && k != nil)
		vAssert("version", k.GetVersion() == 0x0488ade4)
		vAssert("depth", k.GetDepth()[0] == 0)
		fp, cn := k.GetFingerPrint(), k.GetChildNumber()
		vAssert("fingerprint and child number", allZero(fp[:]) && allZero(cn[:]))
		cc, kb, pk := k.GetChainCode(), k.GetKeyBytes(), k.GetPvtKeyBytes()
		vAssert("chain code", eqBytes(cc[:], i[32:]))
		vAssert("private key", kb[0] == 0 && eqBytes(kb[1:], i[:32]) && eqBytes(pk[:], i[:32]))
		want := append(append(append([]byte{0x04, 0x88, 0xad, 0xe4, 0, 0, 0, 0, 0, 0, 0, 0, 0}, i[32:]...), 0), i[:32]...)
		vAssert("the 78 bytes", eqBytes(k[:], want))
		vObserve("key", k[:])
		vReach("master key")
	} else {
		vAssert("refused with an error", err != nil)
		vAssert("no key", k == nil)
	}
}

func P10_Master64() { p10(64) }

func P10_MasterLengths() {
	n := 66
	if vThorough() {
		n = 300
	}
	p10(vChoose("length", n))
}

// Longer seeds, among them the 256 bytes that NewSeed makes.
func P10_LongSeeds() {
	l := []int{80, 127, 128, 129, 200, 255, 256, 257, 320, 512, 1000}
	p10(l[vChoose("length", len(l))])
}
