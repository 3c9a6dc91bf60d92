package main

import "github.com/mearaj/bips/bip32"

// Every 32-byte key.
func P20_AnyKey() {
	var k bip32.PvtKeyBytes
	copy(k[:], vBytes("key", 32))
	p20(k)
}

// Keys that share their first 16 bytes with the group order, where only the low half decides.
func P20_NearOrder() {
	var k bip32.PvtKeyBytes
	copy(k[:16], orderBytes())
	copy(k[16:], vBytes("low", 16))
	p20(k)
}

// Keys of a single nonzero bit.
func P20_OneBit() {
	var k bip32.PvtKeyBytes
	i := vPick(vIndex("byte", 32))
	k[i] = 1 << vPick(vIndex("bit", 8))
	p20(k)
}

func p20(k bip32.PvtKeyBytes) {
	keep := k
	err := bip32.ValidatePrivateKey(k)
	if !allZero(keep[:]) && less(keep[:], orderBytes()) {
		vAssert("a key in the range is valid", err == nil)
		vReach("valid")
	} else {
		vAssert("a key outside the range is refused", err == bip32.ErrInvalidPrivateKey)
		vReach("refused")
	}
	vObserve("valid", err == nil)
}

// The way every extended private key is judged: the same range.
func P20_Key() {
	kb := vBytes("key", 32)
	x := rawKey(0x0488ade4, 1, []byte{1, 2, 3, 4}, []byte{0, 0, 0, 5}, vBytes("chaincode", 32), append([]byte{0}, kb...))
	vAssert("an extended private key is valid exactly with a key in the range", x.IsValid() == (!allZero(kb) && less(kb, orderBytes())))
	vReach("key")
}
