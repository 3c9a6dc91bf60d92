package main

import (
	"crypto/sha256"

	"github.com/btcsuite/btcutil/base58"
	"github.com/mearaj/bips/bip32"
)

func checksum(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:4]
}

func roundTrip(k bip32.Key) { roundTripOf(&k) }

func roundTripOf(k *bip32.Key) {
	keep := *k
	want := append(append([]byte{}, keep[:]...), checksum(keep[:])...)
	ser, err := k.Serialize()
	vAssert("serializes", err == nil)
	vAssert("78 bytes and the checksum", eqBytes(ser, want))
	s := k.B58Serialize()
	vAssert("Base58 of the serialization", s == base58.Encode(want) && k.String() == s)
	back, err := bip32.Deserialize(ser)
	vAssert("deserializes to the same key", err == nil && back == keep)
	back, err = bip32.B58Deserialize(s)
	vAssert("Base58 deserializes to the same key", err == nil && back == keep)
	vAssert("valid", k.IsValid())
	vObserve("serialization", ser)
	vReach("round trip")
}

func P15_Private() { roundTrip(pvtKeyOf(anyVersion(true), scalar("k"))) }
func P15_Public()  { roundTrip(pubKeyOf(anyVersion(false), scalar("k"))) }

// Keys under versions that are not registered serialize and come back too.
func P15_AnyVersionPrivate() {
	v := vU32("version")
	reg := map[uint32]bool{}
	for _, p := range versionPairs() {
		reg[p[0]], reg[p[1]] = true, true
	}
	vAssume(!reg[v])
	roundTrip(pvtKeyOf(v, scalar("k")))
}

func P15_Empty() {
	var k bip32.Key
	ser, err := k.Serialize()
	vAssert("an empty key does not serialize", err != nil && len(ser) == 0)
	vAssert("an empty key has no Base58 form", k.B58Serialize() == "" && k.String() == "")
	vAssert("an empty key is not valid", !k.IsValid())
}

// Whatever the 78 bytes, serializing appends the checksum, and only the all-zero key is refused.
func P15_AnyBytes() {
	var k bip32.Key
	copy(k[:], vBytes("key", 78))
	keep := k
	ser, err := k.Serialize()
	if allZero(keep[:]) {
		vAssert("an empty key does not serialize", err != nil)
	} else {
		vAssert("serializes", err == nil)
		vAssert("78 bytes and the checksum", eqBytes(ser, append(append([]byte{}, keep[:]...), checksum(keep[:])...)))
		vReach("serialized")
	}
}

// A string of another length, or with another checksum, is refused; nothing panics.
func P15_Damaged() {
	b := vBytes("data", 82)
	ok := eqBytes(b[78:], checksum(b[:78]))
	var err error
	vAssert("no panic", !vPanics(func() { _, err = bip32.Deserialize(b) }))
	if !ok {
		vAssert("a wrong checksum is refused", err != nil)
		vReach("wrong checksum")
	}
}

func wrongLength(n int) {
	b := vBytes("data", n)
	var err error
	vAssert("no panic", !vPanics(func() { _, err = bip32.Deserialize(b) }))
	vAssert("a wrong length is refused", err != nil)
	vReach("wrong length")
}

func P15_WrongLength() {
	n := vChoose("length", 165)
	vAssume(n != 82)
	wrongLength(n)
}

func P15_NilInput() {
	var err error
	vAssert("no panic", !vPanics(func() { _, err = bip32.Deserialize(nil) }))
	vAssert("no bytes are refused", err != nil)
}

// The same through Base58: what does not decode to 82 bytes with the right checksum is refused.
func P15_Base58Damaged() {
	b := vBytes("data", 82)
	ok := eqBytes(b[78:], checksum(b[:78]))
	s := base58.Encode(b)
	var err error
	vAssert("no panic", !vPanics(func() { _, err = bip32.B58Deserialize(s) }))
	if !ok {
		vAssert("a wrong checksum is refused", err != nil)
		vReach("wrong checksum")
	}
}

func P15_Base58WrongLength() {
	n := vChoose("length", 100)
	vAssume(n != 82)
	s := base58.Encode(vBytes("data", n))
	var err error
	vAssert("no panic", !vPanics(func() { _, err = bip32.B58Deserialize(s) }))
	vAssert("a wrong length is refused", err != nil)
	vReach("wrong length")
}

// Text that is not Base58, or empty, is refused.
func P15_NotBase58() {
	n := vChoose("length", 4)
	s := vString("text", n)
	var err error
	vAssert("no panic", !vPanics(func() { _, err = bip32.B58Deserialize(s) }))
	vAssert("short text is refused", err != nil)
}
