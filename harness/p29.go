package main

import (
	"encoding/hex"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
)

// nibbles reads a text as hex digits.
func nibbles(s string) (b []byte, ok bool) {
	ok = len(s)%2 == 0
	b = make([]byte, len(s)/2)
	for i := 0; i < len(s)/2*2; i++ {
		c := s[i]
		var v byte
		switch {
		case c >= '0' && c <= '9':
			v = c - '0'
		case c >= 'a' && c <= 'f':
			v = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			v = c - 'A' + 10
		default:
			ok = false
		}
		if i%2 == 0 {
			v <<= 4
		}
		b[i/2] |= v
	}
	return
}

func p29(s string, seed []byte, wellformed bool) {
	var k *bip32.Key
	var err error
	if vPanics(func() { k, err = util.RootKeyFromSeed(s) }) {
		vAssert("no panic", false)
		return
	}
	if wellformed && len(seed) >= 16 {
		i := hmac512([]byte("Bitcoin seed"), seed)
		if !allZero(i[:32]) && less(i[:32], orderBytes()) {
			vAssert("accepted", err == nil && k != nil)
			if k != nil {
				vAssert("the master key", *k == rawKey(0x0488ade4, 0, nil, nil, i[32:], append([]byte{0}, i[:32]...)))
				vObserve("key", k[:])
			}
			vReach("accepted")
			return
		}
		vReach("no master key")
	}
	vAssert("refused", err != nil)
	if k != nil {
		vAssert("no usable key", !k.IsValid())
	}
	vReach("refused")
}

// Seeds of any contents, in lower or upper case digits.
func P29_AnySeed() {
	n := []int{0, 1, 15, 16, 17, 20, 32, 64, 65, 128, 256, 257, 512}[vChoose("bytes", 13)]
	seed := vBytes("seed", n)
	s := hex.EncodeToString(seed)
	p29(s, append([]byte{}, seed...), true)
}

func P29_AnyText() {
	s := vString("seed", vChoose("length", 6))
	b, ok := nibbles(s)
	p29(s, b, ok)
}

// Texts just as long as they need to be, with any few characters.
func P29_LongText() {
	n := []int{31, 32, 64}[vChoose("length", 3)]
	if vThorough() {
		n = []int{30, 33, 34, 36, 128}[vChoose("other length", 5)]
	}
	b := []byte{}
	for i := 0; i < n; i++ {
		b = append(b, "0123456789abcdefABCDEF"[i%22])
	}
	b[vChoose("place", 3)*(n-1)/2] = vByte("character")
	s := string(b)
	x, ok := nibbles(s)
	p29(s, x, ok)
}

// White space and prefixes are no digits.
func P29_Decorated() {
	h := "000102030405060708090a0b0c0d0e0f"
	s := []string{" " + h, h + " ", h + "\n", "0x" + h, h[:16] + " " + h[16:], "\t" + h, h + "  "}[vChoose("form", 7)]
	x, ok := nibbles(s)
	vAssert("malformed", !ok)
	p29(s, x, false)
}

// Odd numbers of digits, few or many, stand for no bytes.
func P29_OddLength() {
	n := []int{31, 33, 35, 63, 65, 127, 129, 131, 255, 257, 511, 513, 1023, 1025}[vChoose("length", 14)]
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdefABCDEF"[i%22]
	}
	b[0], b[n-1] = vByte("first"), vByte("last")
	p29(string(b), nil, false)
}
