package main

import (
	"github.com/mearaj/bips/bip39"
)

// constReader delivers endless zero bytes.
type constReader struct{}

func (constReader) Read(b []byte) (int, error) { return len(b), nil }

// any requested size
func P04_NewEntropy() {
	setRand(constReader{})
	bits := int(vU64("bits"))
	ok := bits == 128 || bits == 160 || bits == 192 || bits == 224 || bits == 256
	var e []byte
	var err error
	p := vPanics(func() { e, err = bip39.NewEntropy(bits) })
	vAssert("no panic", !p)
	vAssert("exactly the five sizes are accepted", (err == nil) == ok)
	if ok {
		vAssert("returned size", 8*len(e) == bits)
		vReach("accepted")
	} else {
		vAssert("no output", len(e) == 0)
		vReach("refused")
	}
}

// any entropy length within the bound
func P04_NewMnemonic() {
	n := 70
	if vThorough() {
		n = 600
	}
	n = vChoose("length", n)
	e := vBytes("entropy", n)
	ok := n == 16 || n == 20 || n == 24 || n == 28 || n == 32
	var m string
	var err error
	p := vPanics(func() { m, err = bip39.NewMnemonic(e) })
	vAssert("no panic", !p)
	vAssert("exactly the five sizes are accepted", (err == nil) == ok)
	if ok {
		vAssert("a sentence", m != "")
		vReach("accepted")
	} else {
		vAssert("no output", m == "")
		vReach("refused")
	}
	m2, err2 := bip39.NewMnemonic(nil)
	vAssert("nil refused", m2 == "" && err2 != nil)
}

// lengths that are right by their last eight, sixteen or more bits, in bytes or in bits
func P04_LongEntropy() {
	n := []int{128, 255, 256, 272, 276, 280, 284, 288, 528, 1036, 1040, 1056, 2064, 4112, 8192, 8208, 65536, 65552, 65568, 1<<20 + 16}[vChoose("length", 20)]
	e := make([]byte, n)
	e[0], e[n-1] = vByte("first"), vByte("last")
	var m string
	var err error
	vAssert("no panic", !vPanics(func() { m, err = bip39.NewMnemonic(e) }))
	vAssert("refused", err != nil && m == "")
	vReach("refused")
}

// sizes that are right but for one higher bit, or for their sign
func P04_NewEntropyWrapped() {
	setRand(constReader{})
	bits := 128 + 32*vChoose("size", 5)
	switch k := vChoose("bit", 17); {
	case k < 15:
		bits += 1 << (9 + k)
	case k == 15:
		bits = -bits
	default:
		bits -= 1 << 20
	}
	var e []byte
	var err error
	vAssert("no panic", !vPanics(func() { e, err = bip39.NewEntropy(bits) }))
	vAssert("refused", err != nil && len(e) == 0)
	vReach("refused")
}
