package main

import (
	"bytes"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
)

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// drawn gives a source of n symbolic bytes delivered in one of several ways
func drawn(n int) *source {
	s := &source{data: vBytes("random", n), chunk: []int{0, 1, 7}[vChoose("chunk", 3)]}
	setRand(s)
	return s
}

func P05_NewEntropy() {
	n := 16 + 4*vChoose("size", 5)
	s := drawn(n)
	e, err := bip39.NewEntropy(8 * n)
	vAssert("no error", err == nil)
	vAssert("exactly the drawn bytes", eqBytes(e, s.data))
	vAssert("all bytes drawn", s.pos == n)
	vObserve("entropy", e)
	// the next entropy consists of the next bytes
	t := &source{data: vBytes("more", n)}
	setRand(t)
	e2, err2 := bip39.NewEntropy(8 * n)
	vAssert("second draw", err2 == nil && eqBytes(e2, t.data))
	vAssert("first result untouched", eqBytes(e, s.data))
	vReach("drawn")
}

func P05_NewEntropyFails() {
	n := 16 + 4*vChoose("size", 5)
	drawn(vChoose("available", n))
	e, err := bip39.NewEntropy(8 * n)
	vAssert("failure of the source is reported", err != nil)
	vAssert("no entropy from a failed source", len(e) == 0)
	vReach("failed")
}

func P05_NewSeed() {
	s := drawn(300)
	b, err := bip32.NewSeed()
	vAssert("no error", err == nil)
	vAssert("at least 16 bytes", len(b) >= 16)
	vAssert("exactly the drawn bytes", s.pos == len(b) && eqBytes(b, s.data[:s.pos]))
	vObserve("seed", b)
	vReach("drawn")
}

func P05_NewSeedFails() {
	drawn([]int{0, 1, 16, 64, 128, 255}[vChoose("available", 6)])
	b, err := bip32.NewSeed()
	vAssert("failure of the source is reported", err != nil)
	vAssert("no seed from a failed source", len(b) == 0)
	vReach("failed")
}

func P05_Mnemonic() {
	k := vChoose("size", 5)
	s := drawn(16 + 4*k)
	keep := append([]byte{}, s.data...)
	m, err := util.GenerateMnemonic(byte(12 + 3*k))
	vAssert("no error", err == nil)
	w, err := bip39.NewMnemonic(keep)
	vAssert("sentence of the drawn bytes", err == nil && m == w)
	vAssert("all bytes drawn", s.pos == len(keep))
	vObserve("sentence", m)
	vReach("drawn")
}

func P05_MnemonicFails() {
	k := vChoose("size", 5)
	drawn(vChoose("available", 16+4*k))
	m, err := util.GenerateMnemonic(byte(12 + 3*k))
	vAssert("failure of the source is reported", err != nil)
	vAssert("no sentence from a failed source", m == "")
	vReach("failed")
}
