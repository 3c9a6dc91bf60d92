package main

import (
	"crypto/sha256"
	"strings"

	"github.com/mearaj/bips/bip39"
)

// specFull is entropy followed by its checksum bits as one right-aligned number.
func specFull(e []byte) []byte {
	sum := sha256.Sum256(e)
	cs := len(e) / 4
	out := make([]byte, len(e)+1)
	for i := 0; i < 8*len(e)+cs; i++ {
		at := 8*len(out) - 8*len(e) - cs + i
		out[at/8] |= byte(specBit(e, sum, i)) << (7 - at%8)
	}
	return out
}

func p06(n int, m string, e []byte) {
	full, err := bip39.MnemonicToByteArray(m)
	vAssert("accepted", err == nil)
	vAssert("length is entropy bytes + 1", len(full) == n+1)
	vAssert("entropy and checksum right-aligned", eqBytes(full, specFull(e)))
	full2, err := bip39.MnemonicToByteArray(m, false)
	vAssert("explicit non-raw form", err == nil && eqBytes(full2, full))
	full2, err = bip39.MnemonicToByteArray(m, false, true)
	vAssert("the first flag counts", err == nil && eqBytes(full2, full))
	raw, err := bip39.MnemonicToByteArray(m, true)
	vAssert("raw accepted", err == nil)
	vAssert("raw form is the entropy", eqBytes(raw, e))
	vObserve("full", full)
	vReach("valid sentence")
}

func p06ent(n int) {
	e := vBytes("entropy", n)
	keep := append([]byte{}, e...)
	m, err := bip39.NewMnemonic(e)
	vAssert("encoded", err == nil)
	p06(n, m, keep)
}

func P06_Bytes128() { p06ent(16) }
func P06_Bytes160() { p06ent(20) }
func P06_Bytes192() { p06ent(24) }
func P06_Bytes224() { p06ent(28) }
func P06_Bytes256() { p06ent(32) }

// the same words under other separators
func P06_Whitespace() {
	n := 16 + 4*vChoose("size", 5)
	e := vBytes("entropy", n)
	keep := append([]byte{}, e...)
	m, err := bip39.NewMnemonic(e)
	vAssert("encoded", err == nil)
	sp := spaces[vChoose("space", len(spaces))]
	w := strings.Split(m, " ")
	switch vChoose("where", 4) {
	case 0:
		m = strings.Join(w, sp)
	case 1:
		m = sp + strings.Join(w, " ")
	case 2:
		m = strings.Join(w, " ") + sp
	case 3:
		m = strings.Join(w[:len(w)/2], " ") + sp + strings.Join(w[len(w)/2:], " ")
	}
	p06(n, m, keep)
}

func P06_Lists() {
	bip39.SetWordList(bundled[1+vChoose("list", len(bundled)-1)])
	p06ent(16 + 4*vChoose("size", 5))
}
