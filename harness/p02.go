package main

import (
	"crypto/sha256"
	"strings"

	"github.com/mearaj/bips/bip39"
)

// specBits gives bit i of entropy || SHA-256(entropy), most significant first.
func specBit(e []byte, sum [32]byte, i int) int {
	if i < 8*len(e) {
		return int(e[i/8]>>(7-i%8)) & 1
	}
	i -= 8 * len(e)
	return int(sum[i/8]>>(7-i%8)) & 1
}

// specIndexes gives the word indexes BIP-39 prescribes for an entropy.
func specIndexes(e []byte) []int {
	sum := sha256.Sum256(e)
	n := (8*len(e) + len(e)/4) / 11
	idx := make([]int, n)
	for k := range idx {
		v := 0
		for j := 0; j < 11; j++ {
			v = v<<1 | specBit(e, sum, 11*k+j)
		}
		idx[k] = v
	}
	return idx
}

func p02(n int, list []string) { p02of(vBytes("entropy", n), list) }

func p02of(e []byte, list []string) {
	n := len(e)
	keep := append([]byte{}, e...)
	m, err := bip39.NewMnemonic(e)
	vAssert("encoding accepts the entropy", err == nil)
	idx := specIndexes(keep)
	vAssert("word count", len(idx) == n*3/4)
	want := make([]string, len(idx))
	for k := range idx {
		want[k] = list[idx[k]]
	}
	vAssert("sentence", m == strings.Join(want, " "))
	vObserve("sentence", m)
	vReach("encoded")
}

func P02_Default128() { p02(16, bundled[0]) }
func P02_Default160() { p02(20, bundled[0]) }
func P02_Default192() { p02(24, bundled[0]) }
func P02_Default224() { p02(28, bundled[0]) }
func P02_Default256() { p02(32, bundled[0]) }

func P02_Bundled() {
	l := bundled[vChoose("list", len(bundled))]
	bip39.SetWordList(l)
	p02(16+4*vChoose("size", 5), l)
}

func P02_Caller() {
	l := callerList(vChoose("list", 3))
	bip39.SetWordList(l)
	p02(16+4*vChoose("size", 5), l)
}
