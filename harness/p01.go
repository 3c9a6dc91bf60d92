package main

import (
	"bytes"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
)

var bundled = [][]string{
	wordlists.English, wordlists.ChineseSimplified, wordlists.ChineseTraditional, wordlists.Czech, wordlists.French,
	wordlists.Italian, wordlists.Japanese, wordlists.Korean, wordlists.Portuguese, wordlists.Spanish,
}

// callerList builds lists of 2048 distinct words no bundled list looks like: words that are prefixes of one another,
// words of very different lengths, and a permutation of an active list.
func callerList(kind int) []string {
	l := make([]string, 2048)
	for i := range l {
		switch kind {
		case 0: // fixed length
			l[i] = string([]byte{'k', byte('a' + i>>8), byte('a' + i>>4&15), byte('a' + i&15)})
		case 1: // a permutation of the English list
			l[i] = wordlists.English[(i*1237+911)&2047]
		default: // prefixes of one another, mixed case, digits and non-ASCII bytes
			w := []byte("Ab\xc3\xa9-AbAbAb")[:4+i&7]
			x := i >> 3
			for x > 0 {
				w = append(w, byte('0'+x%10))
				x /= 10
			}
			l[i] = string(w)
		}
	}
	return l
}

func p01trip(n int) { p01of(vBytes("entropy", n)) }

func p01of(e []byte) {
	n := len(e)
	keep := append([]byte{}, e...)
	m, err := bip39.NewMnemonic(e)
	vAssert("encoding accepts the entropy", err == nil)
	vObserve("sentence", m)
	d, err := bip39.EntropyFromMnemonic(m)
	vAssert("decoding accepts the sentence", err == nil)
	vAssert("decoded length", len(d) == n)
	vAssert("decoded bytes are the entropy", bytes.Equal(d, keep))
	vObserve("decoded", d)
	vReach("round trip")
}

func P01_English128() { p01trip(16) }
func P01_English160() { p01trip(20) }
func P01_English192() { p01trip(24) }
func P01_English224() { p01trip(28) }
func P01_English256() { p01trip(32) }

func P01_Bundled() {
	bip39.SetWordList(bundled[1+vChoose("list", len(bundled)-1)])
	p01trip(16 + 4*vChoose("size", 5))
}

func P01_Caller() {
	bip39.SetWordList(callerList(vChoose("list", 3)))
	p01trip(16 + 4*vChoose("size", 5))
}
