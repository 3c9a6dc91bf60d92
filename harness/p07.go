package main

import (
	"crypto/sha512"
	"encoding/hex"
	"strings"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"golang.org/x/crypto/pbkdf2"
)

func specSeed(m, pass string) []byte {
	salt := append([]byte{'m', 'n', 'e', 'm', 'o', 'n', 'i', 'c'}, pass...)
	return pbkdf2.Key([]byte(m), salt, 2048, 64, sha512.New)
}

// the unchecked derivation takes any text and passphrase
func P07_NewSeed() {
	lens := []int{0, 1, 2, 7, 8, 31, 64, 129, 200, 257, 1025}
	m := vString("sentence", lens[vChoose("sentenceLen", len(lens))])
	p := vString("pass", lens[vChoose("passLen", len(lens))])
	s := bip39.NewSeed(m, p)
	vAssert("64 bytes", len(s) == 64)
	vAssert("PBKDF2 of sentence and passphrase", eqBytes(s, specSeed(m, p)))
	vObserve("seed", s)
	vReach("derived")
}

// every length, no forking on content
func P07_NewSeedLengths() {
	n := 24
	if vThorough() {
		n = 80
	}
	m := vString("sentence", vChoose("sentenceLen", n))
	p := vString("pass", vChoose("passLen", n))
	vAssert("PBKDF2 of sentence and passphrase", eqBytes(bip39.NewSeed(m, p), specSeed(m, p)))
	vReach("derived")
}

func p07(n int, sp string, passLens int) {
	idx := make([]int, n)
	w := make([]string, n)
	for i := range w {
		idx[i] = vIndex("word", 2048)
		w[i] = bundled[0][idx[i]]
	}
	m := strings.Join(w[:n/2], " ") + sp + strings.Join(w[n/2:], " ")
	pass := vString("pass", vChoose("passLen", passLens))
	_, ok := specDecode(idx)
	want := specSeed(m, pass)
	s, err := bip39.NewSeedWithErrorChecking(m, pass)
	h, err2 := util.DeriveSeedFromMnemonic(m, pass)
	if ok {
		vAssert("valid sentence accepted", err == nil && err2 == nil)
		vAssert("checked seed", eqBytes(s, want))
		vAssert("checked seed in lowercase hex", h == hex.EncodeToString(want))
		vObserve("seed", s)
		vReach("valid")
	} else {
		vAssert("invalid sentence refused", err != nil && err2 != nil)
		vAssert("no seed", len(s) == 0 && h == "")
		vReach("invalid")
	}
}

func P07_Checked12() { p07(12, " ", 4) }
func P07_Checked15() { p07(15, " ", 4) }
func P07_Checked18() { p07(18, " ", 4) }
func P07_Checked21() { p07(21, " ", 4) }
func P07_Checked24() { p07(24, " ", 4) }

// the bytes of the sentence are stretched as they are, whitespace included
func P07_CheckedSpaces() { p07(p03size(), spaces[vChoose("space", len(spaces))], 2) }

// Phrases of any number of words, in lists or not, with few or many blanks between and around them.
func P07_Phrases() {
	vocabulary := []string{"my", "own", "Words", "abandon", "über", "ZOO", "あおぞら", "e\u0301te\u0301", "ﬁne", "x", "a-long-word-that-no-list-has", "7"}
	n := []int{1, 2, 11, 12, 13, 15, 16, 24, 25, 33, 48, 100}[vChoose("words", 12)]
	form := vChoose("form", 6)
	m := []string{"", " ", "", "", "\t", "\n"}[form]
	for i := 0; i < n; i++ {
		if i > 0 {
			m += " "
		}
		if form == 2 && i == n/2 {
			m += "  "
		}
		if form == 3 && i == n-1 {
			m += "\u3000\n"
		}
		m += vocabulary[i%len(vocabulary)]
	}
	m += []string{"", "", "", " ", "\r\n", "\x00"}[form]
	p := []string{"", " ", "", "Pass ", "\u212b", "\x00"}[form] + vString("pass", vChoose("passLen", 2))
	vAssert("PBKDF2 of sentence and passphrase", eqBytes(bip39.NewSeed(m, p), specSeed(m, p)))
	vReach("derived")
}
