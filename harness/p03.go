package main

import (
	"bytes"
	"crypto/sha256"
	"strings"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
)

// specDecode packs word indexes into entropy and tells whether the checksum bits match.
func specDecode(idx []int) ([]byte, bool) {
	total := 11 * len(idx)
	eb := total * 32 / 33
	bit := func(i int) int { return idx[i/11] >> (10 - i%11) & 1 }
	e := make([]byte, eb/8)
	for i := range e {
		for j := 0; j < 8; j++ {
			e[i] = e[i]<<1 | byte(bit(8*i+j))
		}
	}
	sum := sha256.Sum256(e)
	// at most eight checksum bits
	var have, want byte
	for i := eb; i < total; i++ {
		have = have<<1 | byte(bit(i))
	}
	want = sum[0] >> (8 - (total - eb))
	return e, have == want
}

// verdicts calls every validating entry point and demands the given verdict of each.
func verdicts(m string, pass string, valid bool, e []byte) {
	d, err := bip39.EntropyFromMnemonic(m)
	vAssert("entropy decoding verdict", (err == nil) == valid)
	vAssert("validity query verdict", bip39.IsMnemonicValid(m) == valid)
	full, err1 := bip39.MnemonicToByteArray(m)
	vAssert("byte array verdict", (err1 == nil) == valid)
	raw, err2 := bip39.MnemonicToByteArray(m, true)
	vAssert("raw byte array verdict", (err2 == nil) == valid)
	s, err3 := bip39.NewSeedWithErrorChecking(m, pass)
	vAssert("checked seed verdict", (err3 == nil) == valid)
	h, err4 := util.DeriveSeedFromMnemonic(m, pass)
	vAssert("seed helper verdict", (err4 == nil) == valid)
	if valid {
		vAssert("decoded entropy", bytes.Equal(d, e))
		vAssert("raw bytes", bytes.Equal(raw, e))
		vAssert("seed lengths", len(s) == 64 && len(h) == 128)
		vObserve("entropy", d)
		vReach("accepted")
	} else {
		vAssert("nothing decoded", len(d) == 0)
		vAssert("no byte array", len(full) == 0 && len(raw) == 0)
		vAssert("no seed", len(s) == 0 && h == "")
		vReach("rejected")
	}
}

func sentence(n int, list []string) (string, []int) {
	w := make([]string, n)
	idx := make([]int, n)
	for i := range w {
		idx[i] = vIndex("word", 2048)
		w[i] = list[idx[i]]
	}
	return strings.Join(w, " "), idx
}

func p03(n int) {
	m, idx := sentence(n, bundled[0])
	e, ok := specDecode(idx)
	verdicts(m, "x", ok, e)
}

func P03_Words12() { p03(12) }
func P03_Words15() { p03(15) }
func P03_Words18() { p03(18) }
func P03_Words21() { p03(21) }
func P03_Words24() { p03(24) }

// every other number of words is refused
func P03_Counts() {
	n := vChoose("count", 40)
	vAssume(n != 12 && n != 15 && n != 18 && n != 21 && n != 24)
	m, _ := sentence(n, bundled[0])
	verdicts(m, "", false, nil)
}

// other lists
func P03_Lists() {
	k := vChoose("list", len(bundled)+3)
	var l []string
	if k < len(bundled) {
		l = bundled[k]
	} else {
		l = callerList(k - len(bundled))
	}
	bip39.SetWordList(l)
	n := 12 + 3*vChoose("size", 5)
	m, idx := sentence(n, l)
	e, ok := specDecode(idx)
	verdicts(m, "x", ok, e)
}

// one word replaced by arbitrary bytes
func p03foreign(n, l int) {
	at := 0
	if vThorough() {
		at = vChoose("at", n)
	} else {
		at = []int{0, n / 2, n - 1}[vChoose("place", 3)]
	}
	s := vString("foreign", l)
	space := false
	_, in := places(bundled[0])[s]
	for i := 0; i < l; i++ {
		if s[i] <= ' ' || s[i] >= 0x80 {
			space = true
		}
	}
	vAssume(!in && !space)
	w := make([]string, n)
	for i := range w {
		w[i] = bundled[0][(i*577+5)&2047]
	}
	w[at] = s
	verdicts(strings.Join(w, " "), "", false, nil)
}

// some counts in the quick tier, all of them in the thorough one
func p03size() int {
	if vThorough() {
		return 12 + 3*vChoose("size", 5)
	}
	return 12 + 9*vChoose("few", 2)
}

func P03_Foreign() { p03foreign(p03size(), 1+vChoose("len", 9)) }

// any bytes at all: never a panic, always a verdict; too short for twelve words
func P03_Bytes() {
	n := 5
	if vThorough() {
		n = 8
	}
	m := vString("text", vChoose("len", n))
	verdicts(m, "", false, nil)
}

var spaces = []string{" ", "\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u2003", "\u3000", "  ", " \n\t"}

// any kind and amount of whitespace separates words
func P03_Whitespace() {
	n := p03size()
	at := 0
	if vThorough() {
		at = vChoose("at", n+1)
	} else {
		at = []int{0, 1, n - 1, n}[vChoose("place", 4)]
	}
	sp := spaces[vChoose("space", len(spaces))]
	idx := make([]int, n)
	m := ""
	for i := range idx {
		idx[i] = vIndex("word", 2048)
		if i == at {
			m += sp
		} else if i > 0 {
			m += " "
		}
		m += bundled[0][idx[i]]
	}
	if at == n {
		m += sp
	}
	e, ok := specDecode(idx)
	verdicts(m, "", ok, e)
}

// sentences far too long, whose counts are right by their last eight (sixteen) bits
//
//verif:unroll 70000
func P03_LongSentences() {
	n := []int{40, 48, 64, 96, 120, 128, 255, 256, 268, 271, 274, 277, 280, 524, 1036, 2060}[vChoose("count", 16)]
	if vThorough() && vChoose("huge", 2) == 1 {
		n = 65548
	}
	w := make([]string, n)
	for i := range w {
		w[i] = bundled[0][0]
	}
	for _, i := range []int{0, 11, n - 1} {
		w[i] = bundled[0][vIndex("word", 2048)]
	}
	m := strings.Join(w, " ")
	vAssert("refused", !bip39.IsMnemonicValid(m))
	e, err := bip39.EntropyFromMnemonic(m)
	vAssert("no entropy", err != nil && len(e) == 0)
	vReach("refused")
}
