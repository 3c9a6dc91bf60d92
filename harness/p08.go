package main

import (
	"hash/crc32"
	"strings"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
)

func anyList(k int) []string {
	if k < len(bundled) {
		return bundled[k]
	}
	return callerList(k - len(bundled))
}

// places maps every word of a list to its position.
func places(l []string) map[string]int {
	m := map[string]int{}
	for i, w := range l {
		m[w] = i
	}
	return m
}

// every list holds 2048 distinct words without white space
func P08_Distinct() {
	l := anyList(vChoose("list", len(bundled)))
	vAssert("2048 words", len(l) == 2048)
	for i := range l {
		vAssert("word is not empty", l[i] != "")
		f := strings.Fields(l[i])
		vAssert("word has no white space", len(f) == 1 && f[0] == l[i])
	}
	vAssert("words differ", len(places(l)) == 2048)
	i := vIndex("i", 2048)
	k, ok := places(l)[l[i]]
	vAssert("no word occurs twice", ok && k == i)
	vReach("listed")
}

// the bundled lists are the published ones, word for word (by the CRC-32 of the files of BIP-39)
func P08_Published() {
	published := []struct {
		list []string
		crc  uint32
	}{
		{wordlists.English, 0xc1dbd296}, {wordlists.ChineseSimplified, 0xe3721bbf}, {wordlists.ChineseTraditional, 0x3c20b443},
		{wordlists.Czech, 0xd1b5fda0}, {wordlists.French, 0x3e56b216}, {wordlists.Italian, 0x2fc7d07e}, {wordlists.Japanese, 0xacc1419},
		{wordlists.Korean, 0x4ef461eb}, {wordlists.Portuguese, 0xe627a546}, {wordlists.Spanish, 0x266e4f3d},
	}
	for _, p := range published {
		vAssert("the list published", crc32.ChecksumIEEE([]byte(strings.Join(p.list, "\n")+"\n")) == p.crc)
	}
	vReach("published")
}

// after switching from one list to another nothing of the first remains
func p08switch(a, b []string) {
	bip39.SetWordList(a)
	// use the first list
	e := vBytes("entropy", 16)
	_, err := bip39.NewMnemonic(e)
	vAssert("first list encodes", err == nil)
	bip39.SetWordList(b)
	got := bip39.GetWordList()
	vAssert("the active list has 2048 words", len(got) == 2048)
	i := vIndex("i", 2048)
	vAssert("the list query returns the active list", got[i] == b[i])
	k, ok := bip39.GetWordIndex(b[i])
	vAssert("every word is found at its position", ok && k == i)
	j := vIndex("j", 2048)
	at, inB := places(b)[a[j]]
	k, ok = bip39.GetWordIndex(a[j])
	vAssert("no word of the previous list lingers", ok == inB && (!ok || k == at))
	m, err := bip39.NewMnemonic(e)
	vAssert("encodes", err == nil)
	idx := specIndexes(e)
	w := make([]string, len(idx))
	for n := range idx {
		w[n] = b[idx[n]]
	}
	vAssert("encoding uses the active list", m == strings.Join(w, " "))
	d, err := bip39.EntropyFromMnemonic(m)
	vAssert("decoding uses the active list", err == nil && eqBytes(d, e))
	vReach("switched")
}

func P08_Switch() {
	n := len(bundled) + 3
	a := vChoose("from", n)
	d := []int{1, 3, 5, 12}
	if vThorough() {
		p08switch(anyList(a), anyList((a+1+vChoose("step", n-1))%n))
	} else {
		p08switch(anyList(a), anyList((a+d[vChoose("step", 4)])%n))
	}
}

// no other string is a word
func p08other(k, l int) {
	list := anyList(k)
	bip39.SetWordList(list)
	s := vString("text", l)
	at, in := places(list)[s]
	i, ok := bip39.GetWordIndex(s)
	vAssert("found exactly when listed", ok == in)
	vAssert("position", !ok || i == at)
	if in {
		vReach("word")
	} else {
		vReach("other")
	}
}

func P08_OtherEnglish() { p08other(0, vChoose("len", 12)) }

func P08_OtherLists() { p08other(1+vChoose("list", len(bundled)+2), 3*vChoose("len", 6)) }

// a sentence of the old list is judged by the new one
func P08_OldSentence() {
	k := vChoose("from", len(bundled))
	a, b := bundled[k], bundled[(k+1+vChoose("step", 2))%len(bundled)]
	bip39.SetWordList(b)
	bip39.SetWordList(a)
	m, idx := sentence(12, a)
	bip39.SetWordList(b)
	_, in := places(b)[a[idx[vChoose("at", 12)]]]
	vAssume(!in)
	d, err := bip39.EntropyFromMnemonic(m)
	vAssert("words of the old list are refused", err != nil && len(d) == 0)
	vReach("refused")
}
