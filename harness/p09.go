package main

import (
	"strings"

	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
)

func P09_Generate() {
	data := vBytes("random", 64)
	s := &source{data: data}
	setRand(s)
	n := vByte("count")
	ok := n == 12 || n == 15 || n == 18 || n == 21 || n == 24
	m, err := util.GenerateMnemonic(n)
	vAssert("exactly the five counts are accepted", (err == nil) == ok)
	if !ok {
		vAssert("no sentence", m == "")
		vReach("refused")
		return
	}
	k := vPick(int(n))
	w := strings.Fields(m)
	vAssert("word count", len(w) == k)
	vAssert("single spaces", m == strings.Join(w, " "))
	e := data[:k/3*4]
	idx := specIndexes(e)
	list := bip39.GetWordList()
	good := true
	for i := range idx {
		good = good && w[i] == list[idx[i]]
	}
	vAssert("the drawn bytes are encoded", good)
	vAssert("bytes drawn", s.pos == len(e))
	d, err := bip39.EntropyFromMnemonic(m)
	vAssert("valid", err == nil && bip39.IsMnemonicValid(m))
	vAssert("decodes to the drawn bytes", eqBytes(d, e))
	vObserve("sentence", m)
	vReach("generated")
}

func P09_Lists() {
	k := vChoose("list", len(bundled)+2)
	var l []string
	if k < len(bundled) {
		l = bundled[k]
	} else {
		l = callerList(k - len(bundled))
	}
	bip39.SetWordList(l)
	n := 12 + 3*vChoose("size", 5)
	data := vBytes("random", 64)
	setRand(&source{data: data})
	m, err := util.GenerateMnemonic(byte(n))
	vAssert("accepted", err == nil)
	idx := specIndexes(data[:n/3*4])
	w := make([]string, n)
	for i := range w {
		w[i] = l[idx[i]]
	}
	vAssert("sentence of the active list", m == strings.Join(w, " "))
	vAssert("valid", bip39.IsMnemonicValid(m))
	vReach("generated")
}
