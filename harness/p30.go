package main

import (
	"github.com/mearaj/bips/bip44"
)

func blank(s string) bool {
	all := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		all = all && (c == ' ' || c >= 9 && c <= 13)
	}
	return all
}

func p30(name, symbol string, blanks bool) {
	t, p := vU32("type"), vU32("path component")
	c := bip44.Coin{Type: t, PathComponent: p, Name: name, Symbol: symbol}
	want := !blanks && t < 1<<31 && p == t+1<<31
	vAssert("valid exactly by the definition", c.IsValid() == want)
	if want {
		vReach("valid")
	} else {
		vReach("invalid")
	}
}

func ascii(name string, n int) string {
	b := vBytes(name, n)
	for i := range b {
		vAssume(b[i] < 0x80)
	}
	return string(b)
}

func P30_Names() {
	n, s := ascii("name", vChoose("name length", 5)), ascii("symbol", vChoose("symbol length", 5))
	p30(n, s, blank(n) && blank(s))
}

// Blanks beyond ASCII, and characters that only look like them.
func P30_Beyond() {
	l := []string{"", " ", "\u0085", "\u00a0", "\u2003", "\u3000", "\u1680", "\u2028\u2029", "\u202f\u205f ", "\u200b", "\ufeff", "\u180e", "\u00e9", "\xff", "\x80", "\u00a0x", "x\u3000", "\u2003\xa0"}
	i, j := vChoose("name", len(l)), vChoose("symbol", len(l))
	p30(l[i], l[j], i < 9 && j < 9)
}

func P30_Long() {
	n := []int{10, 50, 200}[vChoose("length", 3)]
	b := make([]byte, n)
	for i := range b {
		b[i] = ' '
	}
	b[vChoose("place", 3)*(n-1)/2] = vByte("character")
	s := string(b)
	for i := range b {
		vAssume(b[i] < 0x80)
	}
	if vChoose("symbol", 2) == 1 {
		p30("", s, blank(s))
	} else {
		p30(s, " ", blank(s))
	}
}

func p30label(t uint32, n, s string) {
	c := bip44.Coin{Type: t, PathComponent: vU32("path component"), Name: n, Symbol: s}
	head := s + " - " + n + " (Type "
	if s == "" {
		head = n + " (Type "
	}
	got := c.String()
	h, l := len(head), len(got)
	vAssert("the text of the label", l > h+1 && l < h+12 && got[:h] == head && got[l-1] == ')')
	if l <= h+1 || l >= h+12 {
		return
	}
	var x uint64
	right := true
	for i := h; i < l-1; i++ {
		right = right && got[i] >= '0' && got[i] <= '9'
		x = 10*x + uint64(got[i]-'0')
	}
	vAssert("the type in decimal", right && x == uint64(t))
	vAssert("no zeros in front", got[h] != '0' || l == h+2)
	vReach("labelled")
}

// Labels of all types.
func P30_Labels() {
	p30label(vU32("type"), "Bitcoin", []string{"", "BTC"}[vChoose("symbol", 2)])
}

func P30_LabelNames() {
	n, s := ascii("name", vChoose("name length", 4)), ascii("symbol", vChoose("symbol length", 4))
	p30label([]uint32{0, 9, 10, 99, 1<<31 - 1, 1 << 31, 1<<32 - 1}[vChoose("type", 7)], n, s)
}

// Percent signs and the like mean nothing in a label.
func P30_LabelTexts() {
	l := []string{"%d", "%s%v", "%!", "\x00", "\xff", "\u20bf", " a ", " - ", "(Type 1)"}
	n, s := l[vChoose("name", len(l))], l[vChoose("symbol", len(l))]
	c := bip44.Coin{Type: 5, PathComponent: 1<<31 + 5, Name: n, Symbol: s}
	vAssert("the label", c.String() == s+" - "+n+" (Type 5)")
	c.Symbol = ""
	vAssert("the label without a symbol", c.String() == n+" (Type 5)")
	vReach("labelled")
}

// Long names and symbols appear in full.
func P30_LongLabels() {
	n := ascii("name", []int{16, 33, 64, 129, 257}[vChoose("name length", 5)])
	s := ascii("symbol", []int{0, 9, 33, 129}[vChoose("symbol length", 4)])
	p30label(60, n, s)
}
