package main

import "github.com/mearaj/bips/bip32"

// hardFirst is a valid path of h components with an apostrophe and p without one: of one digit each but for the
// last, and its values.
func hardFirst(h, p, last int) (string, []bool, []uint32) {
	var hs []bool
	var ns []number
	for i := 0; i < h+p; i++ {
		if i == h+p-1 {
			ns = append(ns, digits(last))
		} else {
			ns = append(ns, digits(1))
		}
		hs = append(hs, i < h)
	}
	s, want := join(hs, ns)
	vAssume(want.ok)
	return s, append([]bool{false}, hs...), append([]uint32{}, want.vals[:h+p+1]...)
}

func p23read(s string, vals []uint32, b byte) {
	v, err := bip32.Path(s).ValueAtDepth(b)
	if int(b) < len(vals) {
		vAssert("an existing depth is read", err == nil)
		vAssert("the value read", v == vals[int(b)])
		vReach("read")
	} else {
		vAssert("no such depth", err != nil)
		vReach("no such depth")
	}
}

// p23replace replaces one value of a path whose components have apostrophes where hard says so.
func p23replace(s string, hard []bool, vals []uint32, b byte, val uint32) {
	got, err := bip32.Path(s).ReplaceValueAtDepth(b, val)
	lawful := b > 0 && int(b) < len(vals)
	for i := 1; i < len(vals) && lawful; i++ {
		if val >= 1<<31 {
			lawful = hard[i] || i >= int(b)
		} else {
			lawful = !hard[i] || i <= int(b)
		}
	}
	if !lawful {
		if err == nil && b == 0 && val == 0 {
			vReach("the path itself")
		} else {
			vAssert("no such path", err != nil)
			vReach("refused")
			return
		}
	} else {
		vAssert("lawful replacement succeeds", err == nil)
	}
	if err != nil {
		return
	}
	vReach("replaced")
	now, err := got.ValuesAtDepth()
	vAssert("the result is valid", err == nil)
	if err != nil {
		return
	}
	vAssert("as many values as before", len(now) == len(vals))
	same := true
	for i := 0; i < len(now) && i < len(vals); i++ {
		if i == int(b) {
			same = same && now[i] == val
		} else {
			same = same && now[i] == vals[i]
		}
	}
	vAssert("the new value and the others", same)
	// hardened values are written with an apostrophe
	n, last := 0, byte(0)
	marked := false
	text := got.String()
	for i := 0; i < len(text); i++ {
		if text[i] == '/' {
			n++
		} else if n == int(b) {
			last = text[i]
		}
		if n == int(b) {
			marked = last == '\''
		}
	}
	vAssert("an apostrophe from 2^31 on", marked == (val >= 1<<31))
}

func shape23(n int) (h, p int) {
	h = vChoose("hardened", n+1)
	return h, vChoose("plain", n+1-h)
}

func P23_Read() {
	h, p := shape23(5)
	n := []int{1, 10}[vChoose("digits", 2)]
	s, _, vals := hardFirst(h, p, n)
	p23read(s, vals, vByte("depth"))
}

func P23_ReadMixed() {
	// a plain number of 2^31 or more, and one with zeros in front
	a, b := digits(10), digits(12)
	s, want := join([]bool{true, false, false}, []number{small(44), a, b})
	vAssume(want.ok)
	p23read(s, append([]uint32{}, want.vals[:4]...), vByte("depth"))
}

func P23_ReadInvalid() {
	s := vString("path", vChoose("length", 6))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != 0x0b && s[i] < 0x80)
	}
	want := parsePath(s)
	b := vByte("depth")
	val := vU32("value")
	v, err := bip32.Path(s).ValueAtDepth(b)
	vAssert("read from valid paths alone", (err == nil) == (want.ok && int(b) <= want.n))
	if err == nil {
		vAssert("the value read", v == want.vals[int(b)])
		return
	}
	if !want.ok {
		_, err = bip32.Path(s).ReplaceValueAtDepth(b, val)
		vAssert("nothing is replaced in an invalid path", err != nil)
		vReach("invalid")
	}
}

func P23_Replace() {
	h, p := shape23(4)
	s, hard, vals := hardFirst(h, p, 1)
	b := byte(vChoose("depth", h+p+2))
	p23replace(s, hard, vals, b, vU32("value"))
}

func P23_ReplaceFar() {
	h, p := shape23(2)
	s, hard, vals := hardFirst(h, p, 1)
	b := vByte("depth")
	vAssume(int(b) >= len(vals))
	p23replace(s, hard, vals, b, vU32("value"))
}

// Values next to the replaced one of all sizes.
func P23_ReplaceAmongNumbers() {
	h := vChoose("hardened", 3)
	ns := []number{small(44), small(9), small(7)}
	ns[vChoose("place", 3)] = digits([]int{2, 10}[vChoose("digits", 2)])
	s, want := join([]bool{h > 0, h > 1, false}, ns)
	vAssume(want.ok)
	d := byte(1 + vChoose("depth", 3))
	val := []uint32{0, 9, 1<<31 - 1, 1 << 31, 1<<32 - 1}[vChoose("value", 5)]
	p23replace(s, []bool{false, h > 0, h > 1, false}, append([]uint32{}, want.vals[:4]...), d, val)
}

func long23(n, h int) (string, []bool, []uint32) {
	s, hs, vals := "m", []bool{false}, []uint32{0}
	for i := 1; i <= n; i++ {
		s += "/" + small(uint64(i)).text
		if i <= h {
			s += "'"
			vals = append(vals, 1<<31+uint32(i))
		} else {
			vals = append(vals, uint32(i))
		}
		hs = append(hs, i <= h)
	}
	return s, hs, vals
}

// Paths as deep as a byte can count, and deeper.
func P23_ReadDeep() {
	n := []int{127, 128, 254, 255, 256, 257, 300, 512}[vChoose("components", 8)]
	s, _, vals := long23(n, n/2)
	p23read(s, vals, vByte("depth"))
}

func P23_ReplaceDeep() {
	n := []int{127, 128, 254, 255, 256, 257, 300, 512}[vChoose("components", 8)]
	s, hard, vals := long23(n, 100)
	b := []byte{0, 1, 100, 101, 127, 128, 254, 255}[vChoose("depth", 8)]
	val := []uint32{5, 1<<31 + 5}[vChoose("value", 2)]
	p23replace(s, hard, vals, b, val)
}
