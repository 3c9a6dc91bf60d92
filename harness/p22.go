package main

import "github.com/mearaj/bips/bip32"

// specPath reads a path as the documentation of Path says: m or M, then hardened components, then plain ones.
// White space is ignored. It is one pass over the bytes, with the values kept by position.
type specPath struct {
	ok   bool
	n    int // components after the m
	vals [12]uint32
}

func parsePath(s string) specPath {
	var p specPath
	// what came last: 0 nothing, 1 the m, 2 a slash, 3 digits, 4 an apostrophe
	last, bad, plain := 0, false, false
	var v uint64
	for i := 0; i < len(s); i++ {
		c := s[i]
		space := c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'
		digit := c >= '0' && c <= '9'
		switch {
		case space:
		case c == 'm' || c == 'M':
			bad = bad || last != 0
			last = 1
		case c == '/':
			bad = bad || last == 0 || last == 2 || (last == 3 && v > 0xffffffff)
			plain = plain || last == 3
			last, v = 2, 0
			p.n++
		case digit:
			bad = bad || (last != 2 && last != 3)
			if v <= 0xffffffff {
				v = 10*v + uint64(c-'0')
			}
			last = 3
			p.vals[p.n] = uint32(v)
		case c == '\'':
			bad = bad || last != 3 || plain || v >= 1<<31
			p.vals[p.n] = uint32(v) + 1<<31
			last = 4
		default:
			bad = true
		}
	}
	p.ok = !bad && (last == 1 || last == 4 || last == 3 && v <= 0xffffffff)
	return p
}

func p22(s string) { p22like(s, parsePath(s)) }

func p22like(s string, want specPath) {
	// white space beyond what the documentation can be taken to mean
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != 0x0b && s[i] < 0x80)
	}
	p := bip32.Path(s)
	var got []uint32
	var err error
	valid := false
	if vPanics(func() { got, err = p.ValuesAtDepth(); valid = p.IsValid() }) {
		vAssert("no panic", false)
		return
	}
	vAssert("accepted exactly when well formed", (err == nil) == want.ok)
	vAssert("valid exactly when accepted", valid == want.ok)
	if err == nil && want.ok {
		vAssert("one value per component and one for m", len(got) == want.n+1)
		vAssert("the value of m", len(got) > 0 && got[0] == 0)
		same := true
		for i := 1; i < len(got); i++ {
			same = same && got[i] == want.vals[i]
		}
		vAssert("the values of the components", same)
		vObserve("values", len(got))
		vReach("accepted")
	} else {
		vReach("refused")
	}
}

// Every string of up to so many characters.
func P22_AnyText() {
	n := 7
	if vThorough() {
		n = 9
	}
	p22(vString("path", vChoose("length", n)))
}

// number is n arbitrary decimal digits with their value, if that is below 2^32.
type number struct {
	text string
	v    uint64
	over bool
}

func digits(n int) number {
	b := vBytes("digits", n)
	var x number
	for i := range b {
		vAssume(b[i] >= '0' && b[i] <= '9')
		if i < n-10 {
			x.over = x.over || b[i] != '0'
		} else {
			x.v = 10*x.v + uint64(b[i]-'0')
		}
	}
	x.over = x.over || x.v > 0xffffffff
	x.text = string(b)
	return x
}

// join makes a path of components, hardened where h says so, and what it has to mean.
func join(h []bool, ns []number) (string, specPath) {
	s, p := "m", specPath{ok: true, n: len(ns)}
	plain := false
	for i, x := range ns {
		s += "/" + x.text
		p.vals[i+1] = uint32(x.v)
		if h[i] {
			s += "'"
			p.vals[i+1] += 1 << 31
			p.ok = p.ok && !x.over && x.v < 1<<31 && !plain
		} else {
			p.ok = p.ok && !x.over
			plain = true
		}
	}
	return s, p
}

func small(n uint64) number {
	b := []byte{}
	for x := n; x > 0 || len(b) == 0; x /= 10 {
		b = append([]byte{byte('0' + x%10)}, b...)
	}
	return number{string(b), n, false}
}

// Numbers of every size, about the limits of 2^31, 2^32, 2^63 and 2^64 in particular.
func P22_OneNumber() {
	n := 1 + vChoose("digits", 24)
	h := vPick(vIndex("hardened", 2)) == 1
	p22like(join([]bool{h}, []number{digits(n)}))
}

func P22_NumberAmongOthers() {
	n := []int{1, 9, 10, 11, 20}[vChoose("digits", 5)]
	d := digits(n)
	switch vChoose("form", 5) {
	case 0:
		p22like(join([]bool{true, true, false}, []number{d, small(1), small(2)}))
	case 1:
		p22like(join([]bool{true, true, false}, []number{small(44), d, small(2)}))
	case 2:
		p22like(join([]bool{true, true, false}, []number{small(44), small(0), d}))
	case 3:
		p22like(join([]bool{true, false, false}, []number{small(44), d, small(7)}))
	default:
		p22like(join([]bool{true, true, true, false, false, false}, []number{small(44), small(0), small(0), small(0), d, small(3)}))
	}
}

// Paths of up to seven components: any of them with or without an apostrophe.
func P22_Shapes() {
	n := vChoose("components", 8)
	var h []bool
	var ns []number
	for i := 0; i < n; i++ {
		ns = append(ns, digits(1))
		h = append(h, vPick(vIndex("apostrophe", 2)) == 1)
	}
	s, want := join(h, ns)
	if vBool("upper") {
		s = "M" + s[1:]
	}
	p22like(s, want)
}

// White space anywhere in a path changes nothing.
func P22_Blanks() {
	base := "m/44'/0'/12/3"
	i := vPick(vIndex("place", len(base)+1))
	b := vByte("blank")
	vAssume(b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\f')
	s := base[:i] + string([]byte{b}) + base[i:]
	p22(s)
	vAssert("the text without white space", bip32.Path(s).String() == base && bip32.Path(s).Formatted() == bip32.Path(base))
}

// Other characters are refused wherever they stand.
func P22_Strangers() {
	base := "m/44'/0'/12/3"
	i := vPick(vIndex("place", len(base)+1))
	b := vByte("character")
	if vBool("instead") && i < len(base) {
		p22(base[:i] + string([]byte{b}) + base[i+1:])
	} else {
		p22(base[:i] + string([]byte{b}) + base[i:])
	}
}
