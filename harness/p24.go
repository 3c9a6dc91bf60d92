package main

import "github.com/mearaj/bips/bip32"

// twoLevel is what the path of a version entry has to say: m/purpose'/coin' with 1 to 8 digits each.
type twoLevel struct {
	ok            bool
	purpose, coin uint32
	text          string // without white space, if it is constant
}

// parseTwo reads a text as one, in one pass.
func parseTwo(s string) twoLevel {
	// what came last: 0 nothing, 1 the m, 2 and 5 a slash, 3 and 6 digits, 4 and 7 an apostrophe
	last, bad := 0, false
	n := 0
	var p twoLevel
	var v uint32
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
		case c == 'm':
			bad = bad || last != 0
			last = 1
		case c == '/':
			bad = bad || (last != 1 && last != 4)
			if last == 1 {
				last = 2
			} else {
				last = 5
			}
			n, v = 0, 0
		case c >= '0' && c <= '9':
			bad = bad || (last != 2 && last != 3 && last != 5 && last != 6)
			if last == 2 {
				last = 3
			} else if last == 5 {
				last = 6
			}
			n++
			v = 10*v + uint32(c-'0')
		case c == '\'':
			bad = bad || (last != 3 && last != 6) || n > 8
			if last == 3 {
				last = 4
				p.purpose = v
			} else {
				last = 7
				p.coin = v
			}
		default:
			bad = true
		}
	}
	p.ok = !bad && last == 7
	return p
}

func p24(s string, want twoLevel) {
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != 0x0b && s[i] < 0x80)
	}
	e := bip32.VersionBytes{Coin: "coin", PvtKeyFlag: 0x0488ade4, PubKeyFlag: 0x0488b21e, Path: bip32.Path(s)}
	var p, c, pf, cf uint32
	var e1, e2, e3, e4 error
	valid := false
	if vPanics(func() {
		p, e1 = e.PurposeVal()
		c, e2 = e.CoinVal()
		pf, e3 = e.PurposeValFull()
		cf, e4 = e.CoinValFull()
		valid = e.IsValid()
	}) {
		vAssert("no panic", false)
		return
	}
	if want.ok {
		vAssert("answered", e1 == nil && e2 == nil && e3 == nil && e4 == nil)
		vAssert("the purpose", p == want.purpose)
		vAssert("the coin type", c == want.coin)
		vAssert("the full values", pf == want.purpose+1<<31 && cf == want.coin+1<<31)
		vAssert("a valid entry", valid)
		vReach("answered")
	} else {
		vAssert("refused", e1 != nil && e2 != nil && e3 != nil && e4 != nil)
		vAssert("nothing but zero with an error", p == 0 && c == 0 && pf == 0 && cf == 0)
		vAssert("not a valid entry", !valid)
		vReach("refused")
	}
}

func P24_AnyText() {
	n := 8
	if vThorough() {
		n = 10
	}
	s := vString("path", vChoose("length", n))
	p24(s, parseTwo(s))
}

func P24_AnyRest() {
	s := "m/" + vString("rest", vChoose("length", 7))
	p24(s, parseTwo(s))
}

// Numbers of no digits up to ten.
func P24_Digits() {
	n, m := vChoose("purpose digits", 11), vChoose("coin digits", 11)
	a, b := digits(n), digits(m)
	s := "m/" + a.text + "'/" + b.text + "'"
	p24(s, twoLevel{ok: n > 0 && n < 9 && m > 0 && m < 9, purpose: uint32(a.v), coin: uint32(b.v)})
}

// Paths that go on, or stop before the coin type.
func P24_Levels() {
	k := vChoose("levels", 6)
	s := "m"
	var vals [6]uint32
	all := true
	for i := 0; i < k; i++ {
		d := digits(2)
		s += "/" + d.text
		vals[i] = uint32(d.v)
		if vPick(vIndex("apostrophe", 2)) == 1 {
			s += "'"
		} else {
			all = false
		}
	}
	p24(s, twoLevel{ok: all && k == 2, purpose: vals[0], coin: vals[1]})
}

// One character put in, or put in the place of another.
func P24_Edited() {
	base := "m/44'/1997'"
	i := vChoose("place", len(base)+1)
	b := string(vBytes("character", 1))
	s := base[:i] + b + base[i:]
	if vChoose("instead", 2) == 1 && i < len(base) {
		s = base[:i] + b + base[i+1:]
	}
	p24(s, parseTwo(s))
}

// registeredPath tells whether some registered entry has this path.
func registeredPath(s string) bool {
	found := false
	for _, e := range bip32.HDVersionBytesSlice {
		found = found || s == string(e.Path)
	}
	return found
}

func P24_Registered() {
	l := registered()
	e := l[vChoose("entry", len(l))]
	vAssert("every entry counts as registered", e.IsRegistered())
	i := vChoose("blank at", 8)
	b := vByte("blank")
	vAssume(b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\f')
	s := string(e.Path)
	e.Path = bip32.Path(s[:i] + string([]byte{b}) + s[i:])
	vAssert("with white space too", e.IsRegistered())
	// nothing but the path counts
	f := bip32.VersionBytes{Path: bip32.Path(s)}
	vAssert("by the path alone", f.IsRegistered())
	vReach("registered")
}

func P24_Unregistered() {
	var s string
	switch vChoose("form", 4) {
	case 0:
		s = "m/" + digits(2).text + "'/" + digits(1+vChoose("coin digits", 5)).text + "'"
	case 1:
		s = "m/" + digits(1+vChoose("purpose digits", 3)).text + "'/" + digits(1).text + "'"
	case 2:
		s = vString("path", vChoose("length", 10))
	default:
		s = "m/44'/0'" + vString("rest", vChoose("length", 5))
	}
	for i := 0; i < len(s); i++ {
		vAssume(s[i] < 0x80 && s[i] > ' ')
	}
	e := bip32.VersionBytes{Coin: "Bitcoin", PvtKeyFlag: 0x0488ade4, PubKeyFlag: 0x0488b21e, Path: bip32.Path(s)}
	want := registeredPath(s)
	vAssert("registered by exactly the registered paths", e.IsRegistered() == want)
	if want {
		vReach("registered")
	} else {
		vReach("not registered")
	}
}
