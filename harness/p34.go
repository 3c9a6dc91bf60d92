package main

import (
	"strings"

	"github.com/mearaj/bips/bip44"
)

// documented reads the table embedded as slip-0044.md: every row with a symbol or a name that is not "reserved".
func documented() []bip44.Coin {
	text, err := bip44.Slip044FS.ReadFile(bip44.Slip044FileName)
	vAssert("the document is embedded", err == nil)
	var out []bip44.Coin
	for _, l := range strings.Split(string(text), "\n") {
		f := strings.Split(l, "|")
		if len(f) < 4 {
			continue
		}
		for i := range f {
			f[i] = strings.Trim(f[i], " \t\r")
		}
		var c bip44.Coin
		if len(f[2]) != 10 || f[2][:2] != "0x" {
			continue
		}
		for _, x := range strings.ToLower(f[2][2:]) {
			c.PathComponent = c.PathComponent<<4 | uint32(strings.IndexRune("0123456789abcdef", x))
		}
		// some types are misprinted (https://github.com/satoshilabs/slips/issues/1682); the path component counts
		c.Type = c.PathComponent - 1<<31
		c.Symbol = f[3]
		if len(f) > 4 {
			c.Name = f[4]
		} else {
			c.Symbol, c.Name = "", f[3]
		}
		if c.Symbol == "" && c.Name == "" || c.Name == "reserved" {
			continue
		}
		out = append(out, c)
	}
	return out
}

// Whatever the type or path component: something is registered there exactly when it is documented.
//
//verif:order fwd,rev
func P34_Values() {
	p := vU32("path component")
	doc := map[uint32]bool{}
	for _, c := range documented() {
		vAssert("documented once", !doc[c.PathComponent])
		doc[c.PathComponent] = true
	}
	_, ok := bip44.RegBip44CoinsPathCompToValMap[p]
	vAssert("registered exactly when documented", ok == doc[p])
	_, ok = bip44.RegBip44CoinsTypeToValMap[p-1<<31]
	vAssert("registered under its type exactly when documented", ok == doc[p])
	vObserve("registered", ok)
	if doc[p] {
		vReach("documented")
	} else {
		vReach("not documented")
	}
}

// Every row of the document is registered as it stands there.
//
//verif:order fwd,rev
func P34_Rows() {
	listed := map[uint32]bip44.Coin{}
	for _, c := range bip44.RegCoins {
		_, twice := listed[c.PathComponent]
		vAssert("listed once", !twice)
		listed[c.PathComponent] = c
	}
	doc := documented()
	vAssert("as many coins as documented", len(bip44.RegCoins) == len(doc))
	for _, want := range doc {
		got, ok := listed[want.PathComponent]
		vAssert("listed as documented", ok && got == want)
		got, ok = bip44.RegBip44CoinsPathCompToValMap[want.PathComponent]
		vAssert("registered by path component as documented", ok && got == want)
		got, ok = bip44.RegBip44CoinsTypeToValMap[want.Type]
		vAssert("registered by type as documented", ok && got == want)
	}
	vReach("registered")
}
