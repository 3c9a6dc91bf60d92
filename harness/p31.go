package main

import (
	"github.com/mearaj/bips/bip44"
)

func validCoin(c bip44.Coin) bool {
	return c.Type < 1<<31 && c.PathComponent == c.Type+1<<31 && !(blank(c.Name) && blank(c.Symbol))
}

func P31_Coins() {
	vAssert("there are coins", len(bip44.RegCoins) > 1000)
	types := map[uint32]int{}
	for i, c := range bip44.RegCoins {
		vAssert("every coin is valid", c.IsValid() && validCoin(c))
		types[c.Type]++
		vAssert("every type once", types[c.Type] == 1)
		if i > 0 {
			vAssert("ordered by name", bip44.RegCoins[i-1].Name <= c.Name)
		}
	}
	vReach("coins")
}

// Every type and path component, registered or not.
func P31_ByType() {
	t := vU32("type")
	want := map[uint32]bip44.Coin{}
	for _, c := range bip44.RegCoins {
		want[c.Type] = c
	}
	c, ok := bip44.RegBip44CoinsTypeToValMap[t]
	w, is := want[t]
	vAssert("indexed exactly when registered", ok == is)
	vAssert("the very coin", c == w)
	if ok {
		vReach("registered")
	} else {
		vReach("not registered")
	}
}

func P31_ByPathComponent() {
	p := vU32("path component")
	want := map[uint32]bip44.Coin{}
	for _, c := range bip44.RegCoins {
		want[c.PathComponent] = c
	}
	c, ok := bip44.RegBip44CoinsPathCompToValMap[p]
	w, is := want[p]
	vAssert("indexed exactly when registered", ok == is)
	vAssert("the very coin", c == w)
	if ok {
		vReach("registered")
	} else {
		vReach("not registered")
	}
}

func P31_RegisteredNames() {
	i := vChoose("block", 12)
	for j := i * 100; j < (i+1)*100 && j < len(bip44.RegCoins); j++ {
		n := bip44.RegCoins[j].Name
		c, ok := bip44.RegBip44CoinsNameToValMap[n]
		vAssert("indexed", ok && c.Name == n)
		w, ok := bip44.RegBip44CoinsTypeToValMap[c.Type]
		vAssert("a registered coin", ok && w == c)
	}
	vReach("names")
}

// The index by name holds nothing but registered names.
func P31_NoOtherNames() {
	names := map[string]bool{}
	for _, c := range bip44.RegCoins {
		names[c.Name] = true
	}
	vAssert("as many names as registered", len(names) == len(bip44.RegBip44CoinsNameToValMap))
	vAssert("as many types as registered", len(bip44.RegCoins) == len(bip44.RegBip44CoinsTypeToValMap))
	vAssert("as many path components as registered", len(bip44.RegCoins) == len(bip44.RegBip44CoinsPathCompToValMap))
	vReach("names")
}

func P31_AnyName() {
	n := 6
	if vThorough() {
		n = 12
	}
	s := vString("name", vChoose("length", n))
	c, ok := bip44.RegBip44CoinsNameToValMap[s]
	is, of := false, false
	for _, w := range bip44.RegCoins {
		if len(w.Name) == len(s) {
			is = is || w.Name == s
			of = of || w.Name == s && c.Type == w.Type && c.PathComponent == w.PathComponent
		}
	}
	vAssert("indexed exactly when registered", ok == is)
	vAssert("a coin of that name", ok == of)
	if ok {
		vReach("registered")
	}
}
