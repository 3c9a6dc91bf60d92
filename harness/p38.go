package main

import (
	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
)

// From entropy to the root key: the sentence made of it is one that gives a seed, and the seed, as text, is one
// that gives the root key BIP-32 names, whatever the passphrase.
func p38root(size, list, passLens int) {
	bip39.SetWordList(bundled[list])
	e := vBytes("entropy", size)
	pass := vString("pass", vChoose("passLen", passLens))
	s, err := bip39.NewMnemonic(e)
	vAssert("a sentence", err == nil)
	h, err := util.DeriveSeedFromMnemonic(s, pass)
	vAssert("its seed", err == nil && len(h) == 128)
	want := specSeed(s, pass)
	k, err := util.RootKeyFromSeed(h)
	i := hmac512([]byte("Bitcoin seed"), want)
	if allZero(i[:32]) || !less(i[:32], orderBytes()) {
		vAssert("no root key", err != nil)
		return
	}
	vAssert("a root key", err == nil && k != nil)
	if err != nil || k == nil {
		return
	}
	vAssert("the root key of the seed", *k == rawKey(0x0488ade4, 0, nil, nil, i[32:], append([]byte{0}, i[:32]...)))
	m, err := bip32.NewMasterKey(want)
	vAssert("the same from the seed's bytes", err == nil && *m == *k)
	raw, err := bip39.NewSeedWithErrorChecking(s, pass)
	vAssert("the same seed as bytes", err == nil && eqBytes(raw, want))
	vObserve("root", k[:])
	vReach("root")
}

func P38_Root128() { p38root(16, 0, 3) }
func P38_Root256() { p38root(32, 0, 3) }

// Sentences of other languages, and of the sizes between.
func P38_RootOthers() {
	if vThorough() {
		p38root([]int{20, 24, 28, 16}[vChoose("size", 4)], 1+vChoose("list", len(bundled)-1), 1)
		return
	}
	i := vChoose("list", 3)
	p38root([]int{20, 24, 28}[i], []int{2, 4, 8}[i], 1)
}

// A generated sentence gives a root key too.
func P38_Generated() {
	setRand(&source{data: vBytes("random", 32)})
	s, err := util.GenerateMnemonic([]byte{12, 15, 18, 21, 24}[vChoose("words", 5)])
	vAssert("a sentence", err == nil)
	if err != nil {
		return
	}
	h, err := util.DeriveSeedFromMnemonic(s, "")
	vAssert("its seed", err == nil && len(h) == 128)
	i := hmac512([]byte("Bitcoin seed"), specSeed(s, ""))
	_, err = util.RootKeyFromSeed(h)
	vAssert("a root key exactly when there is one", (err == nil) == (!allZero(i[:32]) && less(i[:32], orderBytes())))
	vReach("root")
}

// usable says that a key of a version pair can be taken away as text, in both forms, and brought back.
func usable(k bip32.Key, pvt, pub uint32) {
	vAssert("under the private version", k.GetVersion() == pvt && k.IsPrivate() && k.IsValid())
	back, err := bip32.B58Deserialize(k.String())
	vAssert("back from its text", err == nil && back == k)
	x := k.PublicKeyExtended()
	vAssert("public form under the public version", x.GetVersion() == pub && !x.IsPrivate() && x.IsValid())
	back, err = bip32.B58Deserialize(x.String())
	vAssert("public form back from its text", err == nil && back == x)
}

// The root key set to the version of a registered entry, and taken along the path of the entry: every key is one
// of that version that can be brought back from its text.
func P38_Registered() {
	l := registered()
	e := l[vChoose("entry", len(l))]
	root := rootOf(0x0488ade4, seven())
	root.SetVersion(e.PvtKeyFlagBytes())
	purpose, err := e.PurposeValFull()
	coin, err2 := e.CoinValFull()
	vAssert("purpose and coin", err == nil && err2 == nil)
	path, vals := string(e.Path), []uint32{0, purpose, coin}
	if vThorough() {
		path, vals = path+"/0'/0", append(vals, 1<<31, 0)
	}
	smooth(root, vals[1:])
	keys, err, panicked := derive(root, path)
	if panicked {
		return
	}
	vAssert("derived", err == nil && len(keys) == len(vals))
	if err != nil || len(keys) != len(vals) {
		return
	}
	vAssert("the path of the entry", string(keys[2].Path) == e.Path.String())
	for i := range keys {
		vAssert("under the private version", keys[i].Key.GetVersion() == e.PvtKeyFlag)
	}
	usable(root, e.PvtKeyFlag, e.PubKeyFlag)
	usable(keys[len(keys)-1].Key, e.PvtKeyFlag, e.PubKeyFlag)
	vReach("registered")
}

// Keys of a range that goes on from a derived key are those the generator gives for their labels.
func P38_RangeLabels() {
	s, vals := "m/44'", []uint32{0, 1<<31 + 44}
	if vChoose("plain", 2) == 1 {
		s, vals = s+"/10", append(vals, 10)
	}
	start, n := []uint32{9, 1<<31 - 1, 1 << 31}[vChoose("start", 3)], uint32(2)
	if vThorough() {
		n = uint32(1 + vChoose("count", 3))
	}
	all := append([]uint32{}, vals[1:]...)
	hard := false
	for i := start; i < start+n; i++ {
		all = append(all, i)
		hard = hard || i >= 1<<31
	}
	root := rootOf(0x0488ade4, seven())
	smooth(root, all)
	keys, err, panicked := derive(root, s)
	if panicked {
		return
	}
	vAssert("derived", err == nil && len(keys) == len(vals))
	if err != nil || len(keys) != len(vals) {
		return
	}
	r := util.KeyPathRange{StartIndex: start, EndIndex: start + n, KeyPath: keys[len(keys)-1]}
	vAssert("range", r.GenerateRange() == nil && len(r.KeyPaths) == int(n))
	if len(r.KeyPaths) != int(n) {
		return
	}
	for i, e := range r.KeyPaths {
		if hard && !e.Path.IsValid() {
			// hardened components after others are no path
			continue
		}
		again, err, panicked := derive(root, string(e.Path))
		if panicked {
			return
		}
		vAssert("the label is a path", err == nil && len(again) == len(vals)+i+1)
		if err != nil || len(again) == 0 {
			return
		}
		last := again[len(again)-1]
		vAssert("the same key", last.Key == e.Key)
		vAssert("the same label", last.Path == e.Path)
		vReach("label")
	}
}

// What a watching wallet derives from a public key is what the owner derives, addresses included.
func P38_Watching() {
	start := uint32(7)
	n := uint32(1 + vChoose("count", 2))
	k := pvtKeyOf(0x0488ade4, seven())
	vAssume(k[4] < 250)
	along(k, start, start+n)
	own := util.KeyPathRange{StartIndex: start, EndIndex: start + n, KeyPath: util.KeyPath{Path: "m/1", Key: k}}
	watch := own
	watch.Key = k.PublicKeyExtended()
	err, err2 := own.GenerateRange(), watch.GenerateRange()
	vAssert("both generate", err == nil && err2 == nil)
	vAssert("as many", len(own.KeyPaths) == int(n) && len(watch.KeyPaths) == int(n))
	if len(own.KeyPaths) != int(n) || len(watch.KeyPaths) != int(n) {
		return
	}
	for i := range own.KeyPaths {
		a, b := own.KeyPaths[i], watch.KeyPaths[i]
		vAssert("the public form", a.Key.PublicKeyExtended() == b.Key)
		vAssert("the same label", a.Path == b.Path)
		vAssert("no private key", b.Key.PrivateKeyHex() == "" && !b.Key.IsPrivate())
		vAssert("the same addresses", a.AddrHex() == b.AddrHex() && a.AddrP2SH(5) == b.AddrP2SH(5))
	}
	vReach("watching")
}
