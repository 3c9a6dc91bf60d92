package main

import (
	"encoding/hex"
	"strconv"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
)

// own is a copy of b for one goroutine.
func own(b []byte) []byte { return append([]byte{}, b...) }

// ownMaterial is a copy of w for one goroutine.
func ownMaterial(w *material) *material {
	m := *w
	m.ent, m.seed, m.ser, m.point = own(w.ent), own(w.seed), own(w.ser), own(w.point)
	m.gen.SetRootKey(w.key)
	return &m
}

// together runs f as one of many goroutines.
func together(f func()) {
	vShared("no memory of others is used without a lock", f)
	vReach("together")
}

// Every operation on keys.
func P35_Keys() {
	w := keyMaterial()
	op := vChoose("operation", keyOps)
	together(func() { keyOp(op, ownMaterial(w)) })
}

// The same under any version, at any depth.
func P35_Versions() {
	w := keyMaterial()
	v, d := vU32("version"), vByte("depth")
	op := vChoose("operation", 9)
	w.key.SetVersionUint32(v)
	w.pub.SetVersionUint32(v)
	w.key[bip32.DepthStartIndex], w.pub[bip32.DepthStartIndex] = d, d
	together(func() { keyOp(op, ownMaterial(w)) })
}

// Any serialization and any text for one.
func P35_AnySerialization() {
	b := vBytes("serialization", 82)
	n := vChoose("length", 3)
	together(func() {
		switch n {
		case 0:
			k, _ := bip32.Deserialize(own(b))
			k.IsValid()
		case 1:
			bip32.Deserialize(own(b[:81]))
		default:
			bip32.B58Deserialize("xprv" + string(own(b[:3])))
		}
	})
}

// Every operation on sentences.
func P35_Words() {
	n := 16
	if vThorough() {
		n += 4 * vChoose("size", 5)
	}
	ent := vBytes("entropy", n)
	op := vChoose("operation", wordOps)
	w := &material{ent: ent}
	if op > 0 {
		w.words, _ = bip39.NewMnemonic(own(ent))
	}
	together(func() { wordOp(op, ownMaterial(w)) })
}

// The same for what is no sentence or no entropy.
func P35_WrongWords() {
	op := vChoose("operation", wordOps)
	var w material
	switch vChoose("wrong", 4) {
	case 0:
		w.words, w.ent = "abandon ability able", vBytes("entropy", 17)
	case 1:
		w.words = vString("text", 3)
	case 2:
		for i := 0; i < 12; i++ {
			w.words += bip39.GetWordList()[vIndex("word", 2048)] + "\t"
		}
	default:
		w.words = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon " + vString("word", 4)
	}
	together(func() { wordOp(op, ownMaterial(&w)) })
}

func P35_Lookup() {
	s := vString("word", 3+vChoose("length", 4))
	together(func() {
		i, ok := bip39.GetWordIndex(s)
		if ok {
			_ = bip39.GetWordList()[i]
		}
	})
}

// zeros is a random source that keeps nothing.
type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

// Whatever draws random bytes.
func P35_Random() {
	setRand(zeros{})
	n := vChoose("operation", 8)
	together(func() {
		switch n {
		case 0:
			bip32.NewSeed()
		case 1:
			bip39.NewEntropy(256)
		case 2:
			bip39.NewEntropy(100)
		default:
			util.GenerateMnemonic(byte(3 * n))
		}
	})
}

func P35_Seeds() {
	seed := vBytes("seed", 15+vChoose("length", 3))
	s := hex.EncodeToString(seed)
	if vChoose("wrong", 2) == 1 {
		s += vString("rest", 1)
	}
	together(func() { util.RootKeyFromSeed(s) })
}

// pathOp is one of the operations on paths.
func pathOp(i int, s string, b byte, v uint32) {
	p := bip32.Path(s)
	switch i {
	case 0:
		p.IsValid()
	case 1:
		p.Formatted()
	case 2:
		p.ValuesAtDepth()
	case 3:
		p.ValueAtDepth(b)
	default:
		p.ReplaceValueAtDepth(b, v)
	}
}

func P35_Paths() {
	op, b, v := vChoose("operation", 5), vByte("depth"), vU32("value")
	s, want := join([]bool{true, false}, []number{digits(2), digits(10)})
	vAssume(want.ok)
	together(func() { pathOp(op, s, b, v) })
}

func P35_AnyPath() {
	op, b, v := vChoose("operation", 5), vByte("depth"), vU32("value")
	s := vString("path", vChoose("length", 5))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] < 0x80)
	}
	together(func() { pathOp(op, s, b, v) })
}

// Derivation and ranges of several levels, and ones that are refused.
func P35_Derive() {
	w := keyMaterial()
	smooth := w.scalar[0] >= 1 && w.scalar[0] < 0x80
	vAssume(smooth)
	n := vChoose("what", 6)
	together(func() {
		m := ownMaterial(w)
		switch n {
		case 0:
			m.gen.DeriveBIP32Result("m/1'/2")
		case 1:
			m.gen.DeriveBIP32Result("m/4294967296")
		case 2:
			m.gen.SetRootKey(w.pub)
			m.gen.DeriveBIP32Result("m/1")
		default:
			r := util.KeyPathRange{StartIndex: 1<<31 - 1, EndIndex: 1<<31 - 5 + uint32(n), KeyPath: util.KeyPath{Path: "m/0", Key: m.key}}
			if n == 5 {
				r.Path, r.EndIndex = "n", 1<<31
			}
			r.GenerateRange()
		}
	})
}

func P35_Registry() {
	var e bip32.VersionBytes
	e.PvtKeyFlag, e.PubKeyFlag = vU32("private"), vU32("public")
	e.Path = bip32.Path("m/" + vString("purpose", 2) + "'/" + vString("coin", 1) + "'")
	for i := 0; i < len(e.Path); i++ {
		vAssume(e.Path[i] < 0x80)
	}
	n := vChoose("operation", 8)
	together(func() {
		switch n {
		case 0:
			e.PvtKeyFlagBytes()
		case 1:
			e.PubKeyFlagBytes()
		case 2:
			e.IsValid()
		case 3:
			e.IsRegistered()
		case 4:
			e.PurposeVal()
		case 5:
			e.CoinVal()
		case 6:
			e.PurposeValFull()
		default:
			e.CoinValFull()
		}
	})
}

func P35_Coins() {
	c := bip44.Coin{Type: vU32("type"), PathComponent: vU32("component"), Name: vString("name", vChoose("name length", 3)), Symbol: vString("symbol", vChoose("symbol length", 3))}
	for _, s := range []string{c.Name, c.Symbol} {
		for i := 0; i < len(s); i++ {
			vAssume(s[i] < 0x80)
		}
	}
	n := vChoose("operation", 3)
	together(func() {
		switch n {
		case 0:
			_ = c.String()
		case 1:
			_ = c.StringForMD()
		default:
			_ = strconv.FormatBool(c.IsValid())
		}
	})
}
