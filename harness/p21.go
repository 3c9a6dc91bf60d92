package main

import (
	"encoding/hex"
	"math/big"
	"strconv"
	"strings"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
)

// material is what the operations are given; the slices are windows on longer memory.
type material struct {
	key, pub     bip32.Key
	scalar       bip32.PvtKeyBytes
	index        uint32
	seed, ent    []byte
	ser, point   []byte
	words, path  string
	gen          util.Generator
	seedHex, b58 string
}

// window puts b in the middle of longer memory, so that it has capacity to spare.
func window(b []byte) []byte {
	m := make([]byte, len(b)+16)
	for i := range m {
		m[i] = 0xa5
	}
	copy(m[4:], b)
	return m[4 : 4+len(b) : len(m)]
}

// memory is everything of the material a slice or pointer leads to.
func (w *material) memory() string {
	s := string(w.key[:]) + string(w.pub[:]) + string(w.scalar[:])
	for _, b := range [][]byte{w.seed, w.ent, w.ser, w.point} {
		s += string(b[:cap(b)])
	}
	r := w.gen.RootKey()
	return s + string(r[:])
}

func keyMaterial() *material {
	k := scalar("k")
	w := &material{key: pvtKeyOf(0x0488ade4, k), index: vU32("index")}
	copy(w.scalar[:], k)
	w.pub = w.key
	copy(w.pub[0:4], be32(0x0488b21e))
	copy(w.pub[45:], pubOf(k))
	w.ser = window(append(append([]byte{}, w.key[:]...), checksum(w.key[:])...))
	w.point = window(pubOf(k))
	w.seed = window(vBytes("seed", 17))
	w.ent = window(nil)
	w.gen.SetRootKey(w.key)
	return w
}

func wordMaterial(n int) *material {
	w := &material{}
	w.ent = window(vBytes("entropy", n))
	w.seed, w.ser, w.point = window(nil), window(nil), window(nil)
	return w
}

func show(err error) string {
	if err == nil {
		return "|"
	}
	return "|" + err.Error()
}

func showPaths(l []util.KeyPath, err error) string {
	s := show(err)
	for _, e := range l {
		s += string(e.Path) + string(e.Key[:])
	}
	return s
}

// shown runs an operation and renders its outcome, a panic included.
func shown(f func() string) string {
	s := ""
	if vPanics(func() { s = f() }) {
		return "panic"
	}
	return s
}

const keyOps = 19

func keyOp(i int, w *material) string {
	return shown(func() string {
		switch i {
		case 0: // plain child of a private key
			c, err := w.key.NewChildKey(w.index &^ (1 << 31))
			return string(c[:]) + show(err)
		case 1: // hardened child
			c, err := w.key.NewChildKey(w.index | 1<<31)
			return string(c[:]) + show(err)
		case 2: // child of a public key
			c, err := w.pub.NewChildKey(w.index &^ (1 << 31))
			return string(c[:]) + show(err)
		case 3:
			c := w.key.PublicKeyExtended()
			return string(c[:])
		case 4:
			b, err := w.key.Serialize()
			return string(b) + show(err)
		case 5:
			return w.key.B58Serialize() + w.key.String()
		case 6:
			c, err := bip32.Deserialize(w.ser)
			return string(c[:]) + show(err)
		case 7:
			return w.key.PrivateKeyHex() + w.key.PublicKeyHex()
		case 8:
			return strconv.FormatBool(w.key.IsValid()) + strconv.FormatBool(w.key.IsPrivate()) + strconv.FormatBool(w.pub.IsPrivate())
		case 9:
			return show(bip32.ValidatePrivateKey(w.scalar))
		case 10:
			x, y := bip32.ExpandPublicKey(w.point)
			a, b := make([]byte, 32), make([]byte, 32)
			return string(x.FillBytes(a)) + string(y.FillBytes(b))
		case 11:
			a, err := bip32.HashRipeMD160onSha256(w.ser)
			b, err2 := bip32.ChecksumDblSha256(w.ser)
			return string(a) + string(b) + show(err) + show(err2)
		case 12:
			b, err := bip32.AddChecksumDblSha256ToBytes(w.point)
			return string(b) + show(err)
		case 13:
			m, err := bip32.NewMasterKey(w.seed)
			if err != nil {
				return show(err)
			}
			return string(m[:])
		case 14:
			return util.KeyPath{Path: "m", Key: w.key}.AddrHex()
		case 15:
			return util.KeyPath{Path: "m", Key: w.key}.AddrP2SH(byte(w.index))
		case 16:
			return showPaths(w.gen.DeriveBIP32Result("m/2"))
		case 17:
			r := util.KeyPathRange{StartIndex: 3, EndIndex: 4, KeyPath: util.KeyPath{Path: "m", Key: w.key}}
			err := r.GenerateRange()
			return showPaths(r.KeyPaths, err)
		default:
			a, b, c := w.key.GetChainCode(), w.key.GetFingerPrint(), w.key.GetChildNumber()
			d, e, f := w.key.GetDepth(), w.key.GetKeyBytes(), w.key.GetPvtKeyBytes()
			return string(a[:]) + string(b[:]) + string(c[:]) + string(d[:]) + string(e[:]) + string(f[:]) + string(be32(w.key.GetVersion()))
		}
	})
}

const wordOps = 8

func wordOp(i int, w *material) string {
	return shown(func() string {
		switch i {
		case 0:
			m, err := bip39.NewMnemonic(w.ent)
			return m + show(err)
		case 1:
			e, err := bip39.EntropyFromMnemonic(w.words)
			return string(e) + show(err)
		case 2:
			e, err := bip39.MnemonicToByteArray(w.words)
			return string(e) + show(err)
		case 3:
			e, err := bip39.MnemonicToByteArray(w.words, true)
			return string(e) + show(err)
		case 4:
			return string(bip39.NewSeed(w.words, "pass"))
		case 5:
			s, err := bip39.NewSeedWithErrorChecking(w.words, "pass")
			return string(s) + show(err)
		case 6:
			s, err := util.DeriveSeedFromMnemonic(w.words, "pass")
			return s + show(err)
		default:
			return strconv.FormatBool(bip39.IsMnemonicValid(w.words))
		}
	})
}

// packageState renders what the packages export, and the parameters of the shared curve.
func packageState() string {
	var sb strings.Builder
	p := secp256k1.S256().Params()
	for _, n := range []*big.Int{p.P, p.N, p.B, p.Gx, p.Gy} {
		sb.WriteString(n.Text(16) + " ")
	}
	for _, e := range bip32.HDVersionBytesSlice {
		sb.WriteString(entryText(e))
		sb.WriteString(strconv.Itoa(len(bip32.PvtFlagToHDBytesSlice[e.PvtKeyFlag])) + strconv.Itoa(len(bip32.PubFlagToHDBytesSlice[e.PubKeyFlag])))
		_, pu, co := levels(string(e.Path))
		sb.WriteString(strconv.Itoa(len(bip32.PurposeToHDBytesSlice[pu])) + strconv.Itoa(len(bip32.CoinTypeToHDBytesSlice[co])) + strconv.Itoa(len(bip32.PathToHDBytesSlice[string(e.Path)])))
		sb.WriteString(entryText(bip32.PvtFlagToHDBytesSlice[e.PvtKeyFlag][0]) + entryText(bip32.PubFlagToHDBytesSlice[e.PubKeyFlag][0]))
	}
	sb.WriteString(strconv.Itoa(len(bip32.PvtFlagToHDBytesSlice)) + " " + strconv.Itoa(len(bip32.PubFlagToHDBytesSlice)) + " " + strconv.Itoa(len(bip32.PathToHDBytesSlice)))
	sb.WriteString(entryText(bip32.DefaultMainnetVersion) + bip32.PathRegex.String())
	sb.WriteString(strings.Join(bip39.GetWordList(), " "))
	sb.WriteString(strconv.Itoa(len(bip44.RegCoins)) + bip44.RegCoins[0].String())
	return sb.String()
}

// probes are answers to fixed questions; they show the state the packages keep to themselves.
func probes() string {
	w := &material{index: 1 << 30, path: "m/44'/0'/0'/0/7"}
	for i := range w.scalar {
		w.scalar[i] = byte(3*i + 1)
	}
	w.key = rawKey(0x0488ade4, 0, []byte{0, 0, 0, 0}, []byte{0, 0, 0, 0}, w.scalar[:], append([]byte{0}, w.scalar[:]...))
	w.pub = w.key
	copy(w.pub[0:4], be32(0x0488b21e))
	copy(w.pub[45:], pubOf(w.scalar[:]))
	w.ser = append(append([]byte{}, w.key[:]...), checksum(w.key[:])...)
	w.point = pubOf(w.scalar[:])
	w.seed, w.ent = w.scalar[:17], w.scalar[:16]
	w.gen.SetRootKey(w.key)
	s := ""
	for i := 0; i < keyOps; i++ {
		s += keyOp(i, w)
	}
	for _, n := range []int{16, 20, 24, 28, 32} {
		w.ent = w.scalar[:n]
		w.words, _ = bip39.NewMnemonic(w.ent)
		s += w.words
		for i := 0; i < wordOps; i++ {
			s += wordOp(i, w)
		}
	}
	j, ok := bip39.GetWordIndex("zoo")
	s += strconv.Itoa(j) + strconv.FormatBool(ok)
	p := bip32.Path(w.path)
	v, err := p.ReplaceValueAtDepth(1, 1<<31)
	s += string(v) + show(err)
	l, err := p.ValuesAtDepth()
	for _, x := range l {
		s += string(be32(x))
	}
	return s + show(err)
}

// hidden runs an operation in a package state of its own and then for real, twice, and compares.
func hidden(w *material, op func(w *material) string) {
	keep := w.memory()
	state := packageState()
	answers := vAlone(probes)
	want := vAlone(func() string { return op(w) })
	got := op(w)
	vAssert("the exported state is left alone", packageState() == state)
	vAssert("the same call gives the same result", got == want && op(w) == want)
	vAssert("the arguments and the memory around them are left alone", w.memory() == keep)
	vAssert("other calls are not affected", probes() == answers)
	vObserve("result", got)
	vReach("effects")
}

// simple gives an operation other than those that derive keys (0, 1, 2, 16, 17).
func simple() int {
	i := vChoose("operation", keyOps)
	vAssume(i > 2 && i != 16 && i != 17)
	return i
}

func hiddenKey(i int) { hidden(keyMaterial(), func(w *material) string { return keyOp(i, w) }) }

func P21_Keys()            { hiddenKey(simple()) }
func P21_PrivateChild()    { hiddenKey(0) }
func P21_HardenedChild()   { hiddenKey(1) }
func P21_PublicChild()     { hiddenKey(2) }
func P21_DeriveBIP32Path() { hiddenKey(16) }
func P21_GenerateRange()   { hiddenKey(17) }

func P21_Words() {
	n := 4 * (4 + vChoose("size", 5))
	w := wordMaterial(n)
	i := vChoose("operation", wordOps)
	if i > 0 {
		w.words, _ = bip39.NewMnemonic(append([]byte{}, w.ent...))
	}
	hidden(w, func(w *material) string { return wordOp(i, w) })
}

// Whatever was done before to other material, the result is the one a fresh process gives.
func afterKey(i int) {
	j := i
	if vThorough() {
		j = vChoose("earlier", keyOps)
	}
	a, b := keyMaterial(), keyMaterial()
	after(func() string { return keyOp(j, a) }, func() string { return keyOp(i, b) })
}

// The same key again with another index, in a new place or under another depth and chain code.
func sameKeyAfter(i int) {
	a := keyMaterial()
	b := *a
	b.index = vU32("other index")
	if vChoose("differs", 2) == 1 {
		b.key[20] ^= 1
		b.pub[20] ^= 1
		copy(b.key[9:13], be32(5))
		b.gen.SetRootKey(b.key)
	}
	after(func() string { return keyOp(i, a) }, func() string { return keyOp(i, &b) })
}

func P21_SameKeyAfter()           { sameKeyAfter(simple()) }
func P21_SamePrivateChildAfter()  { sameKeyAfter(0) }
func P21_SameHardenedChildAfter() { sameKeyAfter(1) }

func P21_KeysAfter()            { afterKey(simple()) }
func P21_PrivateChildAfter()    { afterKey(0) }
func P21_HardenedChildAfter()   { afterKey(1) }
func P21_PublicChildAfter()     { afterKey(2) }
func P21_DeriveBIP32PathAfter() { afterKey(16) }
func P21_GenerateRangeAfter()   { afterKey(17) }

func P21_WordsAfter() {
	size := 16
	if vThorough() {
		size = 4 * (4 + vChoose("size", 5))
	}
	a, b := wordMaterial(16), wordMaterial(size)
	i := vChoose("operation", wordOps)
	j := i
	if vThorough() {
		j = vChoose("earlier", wordOps)
	}
	a.words, _ = bip39.NewMnemonic(append([]byte{}, a.ent...))
	b.words, _ = bip39.NewMnemonic(append([]byte{}, b.ent...))
	after(func() string { return wordOp(j, a) }, func() string { return wordOp(i, b) })
}

func after(earlier, op func() string) {
	want := vAlone(op)
	earlier()
	got := op()
	vAssert("an earlier call changes nothing", got == want)
	vObserve("result", got)
	vReach("after")
}

// Results and arguments share no memory, and results share none with the packages.
func P21_Aliases() {
	k := scalar("k")
	key := pvtKeyOf(0x0488ade4, k)
	w := &material{key: key}
	w.ser = append(append([]byte{}, key[:]...), checksum(key[:])...)
	w.point = pubOf(k)
	ent := vBytes("entropy", 16)
	words, _ := bip39.NewMnemonic(append([]byte{}, ent...))
	calls := []func() []byte{
		func() []byte { b, _ := key.Serialize(); return b },
		func() []byte { b, _ := bip32.HashRipeMD160onSha256(w.ser); return b },
		func() []byte { b, _ := bip32.ChecksumDblSha256(w.ser); return b },
		func() []byte { b, _ := bip32.AddChecksumDblSha256ToBytes(w.ser[:78]); return b },
		func() []byte { b, _ := bip32.AddChecksumDblSha256ToBytes(w.ser[:78:78]); return b },
		func() []byte { b, _ := bip39.EntropyFromMnemonic(words); return b },
		func() []byte { b, _ := bip39.MnemonicToByteArray(words); return b },
		func() []byte { b, _ := bip39.MnemonicToByteArray(words, true); return b },
		func() []byte { return bip39.NewSeed(words, "") },
		func() []byte { b, _ := bip39.NewSeedWithErrorChecking(words, ""); return b },
	}
	f := calls[vChoose("call", len(calls))]
	args := string(key[:]) + string(w.ser)
	r := f()
	want := string(r)
	q := f()
	for i := range q[:cap(q)] {
		q[:cap(q)][i] ^= 0x5a
	}
	vAssert("writing to a result changes no argument", string(key[:])+string(w.ser) == args)
	vAssert("writing to a result changes no other result", string(r) == want && string(f()) == want)
	for i := range key {
		key[i] ^= 0x3c
	}
	for i := range w.ser {
		w.ser[i] ^= 0x3c
	}
	vAssert("writing to the arguments changes no result", string(r) == want)
	vReach("aliases")
}

// The same for keys, coordinates and lists of keys.
func P21_AliasesOfValues() {
	k := scalar("k")
	point := pubOf(k)
	x, y := bip32.ExpandPublicKey(point)
	a, b := hex.EncodeToString(x.FillBytes(make([]byte, 32))), hex.EncodeToString(y.FillBytes(make([]byte, 32)))
	u, v := bip32.ExpandPublicKey(point)
	u.SetInt64(5)
	v.SetInt64(6)
	for i := range point {
		point[i] = 0
	}
	vAssert("coordinates", hex.EncodeToString(x.FillBytes(make([]byte, 32))) == a && hex.EncodeToString(y.FillBytes(make([]byte, 32))) == b)
	u, v = bip32.ExpandPublicKey(pubOf(k))
	vAssert("coordinates again", u.Cmp(x) == 0 && v.Cmp(y) == 0)

	var g util.Generator
	root := pvtKeyOf(0x0488ade4, k)
	root[4] = 0
	copy(root[5:13], make([]byte, 8))
	g.SetRootKey(root)
	keep := root
	root[20] ^= 1
	vAssert("a generator holds a copy of its root", *g.RootKey() == keep)
	l, err := g.DeriveBIP32Result("m/0'")
	want := showPaths(l, err)
	m, _ := g.DeriveBIP32Result("m/0'")
	for i := range m {
		m[i].Key[50] ^= 1
		m[i].Path = ""
	}
	vAssert("derived keys", showPaths(l, err) == want && *g.RootKey() == keep)

	seed := vBytes("seed", 16)
	s := append([]byte{}, seed...)
	p, errM := bip32.NewMasterKey(s)
	q, _ := bip32.NewMasterKey(s)
	if errM == nil {
		mk := *p
		for i := range q {
			q[i] ^= 1
		}
		s[0] ^= 1
		vAssert("master keys", *p == mk)
		vReach("values")
	}
}

// Range derivation fills in its list and nothing else.
func P21_Range() {
	w := keyMaterial()
	r := util.KeyPathRange{StartIndex: 5, EndIndex: 6, KeyPath: util.KeyPath{Path: "m /1", Key: w.key}}
	err := r.GenerateRange()
	vAssert("the request is left alone", r.StartIndex == 5 && r.EndIndex == 6 && r.Path == "m /1" && r.Key == w.key)
	s := showPaths(r.KeyPaths, err)
	old := r.KeyPaths
	err = r.GenerateRange()
	vAssert("again the same", showPaths(r.KeyPaths, err) == s && showPaths(old, err) == s)
	vReach("range")
}

// What is drawn from the random source is not shared either.
func P21_Random() {
	setRand(&source{data: vBytes("random", 700)})
	draw := func() []byte { b, _ := bip32.NewSeed(); return b }
	if n := vChoose("call", 6); n < 5 {
		draw = func() []byte { b, _ := bip39.NewEntropy(128 + 32*n); return b }
	}
	a := draw()
	want := string(a)
	b := draw()
	vAssert("an earlier result is left alone", string(a) == want)
	again := string(b)
	for i := range a[:cap(a)] {
		a[:cap(a)][i] ^= 0x5a
	}
	vAssert("writing to a result changes no other result", string(b) == again)
	for _, n := range []int{128, 160, 192, 224, 256} {
		_, _ = bip39.NewEntropy(n)
	}
	vAssert("later calls leave it alone", string(b) == again)
	vReach("random")
}

// A generator gives the keys of the root it has, whatever it had before.
func P21_GeneratorAfter() {
	one, two := pvtKeyOf(0x0488ade4, append(make([]byte, 31), 7)), pvtKeyOf(0x0488ade4, append(make([]byte, 31), 8))
	one[4], two[4] = 0, 0
	copy(one[5:13], make([]byte, 8))
	copy(two[5:13], make([]byte, 8))
	p := []bip32.Path{"m", "m/2'", "m/5"}[vChoose("path", 3)]
	want := vAlone(func() string {
		var g util.Generator
		g.SetRootKey(two)
		return showPaths(g.DeriveBIP32Result(p))
	})
	var g util.Generator
	g.SetRootKey(one)
	_, _ = g.DeriveBIP32Result([]bip32.Path{p, "m/1'"}[vChoose("earlier", 2)])
	g.SetRootKey(two)
	vAssert("an earlier call changes nothing", showPaths(g.DeriveBIP32Result(p)) == want)
	vReach("after")
}

// The values of a path belong to whoever asked for them.
func P21_PathValues() {
	d := digits(1 + vChoose("digits", 2))
	s := bip32.Path([]string{"m", "m/" + d.text, "m/" + d.text + "'", "m/44'/" + d.text + "'", "m/" + d.text + "'/1", " m / " + d.text}[vChoose("shape", 6)])
	state := packageState()
	answers := vAlone(probes)
	text := func(v []uint32, err error) string {
		b := show(err)
		for _, x := range v[:cap(v)] {
			b += string(be32(x))
		}
		return b
	}
	v, err := s.ValuesAtDepth()
	want := text(v, err)
	u, err := s.ValuesAtDepth()
	vAssert("the same call gives the same result", text(u[:len(u):len(u)], err) == text(v[:len(v):len(v)], err))
	want = text(v, err)
	for i := range u[:cap(u)] {
		u[:cap(u)][i] ^= 1
	}
	vAssert("writing to a result changes no other result", text(v, err) == want)
	w, err := s.ValuesAtDepth()
	same := err == nil && len(w) == len(v)
	for i := range v {
		same = same && w[i] == v[i]
	}
	vAssert("writing to a result changes no later result", same)
	a, err := s.ValueAtDepth(1)
	b, err2 := s.ValueAtDepth(1)
	vAssert("the same value", a == b && show(err) == show(err2))
	p, err := s.ReplaceValueAtDepth(1, 5)
	q, err2 := s.ReplaceValueAtDepth(1, 5)
	vAssert("the same path", p == q && show(err) == show(err2))
	vAssert("the exported state is left alone", packageState() == state)
	vAssert("other calls are not affected", probes() == answers)
	vReach("paths")
}
