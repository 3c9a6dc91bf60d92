package main

import (
	"bytes"
	"encoding/hex"
	"strings"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
)

// Histories: each guarantee holds for a call whatever was asked for before: the same, nearly the same, something
// else, or the same memory with other contents.

// encodedBefore encodes and decodes an entropy that is e, or nearly e, or any other, maybe under another list.
func encodedBefore(e []byte, list, other []string) []byte {
	d := append([]byte{}, e...)
	switch vChoose("earlier entropy", 3) {
	case 1:
		d[len(d)-1] ^= 1
	case 2:
		d[0] ^= 0x80
	}
	lists := [][]string{list, other}
	bip39.SetWordList(lists[vChoose("earlier list", 2)])
	m, _ := bip39.NewMnemonic(d)
	_, _ = bip39.EntropyFromMnemonic(m)
	_, _ = bip39.MnemonicToByteArray(m)
	bip39.SetWordList(list)
	if vChoose("same memory", 2) == 1 {
		copy(d, e)
		return d
	}
	return e
}

func P01_Again() {
	e := vBytes("entropy", 16+4*vChoose("size", 5))
	p01of(encodedBefore(e, bundled[3], bundled[0]))
}

func P02_Again() {
	e := vBytes("entropy", 16+4*vChoose("size", 5))
	p02of(encodedBefore(e, bundled[3], bundled[0]), bundled[3])
}

func P06_Again() {
	e := vBytes("entropy", 16+4*vChoose("size", 5))
	e = encodedBefore(e, bundled[3], bundled[0])
	m, err := bip39.NewMnemonic(append([]byte{}, e...))
	vAssert("encoded", err == nil)
	p06(len(e), m, e)
}

// The verdict on a sentence is that of the list active when it is asked for, and of its own words.
func P03_Again() {
	n := 12 + 3*vChoose("size", 5)
	m, idx := sentence(n, bundled[0])
	e, ok := specDecode(idx)
	switch vChoose("before", 4) {
	case 0: // accepted, then asked for under another list
		_, _ = bip39.EntropyFromMnemonic(m)
		_ = bip39.IsMnemonicValid(m)
		bip39.SetWordList(bundled[3])
		defer bip39.SetWordList(bundled[0])
		vAssume(ok)
		vAssert("foreign words", !bip39.IsMnemonicValid(m))
		_, err := bip39.EntropyFromMnemonic(m)
		vAssert("foreign words are not decoded", err != nil)
		vReach("foreign")
	case 1: // refused under another list, then asked for under its own
		bip39.SetWordList(bundled[3])
		_, _ = bip39.EntropyFromMnemonic(m)
		_, _ = bip39.MnemonicToByteArray(m)
		_ = bip39.IsMnemonicValid(m)
		bip39.SetWordList(bundled[0])
		verdicts(m, "x", ok, e)
	case 2: // after the same sentence with another last word
		w := strings.Split(m, " ")
		w[n-1] = bundled[0][vIndex("other word", 2048)]
		_, _ = bip39.EntropyFromMnemonic(strings.Join(w, " "))
		_, _ = bip39.MnemonicToByteArray(strings.Join(w, " "), true)
		verdicts(m, "x", ok, e)
	default: // twice, and the results not shared
		d, err := bip39.EntropyFromMnemonic(m)
		if err == nil {
			d[0] ^= 1
		}
		r, err := bip39.MnemonicToByteArray(m, true)
		if err == nil {
			r[0] ^= 1
		}
		verdicts(m, "x", ok, e)
	}
}

// Seeds of the same sentence under other passphrases, and of texts that only run together the same.
func P07_Again() {
	a, b := vString("sentence", 4), vString("pass", 4)
	var s []byte
	switch vChoose("before", 4) {
	case 0:
		s = bip39.NewSeed(a, vString("other pass", vChoose("length", 6)))
	case 1:
		s = bip39.NewSeed(a+b[:2], b[2:])
	case 2:
		s = bip39.NewSeed(a[:3], a[3:]+b)
	default:
		s = bip39.NewSeed(a, b)
	}
	s[0] ^= 1
	got := bip39.NewSeed(a, b)
	vAssert("PBKDF2 of sentence and passphrase", eqBytes(got, specSeed(a, b)))
	vReach("derived")
}

func P07_CheckedAgain() {
	m, idx := sentence(12, bundled[0])
	_, ok := specDecode(idx)
	vAssume(ok)
	a, b := vString("other pass", 2), vString("pass", 2)
	s, err := bip39.NewSeedWithErrorChecking(m, a)
	vAssert("accepted", err == nil && eqBytes(s, specSeed(m, a)))
	h, err := util.DeriveSeedFromMnemonic(m, b)
	vAssert("accepted", err == nil && h == hex.EncodeToString(specSeed(m, b)))
	s, err = bip39.NewSeedWithErrorChecking(m, b)
	vAssert("accepted", err == nil && eqBytes(s, specSeed(m, b)))
	bip39.SetWordList(bundled[3])
	s, err = bip39.NewSeedWithErrorChecking(m, b)
	vAssert("foreign words", err != nil && len(s) == 0)
	h, err = util.DeriveSeedFromMnemonic(m, b)
	vAssert("foreign words", err != nil && h == "")
	vReach("derived")
}

func P10_Again() {
	n := []int{16, 32, 64}[vChoose("length", 3)]
	seed, other := vBytes("seed", n), vBytes("other seed", n)
	buf := append([]byte{}, other...)
	switch vChoose("before", 4) {
	case 0:
		_, _ = bip32.NewMasterKey(buf)
		copy(buf, seed)
	case 1:
		copy(buf[:n-1], seed)
		_, _ = bip32.NewMasterKey(buf)
		copy(buf, seed)
	case 2:
		_, _ = bip32.NewMasterKey(append(append([]byte{}, seed...), 0))
		buf = seed
	default:
		k, err := bip32.NewMasterKey(seed)
		if err == nil {
			k[50] ^= 1
		}
		buf = seed
	}
	p10of(buf)
}

// earlierChild derives from a key that differs from *p in a place or not at all, then makes it *p again.
func earlierChild(p *bip32.Key, idx uint32) {
	keep := *p
	other := vU32("other index")
	switch vChoose("differs in", 4) {
	case 0:
		p[13+31] ^= 1 // chain code
		other = idx
	case 1:
		p[4]-- // depth
		other = idx
	case 2: // index alone
	default:
		p[12] ^= 1 // child number
		other = idx
	}
	_, _ = p.NewChildKey(other)
	_ = p.PublicKeyExtended()
	_ = p.IsValid()
	*p = keep
}

func P11_Again() {
	p := pvtKeyOf(0x0488ade4, scalar("k"))
	vAssume(p[4] > 1 && p[4] < 255)
	idx := vU32("index")
	earlierChild(&p, idx)
	p11of(&p, idx)
}

func P12_Again() {
	k := thinScalar(3)
	p := pubKeyOf(0x0488b21e, k)
	vAssume(p[4] > 1 && p[4] < 255)
	idx := vU32("index")
	vAssume(idx < 1<<31)
	earlierChild(&p, idx)
	p12of(&p, k, idx)
}

// Keys of opposite points have the same x coordinate.
func P12_Opposite() {
	k := thinScalar(8)
	p := pubKeyOf(0x0488b21e, k)
	vAssume(p[4] < 255)
	idx := vU32("index")
	vAssume(idx < 1<<31)
	q := p
	q[45] ^= 1
	_, _ = q.NewChildKey(idx)
	p12of(&p, k, idx)
}

func P14_Again() {
	k := scalar("k")
	p := pvtKeyOf(0x0488ade4, k)
	vAssume(p[4] > 1 && p[4] < 255)
	idx := vU32("index")
	if vChoose("public", 2) == 1 {
		copy(p[:4], be32(0x0488b21e))
		copy(p[45:], pubOf(k))
	}
	private := p[45] == 0
	earlierChild(&p, idx)
	c, err := p.NewChildKey(idx)
	if err == nil {
		childOf(&p, &c, pubOf(k), idx, private)
	}
}

// What a key serializes to is what it holds now.
func P15_Again() {
	k := pvtKeyOf(0x0488ade4, scalar("k"))
	keep := k
	k[[]int{12, 20, 44, 77}[vChoose("byte", 4)]] ^= vByte("change")
	s, _ := k.Serialize()
	_ = k.B58Serialize()
	_ = k.IsValid()
	if vChoose("same memory", 2) == 1 {
		_, _ = bip32.Deserialize(s)
		copy(s, keep[:])
		copy(s[78:], checksum(keep[:]))
		back, err := bip32.Deserialize(s)
		vAssert("deserializes to the same key", err == nil && back == keep)
	}
	k = keep
	roundTripOf(&k)
}

// A good key does not speak for a bad one, nor a bad one for a good one.
func P16_Again() {
	k := rawKey(0x0488ade4, 3, []byte{1, 2, 3, 4}, be32(7), vBytes("chaincode", 32), append([]byte{0}, scalar("k")...))
	good := k
	bad := k
	switch vChoose("flaw", 4) {
	case 0:
		copy(bad[0:4], be32(0x0488b21e))
	case 1:
		copy(bad[46:], make([]byte, 32))
	case 2:
		bad[4] = 0
	default:
		bad[45] = 4
	}
	first, then := good, bad
	if vChoose("order", 2) == 1 {
		first, then = bad, good
	}
	k = first
	_ = k.IsValid()
	b, _ := k.Serialize()
	_, _ = bip32.Deserialize(b)
	_, _ = bip32.B58Deserialize(k.String())
	k = then
	importableAt(&k)
	back, err := bip32.B58Deserialize(k.String())
	vAssert("the same of its text", (err == nil) == (then == good) && back == then)
}

func P17_Again() {
	k := scalar("k")
	p := pvtKeyOf(0x0488ade4, k)
	keep := p
	switch vChoose("differs in", 3) {
	case 0:
		copy(p[:4], be32(0x04b2430c))
	case 1:
		p[20] ^= 1
	default:
		copy(p[46:], append(make([]byte, 31), 7))
	}
	_ = p.PublicKeyExtended()
	_, _ = p.PublicKeyHex(), p.PrivateKeyHex()
	p = keep
	p17of(&p, k, 0x0488b21e)
}

func P20_Again() {
	var a, k bip32.PvtKeyBytes
	copy(a[:], vBytes("other", 32))
	copy(k[:], vBytes("key", 32))
	_ = bip32.ValidatePrivateKey(a)
	p20(k)
}

func P22_Again() {
	d, e := digits(1+vChoose("digits", 2)), digits(1)
	other := []string{"m/" + d.text + "/" + e.text, "m/" + e.text, "m/" + d.text + "'/" + e.text, "m/" + d.text + "//" + e.text, "m/" + d.text + "/" + e.text + " ", "m/" + d.text + e.text, "m/" + d.text + "'/" + e.text + "'"}[vChoose("earlier", 7)]
	v, err := bip32.Path(other).ValuesAtDepth()
	if err == nil {
		for i := range v {
			v[i] ^= 1
		}
	}
	_ = bip32.Path(other).IsValid()
	h := vChoose("hard", 3)
	s, want := join([]bool{h > 0, h > 1}, []number{d, e})
	p22like(s, want)
}

func P23_Again() {
	s, hard, vals := hardFirst(1, 2, 1)
	other, _, _ := hardFirst(1, 2, 1)
	b := byte(vChoose("depth", 5))
	switch vChoose("before", 3) {
	case 0:
		_, _ = bip32.Path(other).ValueAtDepth(b)
		_, _ = bip32.Path(other).ReplaceValueAtDepth(b, 9)
	case 1:
		_, _ = bip32.Path(s).ValueAtDepth(b ^ 1)
		_, _ = bip32.Path(s).ReplaceValueAtDepth(b, 8)
	default:
		l, err := bip32.Path(s).ValuesAtDepth()
		if err == nil {
			for i := range l {
				l[i] = 5
			}
		}
	}
	p23read(s, vals, b)
	p23replace(s, hard, vals, b, 7)
}

func P24_Again() {
	d, e := digits(2), digits(1)
	one, two := bip32.VersionBytes{Coin: "A", Path: bip32.Path("m/" + d.text + "'/" + e.text + "'")}, bip32.VersionBytes{Coin: "A", Path: bip32.Path("m/" + e.text + "'/" + d.text + "'")}
	switch vChoose("before", 3) {
	case 1:
		two.Path = bip32.Path("m/" + d.text + "'/" + e.text)
	case 2:
		two.Path = bip32.Path("m/" + d.text + "'/" + e.text + "1'")
	}
	_, _ = two.PurposeVal()
	_, _ = two.CoinVal()
	_, _ = two.CoinValFull()
	_, _ = two.PurposeValFull()
	p, err := one.PurposeVal()
	vAssert("the purpose", err == nil && uint64(p) == d.v)
	c, err := one.CoinVal()
	vAssert("the coin type", err == nil && uint64(c) == e.v)
	p, err = one.PurposeValFull()
	vAssert("the full purpose", err == nil && uint64(p) == d.v+1<<31)
	c, err = one.CoinValFull()
	vAssert("the full coin type", err == nil && uint64(c) == e.v+1<<31)
	vReach("read")
}

// The address of a key after that of another, of the opposite point among them.
func P27_Again() {
	k := scalar("k")
	p := util.KeyPath{Path: "m", Key: pubKeyOf(0x0488b21e, k)}
	keep := p.Key
	switch vChoose("earlier", 3) {
	case 0:
		p.Key[45] ^= 1
	case 1:
		copy(p.Key[45:], pubOf(append(make([]byte, 31), 7)))
	}
	_, _ = p.AddrHex(), p.AddrP2SH(0)
	p.Key = keep
	vAssert("the address", p.AddrHex() == ethOf(secp256k1.PrivKeyFromBytes(k).PubKey().SerializeUncompressed()))
	vReach("addressed")
}

func P28_Opposite() {
	k := scalar("k")
	p := util.KeyPath{Path: "m", Key: pubKeyOf(0x0488b21e, k)}
	keep := p.Key
	v := vByte("prefix")
	p.Key[45] ^= 1
	_, _ = p.AddrHex(), p.AddrP2SH(v)
	p.Key = keep
	vAssert("the address", p.AddrP2SH(v) == b58addr(v, pubOf(k)))
	vReach("addressed")
}

func P29_Again() {
	h := "000102030405060708090a0b0c0d0e0f"
	one, two := h, h[:30]
	switch vChoose("pair", 4) {
	case 1:
		one, two = h[:30]+"zz", h
	case 2:
		one, two = h, "F"+h[1:]
	case 3:
		one, two = strings.ToUpper(h), h+"0"
	}
	k, err := util.RootKeyFromSeed(one)
	if err == nil {
		k[50] ^= 1
	}
	x, ok := nibbles(two)
	p29(two, x, ok)
}

func P30_Again() {
	t, u := vU32("type"), vU32("other type")
	n, s := ascii("name", 2), ascii("symbol", 1)
	a := bip44.Coin{Type: u, PathComponent: u + 1<<31, Name: n, Symbol: []string{s, ""}[vChoose("symbol", 2)]}
	_, _ = a.String(), a.IsValid()
	p30label(t, n, s)
	p30(n, s, blank(n) && blank(s))
}

// Drawing again gives what the source delivers next.
func P09_Again() {
	data := vBytes("random", 64)
	setRand(&source{data: data})
	at := 0
	for i := 0; i < 2; i++ {
		n := []int{16, 24, 32}[vChoose("size", 3)]
		m, err := util.GenerateMnemonic(byte(n * 3 / 4))
		vAssert("generated", err == nil)
		e, err := bip39.EntropyFromMnemonic(m)
		vAssert("the bytes drawn", err == nil && bytes.Equal(e, data[at:at+n]))
		at += n
	}
	vReach("twice")
}

// siblings gives two keys that differ in nothing but the key itself, each in either form.
func siblings(thin int) (a, b bip32.Key, ka, kb []byte) {
	ka, kb = scalar("k"), thinScalar(thin)
	form := vChoose("forms", 4)
	a = pvtKeyOf(0x0488ade4, ka)
	b = a
	copy(b[46:], kb)
	if form&1 == 1 {
		copy(a[:], be32(0x0488b21e))
		copy(a[45:], pubOf(ka))
	}
	if form&2 == 2 {
		copy(b[:], be32(0x0488b21e))
		copy(b[45:], pubOf(kb))
	}
	return
}

func P28_SameMetadata() {
	a, b, ka, kb := siblings(8)
	v := vByte("prefix")
	vAssert("the address of the first", util.KeyPath{Path: "m/0", Key: a}.AddrP2SH(v) == b58addr(v, pubOf(ka)))
	vAssert("the address of the other", util.KeyPath{Path: "m/0", Key: b}.AddrP2SH(v) == b58addr(v, pubOf(kb)))
	vReach("addressed")
}

func P27_SameMetadata() {
	a, b, ka, kb := siblings(1)
	vAssert("the address of the first", util.KeyPath{Path: "m/0", Key: a}.AddrHex() == ethOf(secp256k1.PrivKeyFromBytes(ka).PubKey().SerializeUncompressed()))
	vAssert("the address of the other", util.KeyPath{Path: "m/0", Key: b}.AddrHex() == ethOf(secp256k1.PrivKeyFromBytes(kb).PubKey().SerializeUncompressed()))
	vReach("addressed")
}

func P17_SameMetadata() {
	a, b, ka, kb := siblings(8)
	vAssert("public key hex of the first", a.PublicKeyHex() == hex.EncodeToString(pubOf(ka)))
	vAssert("public key hex of the other", b.PublicKeyHex() == hex.EncodeToString(pubOf(kb)))
	x, y := a.PublicKeyExtended(), b.PublicKeyExtended()
	vAssert("public form of the first", eqBytes(x[45:], pubOf(ka)) && eqBytes(x[4:45], a[4:45]))
	vAssert("public form of the other", eqBytes(y[45:], pubOf(kb)) && eqBytes(y[4:45], b[4:45]))
	vReach("public forms")
}

func P14_SameMetadata() {
	a, b, ka, kb := siblings(2)
	for i := 0; i < 2; i++ {
		c, k := a, ka
		if i == 1 {
			c, k = b, kb
		}
		d, err := c.NewChildKey(5)
		if err == nil {
			fp := d.GetFingerPrint()
			vAssert("the fingerprint of the key at hand", eqBytes(fp[:], hash160(pubOf(k))[:4]))
			vReach("child")
		}
	}
}
