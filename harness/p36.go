package main

import "github.com/mearaj/bips/bip32"

// fieldsAt says that the queries of a key give the bytes at their places.
func fieldsAt(k *bip32.Key) {
	keep := *k
	v := k.GetVersion()
	d, fp, cn, cc := k.GetDepth(), k.GetFingerPrint(), k.GetChildNumber(), k.GetChainCode()
	kb, pb := k.GetKeyBytes(), k.GetPvtKeyBytes()
	vAssert("version", eqBytes(be32(v), keep[0:4]))
	vAssert("depth", eqBytes(d[:], keep[4:5]))
	vAssert("parent fingerprint", eqBytes(fp[:], keep[5:9]))
	vAssert("child number", eqBytes(cn[:], keep[9:13]))
	vAssert("chain code", eqBytes(cc[:], keep[13:45]))
	vAssert("key bytes", eqBytes(kb[:], keep[45:78]))
	vAssert("private key bytes", eqBytes(pb[:], keep[46:78]))
	vAssert("private by the first key byte", k.IsPrivate() == (keep[45] == 0))
	vAssert("asking changes nothing", *k == keep)
}

func anyKey() bip32.Key {
	var k bip32.Key
	copy(k[:], vBytes("key", 78))
	return k
}

func P36_Fields() {
	k := anyKey()
	fieldsAt(&k)
	vReach("fields")
}

// What a query gave is a copy: writing to it leaves the key alone.
func P36_Copies() {
	k := anyKey()
	keep := k
	v := vByte("written")
	d, fp, cn, cc := k.GetDepth(), k.GetFingerPrint(), k.GetChildNumber(), k.GetChainCode()
	kb, pb := k.GetKeyBytes(), k.GetPvtKeyBytes()
	d[0], fp[0], cn[3], cc[31], kb[0], pb[31] = v, v, v, v, v, v
	vAssert("the key is as it was", k == keep)
}

// The version of any key is replaced, by number or by bytes, and nothing else of it.
func P36_Replaced() {
	k := anyKey()
	keep := k
	other := k
	v := vU32("version")
	k.SetVersionUint32(v)
	vAssert("the version by number", eqBytes(k[0:4], be32(v)) && k.GetVersion() == v)
	vAssert("the rest stays", eqBytes(k[4:], keep[4:]))
	b := bip32.Version{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	other.SetVersion(b)
	vAssert("the version by bytes", other == k)
	vAssert("the bytes are the caller's", eqBytes(b[:], be32(v)))
	fieldsAt(&k)
	k.SetVersionUint32(v ^ 0xff00ff00)
	vAssert("again", k.GetVersion() == v^0xff00ff00 && eqBytes(k[4:], keep[4:]))
	k.SetVersion(bip32.Version(keep[0:4]))
	vAssert("the old version gives the old key", k == keep)
	vReach("replaced")
}

// sameBut says that two results are the same but for their versions.
func sameBut(a, b bip32.Key, va, vb uint32) {
	vAssert("the version of each", a.GetVersion() == va && b.GetVersion() == vb)
	vAssert("the same but for the version", eqBytes(a[4:], b[4:]))
}

// twoPairs gives two registered version pairs.
func twoPairs() (a, b [2]uint32) {
	l := versionPairs()
	return l[vIndex("version", len(l))], l[vIndex("other version", len(l))]
}

// What comes of a private key under one registered version is, but for the version, what comes of it
// under another that replaced it.
func p36private(k []byte) {
	a, b := twoPairs()
	i := vU32("index")
	p := pvtKeyOf(a[0], k)
	keep := p
	q := p
	q.SetVersionUint32(b[0])
	vAssert("the copied key keeps its version", p == keep)
	c, err := p.NewChildKey(i)
	d, err2 := q.NewChildKey(i)
	vAssert("one verdict", (err == nil) == (err2 == nil))
	if err == nil {
		sameBut(c, d, a[0], b[0])
		vReach("child")
	}
	sameBut(p.PublicKeyExtended(), q.PublicKeyExtended(), a[1], b[1])
	vAssert("hex", p.PrivateKeyHex() == q.PrivateKeyHex() && p.PublicKeyHex() == q.PublicKeyHex())
	vAssert("valid under both", p.IsValid() && q.IsValid())
	q.SetVersionUint32(a[0])
	vAssert("back to the first", q == keep)
	e, err3 := q.NewChildKey(i)
	vAssert("the same child as at first", (err3 == nil) == (err == nil) && (err != nil || e == c))
	vReach("private")
}

func P36_Private() { p36private(scalar("k")) }
func P36_Thin()    { p36private(thinScalar(8)) }

func P36_Public() {
	a, b := twoPairs()
	i := vU32("index")
	p := pubKeyOf(a[1], scalar("k"))
	keep := p
	q := p
	q.SetVersionUint32(b[1])
	c, err := p.NewChildKey(i)
	d, err2 := q.NewChildKey(i)
	vAssert("one verdict", (err == nil) == (err2 == nil))
	if err == nil {
		sameBut(c, d, a[1], b[1])
		vReach("child")
	}
	sameBut(p.PublicKeyExtended(), q.PublicKeyExtended(), a[1], b[1])
	vAssert("hex", p.PublicKeyHex() == q.PublicKeyHex() && q.PrivateKeyHex() == "")
	vAssert("valid under both", p.IsValid() && q.IsValid())
	q.SetVersionUint32(a[1])
	vAssert("back to the first", q == keep)
	vReach("public")
}

// The validity of a key follows the version it has now: of the other kind it is refused, of its own kind or
// of none it is accepted.
func P36_OtherKind() {
	a, b := twoPairs()
	reg := map[uint32]bool{}
	for _, p := range versionPairs() {
		reg[p[0]] = true
	}
	p := pvtKeyOf(a[0], scalar("k"))
	vAssert("valid", p.IsValid())
	p.SetVersionUint32(b[1])
	if !reg[b[1]] {
		vAssert("not valid under a public version", !p.IsValid())
		_, err := p.NewChildKey(0)
		vAssert("no child under a public version", err != nil)
		vReach("other kind")
	}
	p.SetVersionUint32(b[0])
	vAssert("valid again", p.IsValid())
}
