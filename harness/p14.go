package main

import "github.com/mearaj/bips/bip32"

// childOf checks what a child has to carry over from its parent.
func childOf(parent, c *bip32.Key, pub []byte, idx uint32, private bool) {
	vAssert("version", eqBytes(c[0:4], parent[0:4]) && c.GetVersion() == parent.GetVersion())
	d, cn, fp := c.GetDepth(), c.GetChildNumber(), c.GetFingerPrint()
	vAssert("depth", parent[4] != 255 && c[4] == parent[4]+1 && d[0] == c[4])
	vAssert("child number", eqBytes(c[9:13], be32(idx)) && eqBytes(cn[:], be32(idx)))
	vAssert("parent fingerprint", eqBytes(c[5:9], hash160(pub)[:4]) && eqBytes(fp[:], c[5:9]))
	vAssert("kind", c.IsPrivate() == private)
	vObserve("child", c[:])
	vReach("child")
}

func P14_Private()     { p14private(scalar("k")) }
func P14_ThinPrivate() { p14private(thinScalar(8)) }
func P14_Public()      { p14public(scalar("k")) }
func P14_ThinPublic()  { p14public(thinScalar(8)) }

func p14private(k []byte) {
	p := pvtKeyOf(anyVersion(true), k)
	keep := p
	idx := vU32("index")
	c, err := p.NewChildKey(idx)
	if err == nil {
		childOf(&keep, &c, pubOf(k), idx, true)
	}
}

func p14public(k []byte) {
	p := pubKeyOf(anyVersion(false), k)
	keep := p
	idx := vU32("index")
	c, err := p.NewChildKey(idx)
	if err == nil {
		childOf(&keep, &c, pubOf(k), idx, false)
	}
}

// Nothing is derived below depth 255.
func P14_DepthLimitPrivate() {
	p := pvtKeyOf(anyVersion(true), scalar("k"))
	p[4] = 255
	_, err := p.NewChildKey(vU32("index"))
	vAssert("refused below depth 255", err != nil)
	vReach("private")
}

func P14_DepthLimitPublic() {
	p := pubKeyOf(anyVersion(false), scalar("k"))
	p[4] = 255
	_, err := p.NewChildKey(vU32("index"))
	vAssert("refused below depth 255", err != nil)
	vReach("public")
}

// A version that is not registered for the kind of key derives nothing.
func P14_UnregisteredPrivate() {
	v := vU32("version")
	reg := map[uint32]bool{}
	for _, p := range versionPairs() {
		reg[p[0]] = true
	}
	vAssume(!reg[v])
	p := pvtKeyOf(v, scalar("k"))
	_, err := p.NewChildKey(vU32("index"))
	vAssert("refused for an unregistered version", err != nil)
	vReach("private")
}

func P14_UnregisteredPublic() {
	v := vU32("version")
	reg := map[uint32]bool{}
	for _, p := range versionPairs() {
		reg[p[1]] = true
	}
	vAssume(!reg[v])
	p := pubKeyOf(v, scalar("k"))
	_, err := p.NewChildKey(vU32("index"))
	vAssert("refused for an unregistered version", err != nil)
	vReach("public")
}
