package main

func p13(version uint32, k []byte) {
	p := pvtKeyOf(version, k)
	idx := vU32("index")
	vAssume(idx < 1<<31)
	q := p
	pub := q.PublicKeyExtended()
	c, err := p.NewChildKey(idx)
	d, errPub := pub.NewChildKey(idx)
	vAssert("both derive or both fail", (err == nil) == (errPub == nil))
	if err == nil && errPub == nil {
		n := c.PublicKeyExtended()
		vAssert("the same 78 bytes", eqBytes(n[:], d[:]))
		vObserve("child", d[:])
		vReach("agree")
	}
}

func P13_Default()    { p13(0x0488ade4, scalar("k")) }
func P13_AnyVersion() { p13(anyVersion(true), scalar("k")) }
func P13_Thin()       { p13(0x0488ade4, thinScalar(7)) }
