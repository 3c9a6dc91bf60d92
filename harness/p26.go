package main

import "strconv"
import "github.com/mearaj/bips/bip32"
import "github.com/mearaj/bips/util"

// component reads one component of a label: digits, with an apostrophe or not.
func component(s string) (v uint32, ok bool) {
	n := len(s)
	hard := n > 0 && s[n-1] == '\''
	if hard {
		n--
	}
	if n == 0 || n > 10 {
		return 0, false
	}
	for i := 0; i < n; i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
	}
	x, err := strconv.ParseUint(s[:n], 10, 64)
	if err != nil {
		return 0, false
	}
	if hard {
		return uint32(x) + 1<<31, x < 1<<31
	}
	return uint32(x), x < 1<<32
}

// p26 generates a range whose bounds are given and checks it entry by entry.
func p26(base bip32.Key, path string, start, end uint32, validPath bool) {
	pvt, pub := versions()
	keep := base
	good := validPath && start < end && wellFormed(&keep, pvt, pub)
	k := util.KeyPathRange{StartIndex: start, EndIndex: end, KeyPath: util.KeyPath{Path: bip32.Path(path), Key: base}}
	var err error
	if vPanics(func() { err = k.GenerateRange() }) {
		vAssert("no panic", false)
		return
	}
	l := k.KeyPaths
	if !good {
		vAssert("refused", err != nil && len(l) == 0)
		vReach("refused")
		return
	}
	// does some step along the range fail?
	works := true
	cur := base
	for i := start; i < end && works; i++ {
		c, err := cur.NewChildKey(i)
		works = err == nil
		cur = c
	}
	if !works {
		vAssert("a failing step is an error", err != nil)
		vAssert("no keys with an error", len(l) == 0)
		vReach("failing step")
		return
	}
	vAssert("generated", err == nil)
	vAssert("one entry per index", len(l) == int(end-start))
	if err != nil || len(l) != int(end-start) {
		return
	}
	prefix := bip32.Path(path).String()
	for i := range l {
		label := string(l[i].Path)
		vAssert("the label continues the base path", len(label) > len(prefix) && label[:len(prefix)] == prefix && label[len(prefix)] == '/')
		// the key the label leads to
		cur := base
		ok := true
		var v uint32
		level := 0
		rest := label[len(prefix):]
		for len(rest) > 0 && ok {
			n := 1
			for n < len(rest) && rest[n] != '/' {
				n++
			}
			v, ok = component(rest[1:n])
			if j := start + uint32(level); v == j {
				v = j // the same number as the code has it
			}
			level++
			if ok {
				c, err := cur.NewChildKey(v)
				ok = err == nil
				cur = c
			}
			rest = rest[n:]
		}
		vAssert("the label can be derived", ok)
		vAssert("the last component", v == start+uint32(i))
		vAssert("the key of the label", l[i].Key == cur)
	}
	last := l[len(l)-1].Key
	vObserve("last key", last[:])
	vReach("generated")
}

// along assumes of a private key what smooth does, for the values of a range.
func along(k bip32.Key, start, end uint32) bip32.Key {
	var vals []uint32
	for i := start; i < end; i++ {
		vals = append(vals, i)
	}
	smooth(k, vals)
	return k
}

func P26_Private() {
	m := 2
	if vThorough() {
		m = 10
	}
	start := uint32(7 * vChoose("start", m))
	n := uint32(1 + vChoose("count", 3))
	p26(along(pvtKeyOf(0x0488ade4, scalar("k")), start, start+n), "m/4'/1", start, start+n, true)
}

func P26_PrivateAnyStart() {
	start := vU32("start")
	vAssume(start < 1<<32-1)
	k := pvtKeyOf(0x0488ade4, scalar("k"))
	smooth(k, []uint32{start})
	p26(k, "m", start, start+1, true)
}

func P26_Public() {
	k := pubKeyOf(0x0488b21e, seven())
	n := 3
	if vThorough() {
		n = 4
	}
	switch vChoose("range", n) {
	case 0:
		p26(k, "m/1", 0, 1, true)
	case 1:
		p26(k, "m/1", 9, 10, true)
	case 2:
		p26(k, "m/1", 1<<31-1, 1<<31+1, true)
	case 3:
		p26(k, "m/1", 0, 2, true)
	}
}

// Ranges about the first hardened index, and at the end of all indexes.
func P26_Edges() {
	start := []uint32{9, 99, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 3}[vChoose("start", 6)]
	n := uint32(1 + vChoose("count", 2))
	p26(along(pvtKeyOf(0x0488ade4, seven()), start, start+n), "m/1", start, start+n, true)
}

// Keys of all depths: below 255 there is nothing.
func P26_Depths() {
	d := []byte{0, 1, 253, 254, 255}[vChoose("depth", 5)]
	n := uint32(1 + vChoose("count", 3))
	k := pvtKeyOf(0x0488ade4, seven())
	vAssume(k[4] == d)
	k[4] = d
	p26(along(k, 0, n), "m/0", 0, n, true)
}

// Every version there is.
func P26_Versions() {
	v := anyVersion(true)
	if vChoose("other", 2) == 1 {
		v = 0x01020304
	}
	p26(along(pvtKeyOf(v, seven()), 3, 5), "m/0", 3, 5, true)
}

// One step with nothing assumed about the numbers that come up.
func P26_One() {
	if vChoose("public", 2) == 1 {
		p26(pubKeyOf(0x0488b21e, thinScalar(1)), "m/1", 3, 4, true)
	} else {
		p26(pvtKeyOf(0x0488ade4, thinScalar(1)), "m/1", 3, 4, true)
	}
}

// Empty and reversed ranges.
func P26_NoRange() {
	start, end := vU32("start"), vU32("end")
	vAssume(end <= start)
	p26(pvtKeyOf(0x0488ade4, thinScalar(1)), "m/0", start, end, true)
}

// A step that cannot be done is found out however long the range.
func P26_LongImpossible() {
	start, end := vU32("start"), vU32("end")
	vAssume(start >= 1<<31 && start < end)
	k := util.KeyPathRange{StartIndex: start, EndIndex: end, KeyPath: util.KeyPath{Path: "m/1", Key: pubKeyOf(0x0488b21e, thinScalar(1))}}
	err := k.GenerateRange()
	vAssert("refused", err != nil && len(k.KeyPaths) == 0)
	vReach("refused")
}

func P26_BadPath() {
	s := vString("path", vChoose("length", 5))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != 0x0b && s[i] < 0x80)
	}
	vAssume(!parsePath(s).ok)
	p26(pvtKeyOf(0x0488ade4, thinScalar(1)), s, 0, 1, false)
}

// Base paths of one-digit components, blanks and all.
func P26_Paths() {
	s, _, _ := pathOf(vChoose("hardened", 3), vChoose("plain", 3))
	if vChoose("blank", 2) == 1 {
		s = s + " "
	}
	p26(rawKey(0x0488ade4, 3, []byte{1, 2, 3, 4}, be32(7), vBytes("chaincode", 32), append([]byte{0}, seven()...)), s, 5, 6, true)
}

func P26_BadKey() {
	var k bip32.Key
	copy(k[:], vBytes("key", 78))
	pvt, pub := versions()
	keep := k
	vAssume(!wellFormed(&keep, pvt, pub))
	p26(k, "m/0", 0, 1, true)
}

// A range object that has been used before: what is left in its list does not matter, and neither does the room
// behind it. A call that fails may leave the list as it was.
func P26_Reused() {
	key := rawKey(0x0488ade4, 3, []byte{1, 2, 3, 4}, be32(7), vBytes("chaincode", 32), append([]byte{0}, seven()...))
	var junk bip32.Key
	copy(junk[:], vBytes("junk", 78))
	old := make([]util.KeyPath, vChoose("old entries", 3), 5)
	if vChoose("old keys", 2) == 1 {
		junk = key
	}
	labels := []bip32.Path{"m/9", "m/1", "m/1/3", "m"}
	first := vChoose("old labels", 4)
	for i := range old {
		old[i] = util.KeyPath{Path: labels[(first+i)%4], Key: junk}
	}
	before := showPaths(old, nil)
	n := uint32(vChoose("count", 3))
	along(key, 3, 3+n)
	k := util.KeyPathRange{StartIndex: 3, EndIndex: 3 + n, KeyPath: util.KeyPath{Path: "m/1", Key: key}, KeyPaths: old}
	err := k.GenerateRange()
	if n == 0 {
		vAssert("refused", err != nil)
		vAssert("no new keys", len(k.KeyPaths) == 0 || showPaths(k.KeyPaths, nil) == before)
		vReach("refused")
		return
	}
	vAssert("generated", err == nil)
	vAssert("one entry per index", len(k.KeyPaths) == int(n))
	if err != nil || len(k.KeyPaths) != int(n) {
		return
	}
	cur := key
	label := "m/1"
	for i := uint32(0); i < n; i++ {
		cur, err = cur.NewChildKey(3 + i)
		label += "/" + string([]byte{byte('3' + i)})
		vAssert("the key", err == nil && k.KeyPaths[i].Key == cur && string(k.KeyPaths[i].Path) == label)
	}
	vAssert("the old list is not written to", showPaths(old, nil) == before)
	vReach("generated")
}

// A range object used again after something about it has changed gives what a new one gives.
func P26_Changed() {
	key := rawKey(0x0488ade4, 3, []byte{1, 2, 3, 4}, be32(7), vBytes("chaincode", 32), append([]byte{0}, seven()...))
	along(key, 3, 5)
	k := util.KeyPathRange{StartIndex: 3, EndIndex: 5, KeyPath: util.KeyPath{Path: "m/1", Key: key}}
	vAssert("generated", k.GenerateRange() == nil && len(k.KeyPaths) == 2)
	old := k.KeyPaths
	before := showPaths(old, nil)
	start, end := uint32(3), uint32(5)
	switch vChoose("change", 7) {
	case 0: // nothing
	case 1:
		end = 4
		k.EndIndex = end
	case 2:
		start = 4
		k.StartIndex = start
	case 3:
		k.Path = "m/2"
	case 4:
		k.Key = rawKey(0x0488ade4, 3, []byte{1, 2, 3, 4}, be32(7), vBytes("other chaincode", 32), append([]byte{0}, seven()...))
		along(k.Key, 3, 5)
	case 5: // go on from the last one
		k.KeyPath = old[1]
		start, end = 7, 8
		k.StartIndex, k.EndIndex = start, end
		along(k.Key, 7, 8)
	case 6: // other versions
		k.Key.SetVersionUint32(0x049d7878)
	}
	fresh := util.KeyPathRange{StartIndex: start, EndIndex: end, KeyPath: k.KeyPath}
	want := fresh.KeyPath
	err := k.GenerateRange()
	err2 := fresh.GenerateRange()
	vAssert("one verdict", (err == nil) == (err2 == nil))
	if err == nil {
		vAssert("as a new one", showPaths(k.KeyPaths, nil) == showPaths(fresh.KeyPaths, nil) && len(k.KeyPaths) == int(end-start))
		c, err := want.Key.NewChildKey(start)
		vAssert("from the key it has now", err == nil && k.KeyPaths[0].Key == c)
		vReach("generated again")
	}
	vAssert("what was handed out stays", showPaths(old, nil) == before)
}

// Long ranges, as deep as a key can be and one level more.
func P26_Long() {
	n := []uint32{11, 100, 101, 129, 200, 255, 256}[vChoose("count", 7)]
	start := []uint32{0, 7, 1<<31 - 2}[vChoose("start", 3)]
	base := rawKey(0x0488ade4, 0, nil, nil, make([]byte, 32), append([]byte{0}, thinScalar(1)...))
	k := util.KeyPathRange{StartIndex: start, EndIndex: start + n, KeyPath: util.KeyPath{Path: "m", Key: base}}
	err := k.GenerateRange()
	if n > 255 {
		vAssert("too deep", err != nil && len(k.KeyPaths) == 0)
		vReach("too deep")
		return
	}
	vAssert("generated", err == nil)
	vAssert("one entry per index", len(k.KeyPaths) == int(n))
	if err != nil || len(k.KeyPaths) != int(n) {
		return
	}
	cur, label := base, "m"
	for i := uint32(0); i < n; i++ {
		cur, err = cur.NewChildKey(start + i)
		if start+i < 1<<31 {
			label += "/" + strconv.Itoa(int(start+i))
		} else {
			label += "/" + strconv.Itoa(int(start+i-1<<31)) + "'"
		}
		vAssert("the entry", err == nil && k.KeyPaths[i].Key == cur && string(k.KeyPaths[i].Path) == label)
	}
	vReach("generated")
}
