package main

import "math/big"
import "github.com/mearaj/bips/bip32"
import "github.com/mearaj/bips/util"

// rootOf is a valid private key at depth zero.
func rootOf(version uint32, k []byte) bip32.Key {
	return rawKey(version, 0, make([]byte, 4), make([]byte, 4), vBytes("chaincode", 32), append([]byte{0}, k...))
}

func derive(root bip32.Key, s string) (l []util.KeyPath, err error, panicked bool) {
	var g util.Generator
	g.SetRootKey(root)
	panicked = vPanics(func() { l, err = g.DeriveBIP32Result(bip32.Path(s)) })
	vAssert("no panic", !panicked)
	vAssert("the root key stays", *g.RootKey() == root)
	return
}

// stepDigest is the digest a derivation step from a private key splits in two.
func stepDigest(k *bip32.Key, v uint32) []byte {
	kb := append([]byte{}, k[46:78]...)
	pub := pubOf(kb)
	vAssume(pub[1] != 0)
	data := append([]byte{0}, kb...)
	if v < 1<<31 {
		data = append([]byte{}, pub...)
	}
	return hmac512(append([]byte{}, k[13:45]...), append(data, be32(v)...))
}

// smooth assumes that no step along the values from k fails, that no sum of a private key and a left half
// exceeds the order of the curve, and that neither a sum nor a public key has a zero byte in front. (P11 takes
// one step at a time, with none of that assumed.) Private key and chain code of the key it gives are those of
// the last one.
func smooth(k bip32.Key, vals []uint32) bip32.Key {
	n, low := order(), new(big.Int).Lsh(big.NewInt(1), 248)
	for _, v := range vals {
		i := stepDigest(&k, v)
		vAssume(less(i[:32], orderBytes()))
		s := new(big.Int).Add(new(big.Int).SetBytes(i[:32]), new(big.Int).SetBytes(k[46:78]))
		vAssume(s.Cmp(n) < 0)
		vAssume(s.Cmp(low) >= 0)
		child := make([]byte, 32)
		s.FillBytes(child)
		copy(k[13:45], i[32:])
		copy(k[46:78], child)
	}
	return k
}

// p25 derives along a valid path, given as its values and the labels of its levels.
func p25(root bip32.Key, s string, vals []uint32, labels []string) {
	smooth(root, vals[1:])
	p25any(root, s, vals, labels)
}

func p25any(root bip32.Key, s string, vals []uint32, labels []string) {
	// key by key
	want := []bip32.Key{root}
	for _, v := range vals[1:] {
		k := want[len(want)-1]
		c, err := k.NewChildKey(v)
		if err != nil {
			break
		}
		want = append(want, c)
	}
	l, err, panicked := derive(root, s)
	if panicked {
		return
	}
	if len(want) < len(vals) {
		vAssert("a failing step is an error", err != nil)
		vReach("failing step")
		return
	}
	vAssert("derived", err == nil)
	vAssert("one entry per level", len(l) == len(vals))
	if len(l) != len(vals) {
		return
	}
	for i := range l {
		vAssert("the key of the level", l[i].Key == want[i])
		vAssert("the label of the level", string(l[i].Path) == labels[i])
	}
	last := l[len(l)-1].Key
	vObserve("last key", last[:])
	vReach("derived")
}

// One level, nothing assumed about the numbers that come up.
func P25_One() {
	h := vChoose("hardened", 2)
	s, vals, labels := pathOf(h, 1-h)
	if vChoose("thin", 2) == 1 {
		p25any(rootOf(0x0488ade4, thinScalar(2)), s, vals, labels)
	} else {
		p25any(rootOf(0x0488ade4, scalar("k")), s, vals, labels)
	}
}

// seven is a private key whose public key is as long as most are.
func seven() []byte { return append(make([]byte, 31), 7) }

// A step that cannot be done, at each level of a path: the left half is too big, or the sum is zero.
func P25_Failing() {
	n := 2
	if vThorough() {
		n = 3
	}
	j := vChoose("failing", n)
	s, vals, _ := pathOf(1, n-1)
	root := rootOf(0x0488ade4, seven())
	k := smooth(root, vals[1:j+1])
	i := stepDigest(&k, vals[j+1])
	if vChoose("how", 2) == 0 {
		vAssume(!less(i[:32], orderBytes()))
	} else {
		sum := new(big.Int).Add(new(big.Int).SetBytes(i[:32]), new(big.Int).SetBytes(k[46:78]))
		vAssume(sum.Cmp(order()) == 0)
	}
	_, err, panicked := derive(root, s)
	if !panicked {
		vAssert("a failing step is an error", err != nil)
	}
}

// pathOf is a valid path of one-digit components, the first h of them hardened.
func pathOf(h, p int) (s string, vals []uint32, labels []string) {
	var hs []bool
	var ns []number
	for i := 0; i < h+p; i++ {
		ns = append(ns, digits(1))
		hs = append(hs, i < h)
	}
	s, want := join(hs, ns)
	l := "m"
	labels = append(labels, l)
	for i := range ns {
		l += "/" + ns[i].text
		if hs[i] {
			l += "'"
		}
		labels = append(labels, l)
	}
	return s, append([]uint32{}, want.vals[:h+p+1]...), labels
}

func P25_Short() {
	h := vChoose("hardened", 3)
	s, vals, labels := pathOf(h, vChoose("plain", 3-h))
	p25(rootOf(0x0488ade4, scalar("k")), s, vals, labels)
}

// Every registered version, and one that is not.
func P25_Versions() {
	s, vals, labels := pathOf(1, 1)
	v := anyVersion(true)
	if vChoose("other", 2) == 1 {
		v = 0x01020304
	}
	p25(rootOf(v, scalar("k")), s, vals, labels)
}

// Numbers of every size, written plainly or with zeros in front, as they are and as the label gives them.
func P25_Numbers() {
	type form struct {
		front  string // the number but for its last digit
		lo, hi byte   // the last digit
		hard   bool   // an apostrophe follows
		label  string // the number in the label but for its last digit
		shift  byte   // added to the last digit
		value  uint32 // with 0 for the last digit
	}
	forms := []form{
		{"", '0', '9', false, "", 0, 0},
		{"", '0', '9', true, "", 0, 1 << 31},
		{"00", '0', '9', false, "", 0, 0},
		{"1", '0', '9', false, "1", 0, 10},
		{"09", '0', '9', true, "9", 0, 1<<31 + 90},
		{"99999999", '0', '9', false, "99999999", 0, 999999990},
		{"214748364", '0', '7', false, "214748364", 0, 2147483640},
		{"214748364", '8', '9', false, "", 0xf8, 2147483640},
		{"214748364", '0', '7', true, "214748364", 0, 4294967288},
		{"429496728", '0', '7', false, "214748363", 2, 4294967280},
		{"429496729", '0', '5', false, "214748364", 2, 4294967290},
		{"00000000000000000000429496729", '0', '5', false, "214748364", 2, 4294967290},
	}
	f := forms[vChoose("form", len(forms))]
	d := vByte("digit")
	vAssume(d >= f.lo && d <= f.hi)
	s, label := "m/"+f.front+string([]byte{d}), "m/"+f.label+string([]byte{d + f.shift})
	if f.hard {
		s += "'"
	}
	v := f.value + uint32(d-'0')
	if f.value+uint32(f.lo-'0') >= 1<<31 {
		label += "'"
	}
	p25(rootOf(0x0488ade4, seven()), s, []uint32{0, v}, []string{"m", label})
}

// The usual five levels.
func P25_Usual() {
	s, vals, labels := pathOf(3, 2)
	p25(rootOf(0x0488ade4, seven()), s, vals, labels)
}

// White space in the path and a capital m change nothing.
func P25_Blanks() {
	base := "m/4'/7"
	i := vChoose("place", len(base)+1)
	b := vByte("blank")
	vAssume(b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\f')
	s := base[:i] + string([]byte{b}) + base[i:]
	if vChoose("capital", 2) == 1 && i > 0 {
		s = "M" + s[1:]
	}
	p25(rootOf(0x0488ade4, seven()), s, []uint32{0, 1<<31 + 4, 7}, []string{"m", "m/4'", "m/4'/7"})
}

// As deep as a key can be, and one level more.
func P25_Deep() {
	n := []int{200, 255, 256, 257}[vChoose("components", 4)]
	s, _, vals := long23(n, 0)
	l, label := []string{"m"}, "m"
	for _, v := range vals[1:] {
		label += "/" + small(uint64(v)).text
		l = append(l, label)
	}
	p25any(rawKey(0x0488ade4, 0, nil, nil, make([]byte, 32), append([]byte{0}, thinScalar(1)...)), s, vals, l)
}

func P25_BadPath() {
	s := vString("path", vChoose("length", 6))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != 0x0b && s[i] < 0x80)
	}
	vAssume(!parsePath(s).ok)
	l, err, panicked := derive(rootOf(0x0488ade4, thinScalar(1)), s)
	if !panicked {
		vAssert("refused", err != nil && len(l) == 0)
		vReach("refused")
	}
}

// Any 78 bytes as the root.
func P25_BadRoot() {
	var k bip32.Key
	copy(k[:], vBytes("key", 78))
	if vChoose("public", 2) == 1 {
		k = pubKeyOf(anyVersion(false), scalar("k"))
	}
	pvt, pub := versions()
	keep := k
	vAssume(!wellFormed(&keep, pvt, pub) || k[45] != 0 || k[4] != 0)
	s := []string{"m", "m/7", "m/4'/1"}[vChoose("path", 3)]
	l, err, panicked := derive(k, s)
	if !panicked {
		vAssert("refused", err != nil && len(l) == 0)
		vReach("refused")
	}
}

func P25_NoRoot() {
	var g util.Generator
	l, err := g.DeriveBIP32Result("m/0")
	vAssert("no root, no keys", err != nil && len(l) == 0)
	vReach("refused")
}

// A generator that has been used before, for another root or for the same, along this path or others.
func P25_Again() {
	one := rawKey(0x0488ade4, 0, make([]byte, 4), make([]byte, 4), make([]byte, 32), append([]byte{0}, seven()...))
	two := rootOf(0x0488ade4, append(make([]byte, 31), 8))
	paths := []string{"m", "m/4'", "m/4'/7", "m/9"}
	lists := [][]uint32{{0}, {0, 1<<31 + 4}, {0, 1<<31 + 4, 7}, {0, 9}}
	j := vChoose("earlier path", len(paths))
	i := vChoose("path", len(paths))
	same := vChoose("same root", 2) == 1
	var g util.Generator
	g.SetRootKey(one)
	if vChoose("failed before", 2) == 1 {
		_, _ = g.DeriveBIP32Result("m/x")
	}
	_, _ = g.DeriveBIP32Result(bip32.Path(paths[j]))
	root := one
	if !same {
		root = two
		if vChoose("by pointer", 2) == 1 {
			*g.RootKey() = two
		} else {
			g.SetRootKey(two)
		}
	}
	if !same {
		smooth(root, lists[i][1:])
	}
	cur := root
	l, err := g.DeriveBIP32Result(bip32.Path(paths[i]))
	vAssert("derived", err == nil)
	vAssert("one entry per level", len(l) == len(lists[i]))
	if err != nil || len(l) != len(lists[i]) {
		return
	}
	vAssert("the first entry is the root", l[0].Key == root && l[0].Path == "m")
	for k := 1; k < len(l); k++ {
		cur, err = cur.NewChildKey(lists[i][k])
		vAssert("the key of the level", err == nil && l[k].Key == cur)
	}
	vAssert("the label", string(l[len(l)-1].Path) == paths[i])
	vReach("again")
}

// The registered paths, one level further too, from a root key of any registered version.
func P25_Registered() {
	var paths []string
	for _, e := range registered() {
		if n := len(paths); n == 0 || paths[n-1] != string(e.Path) {
			paths = append(paths, string(e.Path))
		}
	}
	s := paths[vChoose("path", len(paths))]
	want := parsePath(s)
	vAssert("a path", want.ok)
	i := 2
	for s[i] != '/' {
		i++
	}
	vals, labels := append([]uint32{}, want.vals[:3]...), []string{"m", s[:i], s}
	if vChoose("further", 2) == 1 {
		s += "/0"
		vals, labels = append(vals, 0), append(labels, s)
	}
	p25(rootOf(anyVersion(true), seven()), s, vals, labels)
}
