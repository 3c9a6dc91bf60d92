package main

import (
	"encoding/binary"
	"math/big"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
	"golang.org/x/crypto/ripemd160"

	"crypto/sha256"
)

// rawKey assembles the 78 bytes of an extended key.
func rawKey(version uint32, depth byte, fp, cn, cc, kb []byte) bip32.Key {
	var k bip32.Key
	binary.BigEndian.PutUint32(k[0:4], version)
	k[4] = depth
	copy(k[5:9], fp)
	copy(k[9:13], cn)
	copy(k[13:45], cc)
	copy(k[45:78], kb)
	return k
}

// scalar gives any private key in [1, n-1].
func scalar(name string) []byte {
	b := vBytes("scalar", 32)
	vAssume(!allZero(b) && less(b, orderBytes()))
	return b
}

// thinScalar gives one of a few private keys at the edges of the range or whose public point has leading
// zero bytes in x (153; two bytes: 44629), in y (122; two bytes: 41192) or in both (55959).
func thinScalar(n int) []byte {
	k := new(big.Int)
	switch i := vChoose("thin", n); i {
	case 7:
		k.Sub(order(), big.NewInt(1))
	case 6:
		k.SetInt64(1)
	default:
		k.SetInt64([]int64{153, 44629, 122, 41192, 55959, 246}[i])
	}
	b := make([]byte, 32)
	k.FillBytes(b)
	return b
}

// pubOf is the compressed public point of a scalar in [1, n-1], by the curve library's own key type.
func pubOf(k []byte) []byte {
	return secp256k1.PrivKeyFromBytes(k).PubKey().SerializeCompressed()
}

// versionPairs lists the registered version pairs once each, by ascending private version. (The
// order of the registry itself follows Go's map iteration order.)
func versionPairs() [][2]uint32 {
	var out [][2]uint32
	for _, e := range bip32.HDVersionBytesSlice {
		i := 0
		for i < len(out) && out[i][0] < e.PvtKeyFlag {
			i++
		}
		if i < len(out) && out[i][0] == e.PvtKeyFlag {
			continue
		}
		out = append(out, [2]uint32{})
		copy(out[i+1:], out[i:])
		out[i] = [2]uint32{e.PvtKeyFlag, e.PubKeyFlag}
	}
	return out
}

// anyPair gives any registered pair of a private and a public version.
func anyPair() (pvt, pub uint32) {
	l := versionPairs()
	v := l[vIndex("version", len(l))]
	return v[0], v[1]
}

// anyVersion gives any registered version of one kind.
func anyVersion(private bool) uint32 {
	pvt, pub := anyPair()
	if private {
		return pvt
	}
	return pub
}

// pvtKeyOf is a valid private extended key around a scalar.
func pvtKeyOf(version uint32, k []byte) bip32.Key {
	d := vByte("depth")
	fp, cn := vBytes("fingerprint", 4), vBytes("childnumber", 4)
	vAssume(d != 0 || (allZero(fp) && allZero(cn)))
	return rawKey(version, d, fp, cn, vBytes("chaincode", 32), append([]byte{0}, k...))
}

// pubKeyOf is the valid public extended key around the point of a scalar.
func pubKeyOf(version uint32, k []byte) bip32.Key {
	x := pvtKeyOf(version, k)
	copy(x[45:], pubOf(k))
	return x
}

func hash160(b []byte) []byte {
	s := sha256.Sum256(b)
	h := ripemd160.New()
	h.Write(s[:])
	return h.Sum(nil)
}

func be32(i uint32) []byte {
	return []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
}
