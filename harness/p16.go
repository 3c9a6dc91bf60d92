package main

import (
	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
)

// wellFormed is what BIP-32 asks of the 78 bytes of an extended key.
func wellFormed(k *bip32.Key, pvt, pub map[uint32]bool) bool {
	v := uint32(k[0])<<24 | uint32(k[1])<<16 | uint32(k[2])<<8 | uint32(k[3])
	if k[4] == 0 && !(allZero(k[5:9]) && allZero(k[9:13])) {
		return false
	}
	switch k[45] {
	case 0:
		return !pub[v] && !allZero(k[46:78]) && less(k[46:78], orderBytes())
	case 2, 3:
		if pvt[v] {
			return false
		}
		_, err := secp256k1.ParsePubKey(append([]byte{}, k[45:78]...))
		return err == nil
	}
	return false
}

func versions() (pvt, pub map[uint32]bool) {
	pvt, pub = map[uint32]bool{}, map[uint32]bool{}
	for _, p := range versionPairs() {
		pvt[p[0]], pub[p[1]] = true, true
	}
	return
}

func importable(k bip32.Key) { importableAt(&k) }

func importableAt(k *bip32.Key) {
	pvt, pub := versions()
	data := append(append([]byte{}, k[:]...), checksum(k[:])...)
	keep := *k
	ok := wellFormed(&keep, pvt, pub)
	back, err := bip32.Deserialize(data)
	valid := k.IsValid()
	if ok {
		vAssert("a well-formed key is accepted", err == nil && back == keep)
		vAssert("a well-formed key is valid", valid)
		vReach("accepted")
	} else {
		vAssert("a malformed key is refused", err != nil)
		vAssert("a malformed key is not valid", !valid)
		vReach("refused")
	}
}

// Every 78 bytes there are, under a version of each kind or none.
func P16_AnyKey() {
	var k bip32.Key
	copy(k[:], vBytes("key", 78))
	importable(k)
}

// Text that is not exactly a Base58 encoding is no key, whatever the key inside.
func P16_Decorated() {
	k := pvtKeyOf(anyVersion(true), scalar("k"))
	if vChoose("public", 2) == 1 {
		k = pubKeyOf(anyVersion(false), scalar("k"))
	}
	s := k.B58Serialize()
	x := []string{" ", "\n", "\t", "\r\n", "0", "O", "I", "l", "\x00", "\u00a0", "\ufeff", "'", "\"", "<", "1", "11"}[vChoose("decoration", 16)]
	d := x + s
	if x[0] != '1' && vChoose("place", 2) == 1 {
		d = s + x
	}
	back, err := bip32.B58Deserialize(d)
	vAssert("decorated text is refused", err != nil)
	if err == nil {
		vObserve("key", back[:])
	}
	vReach("refused")
}

func P16_Private() {
	k := rawKey(anyVersion(true), vByte("depth"), vBytes("fingerprint", 4), vBytes("childnumber", 4), vBytes("chaincode", 32), vBytes("keyfield", 33))
	importable(k)
}

func P16_Public() {
	k := rawKey(anyVersion(false), vByte("depth"), vBytes("fingerprint", 4), vBytes("childnumber", 4), vBytes("chaincode", 32), vBytes("keyfield", 33))
	importable(k)
}
