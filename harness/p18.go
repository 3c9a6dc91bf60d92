package main

import (
	"strings"

	"github.com/mearaj/bips/bip32"
)

// named are the entries the package exports one by one.
func named() []bip32.VersionBytes {
	return []bip32.VersionBytes{
		bip32.Bitcoinxprvxpub, bip32.Bitcoinyprvypub, bip32.Bitcoinzprvzpub, bip32.BitcoinYprvYpub, bip32.BitcoinZprvZpub,
		bip32.Bitcointprvtpub, bip32.Bitcoinuprvupub, bip32.Bitcoinvprvvpub, bip32.BitcoinUprvUpub, bip32.BitcoinVprvVpub,
		bip32.Groestlcoinxprvxpub, bip32.Groestlcoinyprvypub, bip32.Groestlcoinzprvzpub, bip32.GroestlcoinYprvYpub, bip32.GroestlcoinZprvZpub,
		bip32.Groestlcointprvtpub, bip32.Groestlcoinuprvupub, bip32.Groestlcoinvprvvpub, bip32.GroestlcoinUprvUpub, bip32.GroestlcoinVprvVpub,
		bip32.LitecoinLtpvLtub, bip32.LitecoinMtpvMtub, bip32.Litecointtpvttub,
		bip32.Nexaxprvxpub, bip32.Nexaxprvxpub2, bip32.Polispprvppub, bip32.Syscoinzprvzpub, bip32.SyscoinZprvZpub, bip32.Vertcoinvtcpvtcv,
	}
}

// registered lists what is registered under the paths, in an order of its own.
func registered() []bip32.VersionBytes {
	var paths []string
	for p := range bip32.PathToHDBytesSlice {
		i := 0
		for i < len(paths) && paths[i] < p {
			i++
		}
		paths = append(paths, "")
		copy(paths[i+1:], paths[i:])
		paths[i] = p
	}
	var out []bip32.VersionBytes
	for _, p := range paths {
		out = append(out, bip32.PathToHDBytesSlice[p]...)
	}
	return out
}

// entryText renders an entry in full, so that equal texts mean equal entries.
func entryText(e bip32.VersionBytes) string {
	s := e.Coin + "|" + e.PvKeyPrefix + "|" + e.PubKeyPrefix + "|" + string(e.Path) + "|" + string(be32(e.PvtKeyFlag)) + string(be32(e.PubKeyFlag))
	for _, a := range e.AddrEncodings {
		s += "|" + string(a)
	}
	return s
}

// sameEntries compares two lists of entries whatever their order.
func sameEntries(a, b []bip32.VersionBytes) bool {
	m := map[string]int{}
	for _, e := range a {
		m[entryText(e)]++
	}
	for _, e := range b {
		m[entryText(e)]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// levels reads m/purpose'/coin' of a registered path.
func levels(path string) (ok bool, purpose, coin uint32) {
	f := strings.Split(path, "/")
	if len(f) != 3 || f[0] != "m" {
		return false, 0, 0
	}
	var v [2]uint32
	for i, s := range f[1:] {
		if len(s) < 2 || len(s) > 9 || s[len(s)-1] != '\'' {
			return false, 0, 0
		}
		for _, c := range s[:len(s)-1] {
			if c < '0' || c > '9' {
				return false, 0, 0
			}
			v[i] = v[i]*10 + uint32(c-'0')
		}
	}
	return true, v[0], v[1]
}

// having groups the registered entries by a key of theirs.
func having(key func(bip32.VersionBytes) uint32) map[uint32][]bip32.VersionBytes {
	m := map[uint32][]bip32.VersionBytes{}
	for _, e := range registered() {
		m[key(e)] = append(m[key(e)], e)
	}
	return m
}

//verif:order fwd,rev,rot,mix
func P18_Entries() {
	vAssert("the list holds exactly what the paths hold", sameEntries(bip32.HDVersionBytesSlice, registered()))
	at := map[string]bool{}
	for p, l := range bip32.PathToHDBytesSlice {
		ok, _, _ := levels(p)
		vAssert("a two-level path", ok)
		for _, e := range l {
			vAssert("an entry is under its own path", string(e.Path) == p)
			vAssert("an entry is there once", !at[entryText(e)])
			at[entryText(e)] = true
			vAssert("an entry is valid and registered", e.IsValid() && e.IsRegistered())
		}
	}
	for _, e := range named() {
		vAssert("the exported entries are registered", at[entryText(e)])
	}
	vReach("entries")
}

//verif:order fwd,rev,rot,mix
func P18_Versions() {
	v := vU32("version")
	pvt := having(func(e bip32.VersionBytes) uint32 { return e.PvtKeyFlag })
	pub := having(func(e bip32.VersionBytes) uint32 { return e.PubKeyFlag })
	a, b := pvt[v], pub[v]
	vAssert("no value is both private and public", len(a) == 0 || len(b) == 0)
	for _, e := range a {
		vAssert("one public version", e.PubKeyFlag == a[0].PubKeyFlag && e.PubKeyFlagBytes() == a[0].PubKeyFlagBytes())
	}
	for _, e := range b {
		vAssert("one private version", e.PvtKeyFlag == b[0].PvtKeyFlag && e.PvtKeyFlagBytes() == b[0].PvtKeyFlagBytes())
	}
	x, y := bip32.PvtFlagToHDBytesSlice[v], bip32.PubFlagToHDBytesSlice[v]
	vAssert("the table by private version", sameEntries(x, a))
	vAssert("the table by public version", sameEntries(y, b))
	vObserve("private", len(x))
	vObserve("public", len(y))
	vReach("versions")
}

//verif:order fwd,rev,rot,mix
func P18_PurposeAndCoin() {
	v := vU32("value")
	purpose := having(func(e bip32.VersionBytes) uint32 { _, p, _ := levels(string(e.Path)); return p })
	full := having(func(e bip32.VersionBytes) uint32 { _, p, _ := levels(string(e.Path)); return p + 1<<31 })
	coin := having(func(e bip32.VersionBytes) uint32 { _, _, c := levels(string(e.Path)); return c })
	vAssert("the table by purpose", sameEntries(bip32.PurposeToHDBytesSlice[v], purpose[v]))
	vAssert("the table by hardened purpose", sameEntries(bip32.PurposeFullToHDBytesSlice[v], full[v]))
	vAssert("the table by coin type", sameEntries(bip32.CoinTypeToHDBytesSlice[v], coin[v]))
	vObserve("coins", len(bip32.CoinTypeToHDBytesSlice[v]))
	vReach("purpose and coin")
}

// The version bytes of an entry are its versions, big endian.
func P18_FlagBytes() {
	e := bip32.VersionBytes{PvtKeyFlag: vU32("private"), PubKeyFlag: vU32("public")}
	a, b := e.PvtKeyFlagBytes(), e.PubKeyFlagBytes()
	vAssert("private version bytes", eqBytes(a[:], be32(e.PvtKeyFlag)))
	vAssert("public version bytes", eqBytes(b[:], be32(e.PubKeyFlag)))
	vObserve("bytes", append(a[:], b[:]...))
	vReach("flag bytes")
}
