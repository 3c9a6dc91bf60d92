package main

import (
	"github.com/mearaj/bips/bip32"
)

// slip132 is the table of SLIP-0132, taken down from the document: the path of multi-signature versions is left open there.
type slipRow struct {
	coin     string
	pub      uint32
	pubText  string
	pvt      uint32
	pvtText  string
	path     string
	findings bool // the texts listed are not what keys start with
}

var slip132 = []slipRow{
	{"Bitcoin", 0x0488b21e, "xpub", 0x0488ade4, "xprv", "m/44'/0'", false},
	{"Bitcoin", 0x049d7cb2, "ypub", 0x049d7878, "yprv", "m/49'/0'", false},
	{"Bitcoin", 0x04b24746, "zpub", 0x04b2430c, "zprv", "m/84'/0'", false},
	{"Bitcoin", 0x0295b43f, "Ypub", 0x0295b005, "Yprv", "", false},
	{"Bitcoin", 0x02aa7ed3, "Zpub", 0x02aa7a99, "Zprv", "", false},
	{"Bitcoin Testnet", 0x043587cf, "tpub", 0x04358394, "tprv", "m/44'/1'", false},
	{"Bitcoin Testnet", 0x044a5262, "upub", 0x044a4e28, "uprv", "m/49'/1'", false},
	{"Bitcoin Testnet", 0x045f1cf6, "vpub", 0x045f18bc, "vprv", "m/84'/1'", false},
	{"Bitcoin Testnet", 0x024289ef, "Upub", 0x024285b5, "Uprv", "", false},
	{"Bitcoin Testnet", 0x02575483, "Vpub", 0x02575048, "Vprv", "", false},
	{"Groestlcoin", 0x0488b21e, "xpub", 0x0488ade4, "xprv", "m/44'/17'", false},
	{"Groestlcoin", 0x049d7cb2, "ypub", 0x049d7878, "yprv", "m/49'/17'", false},
	{"Groestlcoin", 0x04b24746, "zpub", 0x04b2430c, "zprv", "m/84'/17'", false},
	{"Groestlcoin", 0x0295b43f, "Ypub", 0x0295b005, "Yprv", "", false},
	{"Groestlcoin", 0x02aa7ed3, "Zpub", 0x02aa7a99, "Zprv", "", false},
	{"Groestlcoin Testnet", 0x043587cf, "tpub", 0x04358394, "tprv", "m/44'/1'", false},
	{"Groestlcoin Testnet", 0x044a5262, "upub", 0x044a4e28, "uprv", "m/49'/1'", false},
	{"Groestlcoin Testnet", 0x045f1cf6, "vpub", 0x045f18bc, "vprv", "m/84'/1'", false},
	{"Groestlcoin Testnet", 0x024289ef, "Upub", 0x024285b5, "Uprv", "", false},
	{"Groestlcoin Testnet", 0x02575483, "Vpub", 0x02575048, "Vprv", "", false},
	{"Litecoin", 0x019da462, "Ltub", 0x019d9cfe, "Ltpv", "m/44'/2'", false},
	{"Litecoin", 0x01b26ef6, "Mtub", 0x01b26792, "Mtpv", "m/49'/2'", false},
	{"Litecoin Testnet", 0x0436f6e1, "ttub", 0x0436ef7d, "ttpv", "m/44'/1'", false},
	{"Nexa", 0x42696720, "xpub", 0x426c6b73, "xprv", "m/44'/29223'", true},
	{"Nexa Testnet", 0x043587cf, "xpub", 0x04358394, "xprv", "m/44'/1'", true},
	{"Vertcoin", 0x0488b21e, "vtcp", 0x0488ade4, "vtcv", "m/44'/28'", true},
	{"Polis", 0x03e25d7e, "ppub", 0x03e25945, "pprv", "m/44'/1997'", false},
	{"Syscoin", 0x04b24746, "zpub", 0x04b2430c, "zprv", "m/84'/57'", false},
	{"Syscoin", 0x02aa7ed3, "Zpub", 0x02aa7a99, "Zprv", "", false},
}

// The registry holds the rows of SLIP-0132 and nothing else.
//
//verif:order fwd,rev,rot,mix
func P33_Registry() {
	pvt, pub := vU32("private"), vU32("public")
	coin := slip132[vChoose("row", len(slip132))].coin
	var want, got []slipRow
	for _, r := range slip132 {
		if r.coin == coin && (r.pvt == pvt || r.pub == pub) {
			want = append(want, r)
		}
	}
	for _, e := range bip32.HDVersionBytesSlice {
		if e.Coin == coin && (e.PvtKeyFlag == pvt || e.PubKeyFlag == pub) {
			got = append(got, slipRow{coin: e.Coin, pub: e.PubKeyFlag, pubText: e.PubKeyPrefix, pvt: e.PvtKeyFlag, pvtText: e.PvKeyPrefix, path: string(e.Path)})
		}
	}
	vAssert("registered exactly when listed", len(got) == len(want))
	for _, r := range want {
		n := 0
		for _, e := range got {
			if e.pvt == r.pvt && e.pub == r.pub && e.pvtText == r.pvtText && e.pubText == r.pubText && (r.path == "" || r.path == e.path) {
				n++
			}
		}
		vAssert("the row listed", n == 1)
	}
	if len(want) > 0 {
		vReach("listed")
	} else {
		vReach("not listed")
	}
}

func P33_NoOtherCoins() {
	coins := map[string]bool{}
	for _, r := range slip132 {
		coins[r.coin] = true
	}
	for _, e := range bip32.HDVersionBytesSlice {
		vAssert("a coin listed", coins[e.Coin])
	}
	vReach("coins")
}

// starts serializes any key under a version and compares the text with the prefix registered for the version.
func starts(version uint32, prefix string) bool {
	k := rawKey(version, vByte("depth"), vBytes("fingerprint", 4), vBytes("child", 4), vBytes("chain", 32), vBytes("key", 33))
	s := k.B58Serialize()
	vObserve("text", s)
	return len(prefix) == 4 && len(s) >= 4 && s[:4] == prefix && k.String()[:4] == prefix
}

// entryOf finds the entry registered for a row.
func entryOf(r slipRow) (bip32.VersionBytes, bool) {
	for _, e := range registered() {
		if e.Coin == r.coin && e.PvtKeyFlag == r.pvt && e.PubKeyFlag == r.pub {
			return e, true
		}
	}
	return bip32.VersionBytes{}, false
}

func prefixes(coin string, of func(bip32.VersionBytes) (uint32, string), found bool) bool {
	var l []slipRow
	for _, r := range slip132 {
		if r.findings == found && (coin == "" || r.coin == coin) {
			l = append(l, r)
		}
	}
	e, ok := entryOf(l[vChoose("row", len(l))])
	if !ok {
		return false
	}
	return starts(of(e))
}

func pvtText(e bip32.VersionBytes) (uint32, string) { return e.PvtKeyFlag, e.PvKeyPrefix }
func pubText(e bip32.VersionBytes) (uint32, string) { return e.PubKeyFlag, e.PubKeyPrefix }

func P33_PrivatePrefix() {
	vAssert("the text of a private key starts with the prefix registered", prefixes("", pvtText, false))
	vReach("serialized")
}

func P33_PublicPrefix() {
	vAssert("the text of a public key starts with the prefix registered", prefixes("", pubText, false))
	vReach("serialized")
}

// SLIP-0132 lists for these the prefixes of other versions, and the registry follows it.

func P33_NexaPrivate() {
	vAssert("the text of a private key starts with the prefix registered", prefixes("Nexa", pvtText, true))
	vReach("serialized")
}

func P33_NexaPublic() {
	vAssert("the text of a public key starts with the prefix registered", prefixes("Nexa", pubText, true))
	vReach("serialized")
}

func P33_NexaTestnetPrivate() {
	vAssert("the text of a private key starts with the prefix registered", prefixes("Nexa Testnet", pvtText, true))
	vReach("serialized")
}

func P33_NexaTestnetPublic() {
	vAssert("the text of a public key starts with the prefix registered", prefixes("Nexa Testnet", pubText, true))
	vReach("serialized")
}

func P33_VertcoinPrivate() {
	vAssert("the text of a private key starts with the prefix registered", prefixes("Vertcoin", pvtText, true))
	vReach("serialized")
}

func P33_VertcoinPublic() {
	vAssert("the text of a public key starts with the prefix registered", prefixes("Vertcoin", pubText, true))
	vReach("serialized")
}
