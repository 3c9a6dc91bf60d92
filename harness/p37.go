package main

import (
	"crypto/sha256"

	"github.com/mearaj/bips/bip32"
)

// p37 compares the digest helpers with their definitions on data that ends before the memory under it.
func p37(n, spare int) {
	under := vBytes("data", n+spare)
	keep := append([]byte{}, under...)
	b := under[:n]
	one := sha256.Sum256(keep[:n])
	two := sha256.Sum256(one[:])

	h, err := bip32.HashRipeMD160onSha256(b)
	vAssert("RIPEMD-160 of SHA-256", err == nil && eqBytes(h, hash160(keep[:n])))
	vAssert("20 bytes", len(h) == 20)
	c, err := bip32.ChecksumDblSha256(b)
	vAssert("four bytes of double SHA-256", err == nil && eqBytes(c, two[:4]))
	a, err := bip32.AddChecksumDblSha256ToBytes(b)
	vAssert("the data and its checksum", err == nil && eqBytes(a, append(append([]byte{}, keep[:n]...), two[:4]...)))
	vAssert("memory of the caller is as it was", eqBytes(under, keep))
	for i := range a {
		a[i] ^= 0xff
	}
	for i := range c {
		c[i] ^= 0xff
	}
	for i := range h {
		h[i] ^= 0xff
	}
	vAssert("the results have memory of their own", eqBytes(under, keep))
	h2, err := bip32.HashRipeMD160onSha256(b)
	c2, err2 := bip32.ChecksumDblSha256(b)
	vAssert("the same again", err == nil && err2 == nil && eqBytes(h2, hash160(keep[:n])) && eqBytes(c2, two[:4]))
	vReach("digests")
}

func P37_Short() { p37(vChoose("length", 100), 0) }
func P37_Spare() { p37(vChoose("length", 40), vChoose("spare", 6)) }

// Lengths about the block sizes of the digests, and longer than one of them.
func P37_Blocks() {
	p37([]int{54, 55, 56, 57, 63, 64, 65, 111, 119, 120, 121, 127, 128, 129, 183, 184, 191, 192, 193, 255, 256, 257, 511, 512, 513}[vChoose("length", 25)], 0)
}

//verif:unroll 6000
func P37_Long() {
	p37([]int{1000, 1024, 4095, 4096, 4097}[vChoose("length", 5)], 0)
}

func P37_Nil() {
	h, err := bip32.HashRipeMD160onSha256(nil)
	vAssert("RIPEMD-160 of SHA-256", err == nil && eqBytes(h, hash160(nil)))
	one := sha256.Sum256(nil)
	two := sha256.Sum256(one[:])
	c, err := bip32.ChecksumDblSha256(nil)
	vAssert("four bytes of double SHA-256", err == nil && eqBytes(c, two[:4]))
	a, err := bip32.AddChecksumDblSha256ToBytes(nil)
	vAssert("the checksum alone", err == nil && eqBytes(a, two[:4]))
}
