From ef6d2f42e07a9c8b3abc6065040e7ea335dfccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 01/14] fix: NewEntropy reports a failure of the random source

---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..3412f57 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0


From ef58441a22252fae37a925d0a596546475e4599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 02/14] fix: bip32.NewSeed returns no seed when the random
 source fails

---
 bip32/bip32.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..2730b30 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -388,6 +388,8 @@ func B58Deserialize(data string) (Key, error) {
 func NewSeed() ([]byte, error) {
 	// Well that easy, just make go read 256 random bytes into a slice
 	s := make([]byte, 256)
-	_, err := rand.Read(s)
-	return s, err
+	if _, err := rand.Read(s); err != nil {
+		return nil, err
+	}
+	return s, nil
 }
-- 
2.43.0


From 6f1ca7fcccd70e8f2a0c5cd3e0f0a5f3d5346b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 03/14] fix: MnemonicToByteArray counts words the way they are
 decoded

---
 bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 3412f57..188bf11 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -218,7 +218,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
+		mnemonicSlice   = strings.Fields(mnemonic)
 		entropyBitSize  = len(mnemonicSlice) * 11
 		checksumBitSize = entropyBitSize % 32
 		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 5528a05ef3c83f4d7db086106c67087fa0a8af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 04/14] fix: NewChildKey refuses a left half not below the
 curve order and a child at infinity

---
 bip32/bip32.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 2730b30..72bb229 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -1,6 +1,7 @@
 package bip32
 
 import (
+	"bytes"
 	"crypto/hmac"
 	"crypto/rand"
 	"crypto/sha512"
@@ -115,6 +116,13 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if err != nil {
 		return childKey, err
 	}
+	// Bip32: the left half has to be below the order of the curve
+	if bytes.Compare(intermediary[:32], curveParams.N.Bytes()) >= 0 {
+		if key.IsPrivate() {
+			return childKey, ErrInvalidPrivateKey
+		}
+		return childKey, ErrInvalidPublicKey
+	}
 	vs := Version(key[VersionStartIndex:VersionEndIndex])
 	vsVal := binary.BigEndian.Uint32(vs[:])
 	hdBsArr, ok := PvtFlagToHDBytesSlice[vsVal]
@@ -155,17 +163,17 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	} else {
 		vs = hdBsArr[0].PubKeyFlagBytes()
 		keyBytes := publicKeyForPrivateKey(intermediary[:32])
-		// Validate key
-		err := validateChildPublicKey(keyBytes)
-		if err != nil {
-			return childKey, err
-		}
 		fingerprint, err := HashRipeMD160onSha256(key[PubKeyStartIndex:])
 		if err != nil {
 			return childKey, err
 		}
 		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)
 		kbs := addPublicKeys(keyBytes, key[PubKeyStartIndex:])
+		// Validate key
+		err = validateChildPublicKey(kbs)
+		if err != nil {
+			return childKey, err
+		}
 		childKey.setPubKeyBytes(KeyBytes(kbs))
 	}
 	return childKey, nil
-- 
2.43.0


From 85ebc1079748d90cd1dea23f97a36c15818e5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 05/14] fix: NewChildKey refuses to derive below depth 255

---
 bip32/bip32.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 72bb229..23f48c8 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -48,6 +48,8 @@ const (
 	FirstHardenedChild = uint32(0x80000000)
 	// PublicKeyCompressedLength is the byte count of a compressed public key
 	PublicKeyCompressedLength = 33
+	// MaxDepth is the depth of the deepest key that can be represented
+	MaxDepth = 255
 )
 
 var DefaultMainnetVersion = Bitcoinxprvxpub
@@ -72,6 +74,9 @@ var (
 	// ErrInvalidPublicKey is returned when a derived public key is invalid
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
+	// ErrMaxDepthReached is returned when trying to create a child of a key at MaxDepth
+	ErrMaxDepthReached = errors.New("can't create child below depth 255")
+
 	ErrEmptyKey = errors.New("key is empty")
 )
 
@@ -112,6 +117,10 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	// Depth is a single byte, hence there's no level below 255
+	if key[DepthStartIndex] == MaxDepth {
+		return childKey, ErrMaxDepthReached
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
-- 
2.43.0


From 61246d2b25182f65361f41066546dded433eb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 06/14] fix: Deserialize and AddChecksumDblSha256ToBytes leave
 memory beyond the caller's slice alone

---
 bip32/bip32.go | 8 +++-----
 bip32/utils.go | 3 ++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 23f48c8..c57325d 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -309,11 +309,9 @@ func (key *Key) IsValid() bool {
 // Deserialize a byte slice into a Key
 func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
-		if len(data) < 82 {
-			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
-		}
-		return Key(data[:78]), ErrSerializedKeyWrongSize
+		var key Key
+		copy(key[:], data)
+		return key, ErrSerializedKeyWrongSize
 	}
 	// validate ChecksumDblSha256
 	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])
diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..3367508 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,8 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	// the capacity is limited so that memory of the caller beyond data is never written
+	return append(data[:len(data):len(data)], checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0


From ea31786228344963861afa63c4c9ac3875d77609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 07/14] fix: Deserialize refuses malformed extended keys

---
 bip32/bip32.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index c57325d..ff429e1 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/btcsuite/btcutil/base58"
+	"github.com/decred/dcrd/dcrec/secp256k1/v4"
 )
 
 type Version [4]byte
@@ -77,6 +78,12 @@ var (
 	// ErrMaxDepthReached is returned when trying to create a child of a key at MaxDepth
 	ErrMaxDepthReached = errors.New("can't create child below depth 255")
 
+	// ErrVersionMismatch is returned when the version of a key belongs to the other kind of key
+	ErrVersionMismatch = errors.New("version doesn't match the kind of key")
+
+	// ErrInvalidRootKey is returned when a key at depth zero has a parent
+	ErrInvalidRootKey = errors.New("key at depth zero has fingerprint or child number")
+
 	ErrEmptyKey = errors.New("key is empty")
 )
 
@@ -324,7 +331,34 @@ func Deserialize(data []byte) (Key, error) {
 			return Key(data[:78]), ErrInvalidChecksum
 		}
 	}
-	return Key(data[:78]), nil
+	key := Key(data[:78])
+	return key, key.validate()
+}
+
+// validate checks the contents of the key as outlined by bip32 (Test vector 5)
+func (key *Key) validate() error {
+	_, isPvtVersion := PvtFlagToHDBytesSlice[key.GetVersion()]
+	_, isPubVersion := PubFlagToHDBytesSlice[key.GetVersion()]
+	if key.IsPrivate() {
+		if isPubVersion && !isPvtVersion {
+			return ErrVersionMismatch
+		}
+		if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
+			return err
+		}
+	} else {
+		if isPvtVersion && !isPubVersion {
+			return ErrVersionMismatch
+		}
+		if _, err := secp256k1.ParsePubKey(key[PubKeyStartIndex:PubKeyEndIndex]); err != nil {
+			return ErrInvalidPublicKey
+		}
+	}
+	if key[DepthStartIndex] == 0 &&
+		(key.GetFingerPrint() != FingerPrint{} || key.GetChildNumber() != ChildNumber{}) {
+		return ErrInvalidRootKey
+	}
+	return nil
 }
 
 func (key *Key) SetVersionUint32(v uint32) {
-- 
2.43.0


From 87753ae49f990304318804e70b5ac5574cbef45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 08/14] fix: ValuesAtDepth refuses numbers of 2^32 and more

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..69a58b9 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -55,7 +55,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 		isHardened := strings.Contains(s, "'")
 		if isHardened {
 			fmtStr := strings.ReplaceAll(s, "'", "")
-			val, err := strconv.Atoi(fmtStr)
+			val, err := strconv.ParseUint(fmtStr, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
@@ -64,7 +64,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
 		} else {
-			val, err := strconv.Atoi(s)
+			val, err := strconv.ParseUint(s, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
-- 
2.43.0


From 33e650ee07a12d1ab1252bdde65edf9f3d80795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 09/14] fix: ReplaceValueAtDepth returns no invalid path, and
 depths of long paths count right

---
 bip32/path.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 69a58b9..4c9fbcc 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -83,7 +83,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -94,7 +94,8 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	// m at depth 0 has no value which can be replaced
+	if b == 0 || int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
@@ -103,5 +104,10 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	} else {
 		valsArr[b] = fmt.Sprintf("%d", val)
 	}
-	return Path(strings.Join(valsArr, "/")), nil
+	newPath = Path(strings.Join(valsArr, "/"))
+	// hardened components can't follow the others
+	if !newPath.IsValid() {
+		return p, ErrUnSupportedOrInvalidPath
+	}
+	return newPath, nil
 }
-- 
2.43.0


From 0b142c005ee8b426dd3fedf5969f21074bcbe549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 10/14] fix: VersionBytes.IsValid refuses paths without digits

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 036d09f..2fd004f 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -72,7 +72,7 @@ func (h VersionBytes) PubKeyFlagBytes() [4]byte {
 }
 
 func (h VersionBytes) IsValid() bool {
-	regex := regexp.MustCompile(`^m/\d{0,8}'/\d{0,8}'$`)
+	regex := regexp.MustCompile(`^m/\d{1,8}'/\d{1,8}'$`)
 	return regex.MatchString(h.Path.String())
 }
 
-- 
2.43.0


From 58d2bae76d7e8bc7eccb9aadcb0490a53da50adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 11/14] fix: RootKeyFromSeed refuses seeds without a master key
 instead of panicking

---
 util/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 4e31e0f..82d4d2e 100644
--- a/util/util.go
+++ b/util/util.go
@@ -62,7 +62,11 @@ func RootKeyFromSeed(seed string) (*bip32.Key, error) {
 	if len(seedBs) < 16 {
 		return rootKey, ErrInvalidBIP39Seed
 	}
-	rootKey, err = bip32.NewMasterKey(seedBs)
+	masterKey, err := bip32.NewMasterKey(seedBs)
+	if err != nil {
+		return rootKey, err
+	}
+	rootKey = masterKey
 	ser, err := rootKey.Serialize()
 	if err != nil {
 		return rootKey, err
-- 
2.43.0


From 6e25dfce561770757590cc2ba890eecda3e39bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 12/14] fix: AddrHex keeps the leading zeros of the coordinates

---
 util/key_path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..e419127 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,10 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	// both coordinates have 32 bytes, zeros in front included
+	addrBs := make([]byte, 64)
+	x.FillBytes(addrBs[:32])
+	y.FillBytes(addrBs[32:])
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From 7b5fb6c47920014429227754db58ff4f59d29d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 13/14] fix: GenerateRange refuses reversed ranges

---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index e419127..88026e1 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -80,7 +80,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if endIndex <= startIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
-- 
2.43.0


From 3624fb3b1b467034a65b908625118444982621cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 14/14] fix: DeriveBIP32Result and GenerateRange report failing
 derivation steps

---
 util/key_path.go | 6 +++++-
 util/util.go     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/key_path.go b/util/key_path.go
index 88026e1..81f0d50 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -98,7 +98,11 @@ func (k *KeyPathRange) GenerateRange() error {
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		childKey, err := currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
+		currentKey = childKey
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
diff --git a/util/util.go b/util/util.go
index 82d4d2e..a8c9bfe 100644
--- a/util/util.go
+++ b/util/util.go
@@ -120,7 +120,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0

