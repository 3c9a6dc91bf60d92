#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
B39="bip39/bip39.go"; B32="bip32/bip32.go"; U32="bip32/utils.go"; PA="bip32/path.go"; RV="bip32/reg_ver_bytes.go"; UT="util/util.go"; KP="util/key_path.go"; CO="bip44/coin.go"; CS="bip44/coins.go"

p("P01","Entropy survives the mnemonic round trip",
 "For every entropy of 128, 160, 192, 224 or 256 bits, encoding it to a mnemonic sentence and decoding that sentence returns exactly the original entropy bytes, including leading and trailing zero bytes, whichever bundled or caller-supplied list of 2048 distinct words is active.",
 ["inputs","configurations"],"every entropy value of each of the five sizes, every word list",
 "Tests try a few thousand random and hand-picked entropies with the English list; the failing values (zero-byte patterns, particular checksum bits) are a vanishing fraction of 2^128..2^256.",
 [B39],[("NewMnemonic",B39),("EntropyFromMnemonic",B39),("addChecksum",B39),("padByteSlice",B39)],["bip39.NewMnemonic","bip39.EntropyFromMnemonic"])
p("P02","Mnemonic sentences follow the BIP-39 encoding",
 "A generated sentence has 12, 15, 18, 21 or 24 words for 128, 160, 192, 224 or 256 bits of entropy, joined by single spaces, and its k-th word is the word of the active list at the index given by the k-th 11-bit group of the entropy followed by the first (bits/32) bits of its SHA-256 digest.",
 ["inputs","configurations"],"every entropy value of each size, every word list",
 "The tests compare two dozen official vectors; an error in one bit position or one checksum length only shows for particular entropies.",
 [B39],[("NewMnemonic",B39),("addChecksum",B39),("computeChecksum",B39)],["bip39.NewMnemonic"])
p("P03","Mnemonic validation is exact and consistent",
 "A sentence of whitespace-separated words is accepted exactly when it has 12, 15, 18, 21 or 24 words, every word is in the active list, and the trailing checksum bits equal the leading SHA-256 bits of the encoded entropy; then the decoded entropy is the one its words spell. Every validating entry point (validity query, entropy decoding, byte-array decoding, checked seed derivation, seed derivation helper) gives the same verdict, rejects with an error and no result, and never panics.",
 ["inputs"],"every sequence of known and unknown words of every count, with any whitespace separators",
 "Tests reject about twenty hand-written bad sentences; a checksum comparison that is too weak for one word count or one bit accepts only a fraction of bad sentences.",
 [B39,UT],[("EntropyFromMnemonic",B39),("splitMnemonicWords",B39),("MnemonicToByteArray",B39),("IsMnemonicValid",B39),("DeriveSeedFromMnemonic",UT)],["bip39.IsMnemonicValid","bip39.EntropyFromMnemonic","bip39.MnemonicToByteArray","bip39.NewSeedWithErrorChecking","util.DeriveSeedFromMnemonic"])
p("P04","Only the five BIP-39 entropy sizes are accepted",
 "Creating entropy succeeds exactly for 128, 160, 192, 224 and 256 bits and then returns exactly that many bits; creating a mnemonic succeeds exactly for entropies of those sizes. Every other requested size or entropy length is refused with an error and no output, without panicking.",
 ["inputs"],"every integer bit size, every entropy length up to the bound",
 "Tests probe multiples of 32 in range and non-multiples of 8 up to 256 only.",
 [B39],[("validateEntropyBitSize",B39),("NewEntropy",B39),("NewMnemonic",B39)],["bip39.NewEntropy","bip39.NewMnemonic"])
p("P05","Randomness is used in full, and its failure is never hidden",
 "Fresh entropy, fresh seeds and generated mnemonics consist exactly of bytes delivered by the system's secure random source. If that source fails, the caller gets an error and never a key, seed, entropy or mnemonic made from predictable bytes.",
 ["fault_sequences","inputs"],"every output of the random source and failure at any request",
 "No test makes the random source fail, and none can check that every returned byte depends on it.",
 [B39,B32,UT],[("NewEntropy",B39),("NewSeed",B32),("GenerateMnemonic",UT)],["bip39.NewEntropy","bip32.NewSeed","util.GenerateMnemonic"])
p("P06","The byte-array form of a mnemonic is canonical",
 "For every valid sentence the byte-array form is the entropy followed by its checksum bits as one right-aligned big-endian number in exactly (entropy bytes + 1) bytes, and the raw form is the entropy itself; both depend only on the words, not on how they are separated by whitespace.",
 ["inputs"],"every valid sentence of every size with any whitespace separators",
 "Tests only check the raw form against the entropy for two dozen vectors with single spaces, and never the value of the checksummed form.",
 [B39],[("MnemonicToByteArray",B39),("addChecksum",B39),("padByteSlice",B39)],["bip39.MnemonicToByteArray"])
p("P07","Seeds follow BIP-39 key stretching",
 "The seed of a sentence and passphrase is PBKDF2-HMAC-SHA512 of the sentence's bytes with salt 'mnemonic' followed by the passphrase's bytes, 2048 iterations, 64 bytes. The checked derivations return exactly that seed (raw or lowercase hex) for valid sentences and an error with no seed for invalid ones.",
 ["inputs"],"every sentence and every passphrase up to the stated lengths",
 "Tests use one passphrase (TREZOR) and valid sentences; they never vary the passphrase or its length.",
 [B39,UT],[("NewSeed",B39),("NewSeedWithErrorChecking",B39),("DeriveSeedFromMnemonic",UT)],["bip39.NewSeed","bip39.NewSeedWithErrorChecking","util.DeriveSeedFromMnemonic"])
p("P08","Word lists are bijections and switch as one",
 "Each bundled list is the published BIP-39 list of its language, word for word: 2048 distinct non-empty words containing no whitespace. After a list is made active, the list query returns it, every word of it (and no other string) is found at its own position, and no word of the previously active list lingers in lookups, encoding or decoding.",
 ["inputs","histories"],"every word index, every bundled or caller-supplied list of distinct words, every order of switching",
 "Tests look up the words of the English list and five unknown words and never switch lists.",
 [B39,"bip39/wordlists/english.go"],[("SetWordList",B39),("GetWordIndex",B39),("GetWordList",B39),("package wordlists","bip39/wordlists")],["bip39.SetWordList","bip39.GetWordIndex","bip39.GetWordList","wordlists.*"],
 [("wordList/wordMap","active list and its reverse index",B39)])
p("P09","Generated mnemonics have the requested length and are valid",
 "Asking for 12, 15, 18, 21 or 24 words yields a valid sentence of exactly that many words of the active list, encoding the random bytes drawn; any other requested count yields an error and no sentence.",
 ["inputs"],"every word count, every random output","The helper package has no tests at all.",
 [UT,B39],[("GenerateMnemonic",UT)],["util.GenerateMnemonic"])
p("P10","Master keys follow BIP-32",
 "The master key of a seed is the default mainnet private version, depth 0, zero parent fingerprint, zero child number, chain code = right half and private key = left half of HMAC-SHA512 keyed with 'Bitcoin seed' over the seed. If the left half is zero or not below the curve order, an error and no key is returned.",
 ["inputs"],"every seed up to the stated length and every digest value",
 "Tests check three vectors; the invalid-digest case has probability 2^-127 and is never reached by running the code.",
 [B32,U32],[("NewMasterKey",B32),("ValidatePrivateKey",U32)],["bip32.NewMasterKey"])
p("P11","Private child derivation follows BIP-32",
 "From a valid private extended key with a registered version, the child at index i has private key (left half + parent key) mod n and chain code = right half of HMAC-SHA512 keyed with the parent chain code, over (0x00 || private key || i) when i >= 2^31 and (compressed public key || i) otherwise, with i big-endian. When the left half is not below n or the child key would be zero, an error is returned instead.",
 ["inputs"],"every parent key, chain code and index",
 "Tests follow about fifteen fixed derivations; carries, leading zeros in the sum and reductions mod n depend on values no vector has.",
 [B32,U32],[("NewChildKey",B32),("getIntermediary",B32),("addPrivateKeys",U32)],["(*bip32.Key).NewChildKey"])
p("P12","Public child derivation follows BIP-32",
 "From a valid public extended key with a registered version, the child at index i < 2^31 has public key point(left half) + parent point and chain code = right half of HMAC-SHA512 keyed with the parent chain code over (compressed public key || i). Hardened indexes (i >= 2^31) are always refused with an error.",
 ["inputs"],"every parent public key, chain code and index",
 "Tests follow twenty children of one public key; encodings with leading zeros or either parity are hit by luck only.",
 [B32,U32],[("NewChildKey",B32),("addPublicKeys",U32),("ExpandPublicKey",U32),("compressPublicKey",U32)],["(*bip32.Key).NewChildKey"])
p("P13","Public derivation agrees with private derivation",
 "For every valid private extended key and every non-hardened index, deriving the private child and then taking its public extended key gives the same 78 bytes as taking the public extended key first and deriving the public child from it.",
 ["inputs"],"every private key, chain code, metadata and non-hardened index",
 "No test compares the two routes on the same key; only fixed vectors of either.",
 [B32,U32],[("NewChildKey",B32),("PublicKeyExtended",B32)],["(*bip32.Key).NewChildKey","(*bip32.Key).PublicKeyExtended"])
p("P14","Child metadata is right and depth never wraps",
 "A derived child carries its parent's version, depth = parent depth + 1, the derivation index big-endian as child number, and as parent fingerprint the first four bytes of RIPEMD160(SHA256(compressed parent public key)); private stays private and public stays public. Deriving below depth 255, or from a version that is not registered for that kind of key, returns an error.",
 ["inputs"],"every parent key (any version, depth, fingerprint) and index",
 "Test chains are at most five deep with one version, so depth overflow, other versions and big indexes are never seen.",
 [B32,RV],[("NewChildKey",B32),("version maps",RV)],["(*bip32.Key).NewChildKey"])
p("P15","Extended-key serialization is lossless and tamper-evident",
 "Serializing a valid extended key gives its 78 bytes followed by the first four bytes of double SHA-256 of them, and deserializing that (raw or Base58) gives back the same key; an all-zero key does not serialize. Byte strings whose length is not 82 or whose last four bytes are not that checksum are refused with an error, and no input makes parsing panic.",
 ["inputs"],"every key and every byte string up to the stated length",
 "Tests feed three corrupted strings and known keys; acceptance of some wrong checksum byte or length is invisible to them.",
 [B32,U32],[("Serialize",B32),("Deserialize",B32),("B58Serialize",B32),("B58Deserialize",B32),("ChecksumDblSha256",U32)],["bip32.Deserialize","bip32.B58Deserialize","(*bip32.Key).Serialize","(*bip32.Key).IsValid"])
p("P16","Malformed extended keys are not accepted",
 "Even with a correct checksum, an extended key is refused on import, and reported invalid, when its key field is neither a private key in [1, n-1] nor a compressed point on the curve, when a registered private (public) version is paired with a public (private) key, or when depth 0 comes with a nonzero parent fingerprint or child number. Text with anything before or after the Base58 form of a key, white space included, is refused. Well-formed keys are accepted.",
 ["inputs"],"every 78-byte payload with a correct checksum",
 "No test imports a well-checksummed but malformed key.",
 [B32,U32],[("Deserialize",B32),("IsValid",B32)],["bip32.Deserialize","bip32.B58Deserialize","(*bip32.Key).IsValid"])
p("P17","Public extended keys are exact and leak no secret",
 "The public form of a private extended key keeps depth, parent fingerprint, child number and chain code, holds the compressed public point of the private key, and has the public version paired with its private version (default mainnet if unregistered); of a public key with a registered version it is the key itself. A public key yields no private key hex, and the public-key hex of a key equals that of its public form.",
 ["inputs"],"every extended key",
 "Tests see it on fixed vectors with one version only.",
 [B32,U32],[("PublicKeyExtended",B32),("PublicKeyHex",B32),("PrivateKeyHex",B32)],["(*bip32.Key).PublicKeyExtended","(*bip32.Key).PublicKeyHex","(*bip32.Key).PrivateKeyHex","(*bip32.Key).IsPrivate"])
p("P18","The version-byte registry is unambiguous",
 "Every registered private version maps to exactly one public version and vice versa, no value is both, and every lookup table (by private version, public version, purpose, coin type, path) lists exactly the registered entries having that key. Lookups therefore give the same versions on every run, whatever the map iteration order.",
 ["inputs","configurations"],"every 32-bit version, purpose and coin value; every initialisation order",
 "Tests check the purpose tables only, and a run shows one map iteration order.",
 [RV],[("PathToHDBytesSlice",RV),("init",RV),("PurposeVal/CoinVal",RV)],["bip32.PvtFlagToHDBytesSlice","bip32.PubFlagToHDBytesSlice","bip32.PurposeToHDBytesSlice","bip32.CoinTypeToHDBytesSlice","bip32.VersionBytes"])
p("P19","Compressed public keys expand to the right point",
 "Expanding the 33-byte compressed encoding of any curve point gives exactly that point: the encoded x and the root of x^3+7 modulo p whose parity the prefix byte names.",
 ["inputs"],"every point of the curve",
 "Only points that occur in a few vectors are ever expanded; coordinates with leading zero bytes are rare.",
 [U32],[("ExpandPublicKey",U32),("compressPublicKey",U32)],["bip32.ExpandPublicKey","(*bip32.Key).PublicKeyExtended"])
p("P20","Private keys are valid exactly in [1, n-1]",
 "A 32-byte private key passes validation exactly when, read as a big-endian integer, it is at least 1 and less than the secp256k1 group order; otherwise the invalid-private-key error is returned.",
 ["inputs"],"all 2^256 private keys",
 "No test validates a boundary value.",
 [U32],[("ValidatePrivateKey",U32)],["bip32.ValidatePrivateKey"])
p("P21","Operations have no hidden effects",
 "Deriving, encoding, decoding, serializing, addressing and validating change neither the byte slices, keys or generators passed to them (including memory beyond a slice's length) nor any package-wide state, and results do not alias caller memory; so the same call gives the same result after any history of other calls.",
 ["histories","inputs"],"every sequence of two operations on every input within the bounds",
 "Tests call each operation on fresh data and never look at what it did to its inputs or to shared state.",
 [B32,U32,B39,UT],[("Deserialize",B32),("AddChecksumDblSha256ToBytes",U32),("addPrivateKeys",U32),("NewMnemonic",B39)],["all exported functions of bip32, bip39 and util"])
p("P22","Derivation paths parse exactly",
 "Ignoring whitespace, a path is accepted exactly when it is 'm' or 'M' followed by hardened components (decimal digits and an apostrophe, value below 2^31) and then plain components (decimal digits, value below 2^32), each preceded by '/'. Its parsed values are 0 followed by each component's value, plus 2^31 for apostrophe components; out-of-range numbers are refused, never truncated, and no input panics.",
 ["inputs"],"every string up to the stated length",
 "Path parsing has no tests.",
 [PA],[("PathRegex",PA),("ValuesAtDepth",PA),("IsValid",PA),("ValueAtDepth",PA)],["bip32.Path.ValuesAtDepth","bip32.Path.IsValid","bip32.Path.ValueAtDepth"])
p("P23","Path components can be read and replaced lawfully",
 "Reading depth d of a valid path gives its d-th parsed value, or an error if there is no such depth. Replacing depth d by a value either returns an error or a valid path whose value at d is the new value (written with an apostrophe from 2^31 on) and whose other values are unchanged.",
 ["inputs"],"every valid path within the bounds, every depth byte, every 32-bit value",
 "Path component access has no tests.",
 [PA],[("ValueAtDepth",PA),("ReplaceValueAtDepth",PA)],["bip32.Path.ValueAtDepth","bip32.Path.ReplaceValueAtDepth"])
p("P24","Purpose and coin type of a version entry are read exactly",
 "For a version entry whose path (ignoring whitespace) is m/purpose'/coin' with 1 to 8 decimal digits each, the purpose and coin queries return those numbers and the full variants return them plus 2^31; for any other path they return an error and zero. An entry counts as registered exactly when its path is one of the registered two-level paths.",
 ["inputs"],"every path string up to the stated length",
 "Tests query registered entries only.",
 [RV],[("PurposeVal",RV),("CoinVal",RV),("PurposeValFull",RV),("CoinValFull",RV),("IsRegistered",RV)],["bip32.VersionBytes methods"])
p("P25","A derived path lists every key from the root down",
 "From a valid private depth-0 root key and a valid path, derivation returns one entry per level: the first is the root labelled 'm', and entry k is labelled with the first k components (apostrophes on hardened ones) and holds the key derived from entry k-1 at component k. Any other root, an invalid path, or a failing derivation step yields an error, never a placeholder key.",
 ["inputs"],"every root key and every path within the bounds",
 "The helper package has no tests.",
 [UT,PA],[("Generator.DeriveBIP32Result",UT)],["util.Generator.DeriveBIP32Result"])
p("P26","Range derivation labels match keys and errors surface",
 "Range derivation over [start, end) returns end-start entries, and the key of each entry is what the base key yields when derived along the components that entry's label adds to the base path, the last of them being start plus the entry's position. An empty or reversed range, an invalid base key or path, or a failing derivation step yields an error, never placeholder keys.",
 ["inputs"],"every base key, start and end within the bounds",
 "The helper package has no tests.",
 [KP],[("KeyPathRange.GenerateRange",KP)],["util.KeyPathRange.GenerateRange"])
p("P27","Ethereum-style addresses are exact",
 "The hex address of a key is the last 20 bytes of Keccak-256 over the 32-byte x and 32-byte y coordinates of its public point, as 40 lowercase hex digits, for every key including those whose coordinates begin with zero bytes; private and public forms of a key give the same address.",
 ["inputs"],"every valid key",
 "The helper package has no tests; coordinates with leading zero bytes occur for about one key in 128.",
 [KP,U32],[("KeyPath.AddrHex",KP),("ExpandPublicKey",U32)],["util.KeyPath.AddrHex"])
p("P28","Base58Check addresses are exact",
 "The Base58 address of a key under a version byte is the Base58 encoding of that byte, RIPEMD160(SHA256(compressed public key)) and the first four bytes of double SHA-256 of those 21 bytes, for every key and version byte; private and public forms of a key give the same address.",
 ["inputs"],"every valid key and version byte",
 "The helper package has no tests.",
 [KP,U32],[("KeyPath.AddrP2SH",KP),("HashRipeMD160onSha256",U32),("ChecksumDblSha256",U32)],["util.KeyPath.AddrP2SH","bip32.HashRipeMD160onSha256"])
p("P29","Root keys come only from well-formed seeds",
 "Building a root key from text succeeds exactly when the text is an even number of hex digits (either case) encoding at least 16 bytes and the seed yields a valid master key; the result is that master key. Everything else yields an error and never a panic or a usable key.",
 ["inputs","fault_sequences"],"every string up to the stated length, every digest value",
 "The helper package has no tests, and an invalid master digest cannot be produced by running the code.",
 [UT,B32],[("RootKeyFromSeed",UT),("NewMasterKey",B32)],["util.RootKeyFromSeed"])
p("P30","Coin validity and labels follow the definition",
 "A coin is valid exactly when its type is below 2^31, its path component is its type plus 2^31, and its name or symbol has a non-blank character. Its display label is 'SYMBOL - NAME (Type N)', or 'NAME (Type N)' without a symbol.",
 ["inputs"],"every type and path component, names and symbols up to the stated length",
 "The test asserts validity of the registered coins only and never sees an invalid one.",
 [CO],[("Coin.IsValid",CO),("Coin.String",CO)],["bip44.Coin.IsValid","bip44.Coin.String"])
p("P31","The coin registry indexes agree",
 "Every registered coin is valid, and for every 32-bit value the by-type and by-path-component indexes hold a coin exactly when a registered coin has that type (path component), and then that very coin, each type being registered once. The by-name index holds, for every registered name and no other, a registered coin of that name; the registry is ordered by name.",
 ["inputs","configurations"],"every 32-bit type and path component, every name",
 "The test iterates the list but never consults the three indexes.",
 [CS],[("RegCoins",CS),("init",CS)],["bip44.RegCoins","bip44.RegBip44Coins*Map"])
p("P32","The example UI always shows keys of what was entered",
 "After any sequence of edits to the mnemonic, passphrase, seed, root key and path fields, the shown keys are those derived from the last edited input, or none if it is invalid.",
 ["histories"],"every sequence of user edits",
 "The example has no tests.",
 ["examples/ui/one/main.go"],[("onMnemonicChange and siblings","examples/ui/one/main.go")],["examples/ui/one window"])
p("P33","Registered prefixes are what serialized keys start with",
 "The version registry holds exactly the rows of SLIP-0132: coin, private and public version, their four-character prefixes and (where the table gives one) the path. For every entry, the Base58 text of every extended key under its private (public) version starts with the private (public) prefix of the entry.",
 ["inputs","configurations"],"every row, every 32-bit version, every content of the other 74 key bytes and of the checksum",
 "No test serializes a key of most versions, and none compares a text with the prefix registered.",
 [RV,B32],[("VersionBytes",RV),("PathToHDBytesSlice",RV),("B58Serialize",B32)],["bip32.HDVersionBytesSlice","(*bip32.Key).B58Serialize"])
p("P34","The coin registry is that of SLIP-0044",
 "A coin is registered, in the list and in the indexes by type and by path component, exactly when the embedded SLIP-0044 document has a row with that path component that has a symbol or a name and is not reserved; it then has the symbol, name and path component of that row, and as type the path component less 2^31.",
 ["inputs","configurations"],"every 32-bit type and path component",
 "The test asserts that the registered coins are valid and never compares them with the document.",
 [CS,"bip44/script.go"],[("RegCoins",CS),("init",CS),("Slip044FS","bip44/script.go")],["bip44.RegCoins","bip44.RegBip44CoinsTypeToValMap","bip44.RegBip44CoinsPathCompToValMap"])
p("P35","Concurrent calls do not disturb one another",
 "Any number of goroutines may call the operations of bip39, bip32, bip44 and util at the same time, each on keys, slices and objects of its own, as long as none sets the word list or changes an exported table: no operation writes memory that it shares with the others, or reads memory that another may be writing, without a lock, so that each call gives what it gives alone.",
 ["inputs","interleavings"],"every input of the operations within the stated sizes, and every interleaving of calls of the same operation",
 "The tests run one goroutine; a scratch buffer or cache at package level passes all of them.",
 [B39,B32,PA,UT,KP,U32,CO,RV],[("getIntermediary",B32),("publicKeyForPrivateKey",U32),("NewMnemonic",B39),("wordMap",B39),("Path.String",PA)],["all exported functions but bip39.SetWordList"])
p("P36","Key fields are read at their places, and the version can be replaced",
 "Whatever its 78 bytes, an extended key's version, depth, parent fingerprint, child number, chain code, key bytes and private key bytes are the bytes at their BIP-32 places, given as copies; a key is private exactly when its first key byte is zero. Replacing the version (as a number, stored big-endian, or as bytes) changes those four bytes and nothing else, and every later operation goes by the new version: under two registered versions of one kind, children, public forms and hex forms are the same but for the version, under a version of the other kind alone the key is not valid, and setting the old version back gives the old key.",
 ["inputs","histories"],"every 78 bytes, every version, every pair of registered versions, every index",
 "Tests set one version on a few vectors; what is remembered from before the change, or a field read one byte off, shows for other keys only.",
 [B32,RV],[("SetVersion",B32),("SetVersionUint32",B32),("GetVersion",B32),("GetChainCode",B32),("GetFingerPrint",B32),("GetDepth",B32),("GetChildNumber",B32),("GetKeyBytes",B32),("GetPvtKeyBytes",B32),("validate",B32)],["(*bip32.Key).Get*","(*bip32.Key).SetVersion","(*bip32.Key).SetVersionUint32","(*bip32.Key).IsValid","(*bip32.Key).NewChildKey"])
p("P37","Digest helpers are exact for data of any length",
 "For data of any length, none included, the exported helpers give RIPEMD-160 of SHA-256 (20 bytes), the first four bytes of double SHA-256, and the data followed by these four bytes. The caller's memory, also what lies beyond the data in the same slice, is not written, and the results have memory of their own.",
 ["inputs"],"all data of the stated lengths, with or without spare capacity",
 "Tests reach the helpers with 33 and 78 bytes only.",
 [U32],[("HashRipeMD160onSha256",U32),("ChecksumDblSha256",U32),("AddChecksumDblSha256ToBytes",U32)],["bip32.HashRipeMD160onSha256","bip32.ChecksumDblSha256","bip32.AddChecksumDblSha256ToBytes"])
p("P38","From entropy to addresses, the parts fit together",
 "The sentence made of any entropy, or generated, is one that gives a seed, and the seed, as text, is one from which the root key comes that BIP-32 names for the seed's bytes (an error only where there is none). The root key under the version of any registered entry can be derived along the path of the entry, and every key got that way is valid, carries the entry's versions in both forms and comes back from its text. A range that goes on from a derived key gives, for each label that is a path, the key the generator gives for that label, and a watching wallet with the public key of an account gets the public forms, labels and addresses of the keys its owner gets.",
 ["inputs","configurations"],"every entropy, passphrase and root key, every registered entry, and ranges of the stated bounds",
 "Each part is tested on its own vectors; that what one gives is what the next takes, for all values, is not tested at all.",
 [B39,B32,UT,KP,RV,PA],[("GenerateMnemonic",UT),("DeriveSeedFromMnemonic",UT),("RootKeyFromSeed",UT),("DeriveBIP32Result",UT),("GenerateRange",KP),("version maps",RV)],["util.GenerateMnemonic","util.DeriveSeedFromMnemonic","util.RootKeyFromSeed","(*util.Generator).DeriveBIP32Result","(*util.KeyPathRange).GenerateRange","(util.KeyPath).AddrHex"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
