HASH = 'SHA-256 is an uninterpreted function that agrees with the real one on constants; counterexamples are refined with its true values.'
c('P01', 'all entropies of all five sizes (fully symbolic bits); lists: the ten bundled ones and three caller-made ones (a permutation, fixed-length words, words that are prefixes of one another). The same once more after an earlier call on other data.', HASH + ' Other caller lists are outside the bound.')
c('P02', 'all entropies of all five sizes; the ten bundled and three caller-made lists. The same once more after an earlier call on other data.', HASH)
c('P03', 'sentences of 0 to 39 and of selected counts up to 2060 (thorough 65548) list words, every word symbolic over all 2048 (valid counts: all checksum outcomes); one word replaced by 1-9 arbitrary ASCII bytes; arbitrary texts of up to 4 (thorough 7) bytes; 12 kinds of white space at the start, inside and at the end; a sentence judged after another one. Quick uses 12 and 21 words for the last two, thorough all counts and positions.', HASH)
c('P04', 'every 64-bit value as requested size; entropy slices of 0-69 (thorough 0-599) bytes, and of selected lengths up to 2^20+16, those congruent to valid ones modulo 2^8 and 2^16 included.', 'The random source is a stand-in that delivers zeros.')
c('P05', 'every content of the random stream; delivered whole, byte by byte or in sevens; failing after 0..needed-1 bytes (for the 256-byte seed after 0, 1, 16, 64, 128 or 255).', 'crypto/rand.Reader is replaced by a symbolic source; that the operating system source is secure is assumed.')
c('P06', 'all entropies of all five sizes under the English and the other bundled lists; 12 kinds of separators in 4 arrangements. The same once more after an earlier call on other data.', HASH)
c('P07', 'sentences and passphrases of up to 23 (thorough 79) arbitrary bytes each and selected lengths up to 1025; checked derivations for 12-24 symbolic words, all checksum outcomes, passphrases of 0-3 bytes and 12 kinds of white space; sentences of letters of either case and digits; a second derivation after another one.', 'PBKDF2-HMAC-SHA512 is one uninterpreted function of its five arguments.')
c('P08', 'the ten bundled (compared with the published files by CRC-32) and three caller-made lists, switching between four (thorough all) pairs per list; looked up: all words of both lists and arbitrary strings of up to 11 bytes (English) or 15 bytes (others).', HASH)
c('P09', 'every byte value as word count, every content of the random stream, the ten bundled and two caller-made lists. The same once more after an earlier call on other data.', HASH)
N.append({'property': 'P32', 'reason': 'The example UI (examples/ui/one) is driven by the gioui event loop and its GPU/window back ends; the code cannot be separated from that runtime without rewriting it, and neither the event loop nor its C and OpenGL parts can be encoded within reach.'})
CURVE = 'The curve is uninterpreted scalar-multiplication functions with the group law on scalars, tied to the real values on constants; HMAC-SHA512 and the hashes are uninterpreted functions that agree with the real ones on constants.'
c('P10', 'seeds of 0-65 (thorough 0-299) bytes and of 80, 127-129, 200, 255-257, 320, 512 and 1000 bytes, contents and every HMAC digest value symbolic. The same once more after an earlier call on other data.', CURVE)
c('P11', 'every private scalar, chain code, depth, fingerprint, child number, index and HMAC digest; the registered and unregistered versions; hardened and plain. The same once more after an earlier call on other data.', CURVE)
c('P12', 'every pair of parent scalar and left half, every chain code and index; public point at infinity included. The same once more after an earlier call on other data.', CURVE)
c('P13', 'every key and every index.', CURVE)
c('P14', 'every key, every depth byte and index. The same once more after an earlier call on other data.', CURVE)
c('P15', 'every 78-byte key; every 82-byte serialization; every one of the 82 bytes corrupted by every value. The same once more after an earlier call on other data.', CURVE)
c('P16', 'all byte slices of 0-90 bytes; text of up to 16 arbitrary characters and every 82-byte decoded value; the text of any key with one of 16 decorations in front of or behind it. The same once more after an earlier call on other data.', CURVE)
c('P17', 'every key under every registered and an arbitrary unregistered version. The same once more after an earlier call on other data.', CURVE)
c('P18', 'every 32-bit flag, purpose and coin value and every name looked up against the registry the real init builds, under four map iteration orders; every entry of the registry.', 'Map iteration is explored in four orders, not all.')
c('P19', 'every 33-byte compressed key on the curve and every point of the form k*G including those with leading zero coordinates; a second key after the first, or after its negative.', CURVE)
c('P20', 'every 32-byte value. The same once more after an earlier call on other data.', '')
c('P21', 'every key, word sequence and index; contents of the memory after the arguments symbolic; one earlier call of the same (thorough: of any) operation on other material.', CURVE)
c('P22', 'every ASCII string of up to 6 (thorough 8) characters; numbers of up to 24 arbitrary digits, alone and among others; every sequence of up to 7 components; white space anywhere. The same once more after an earlier call on other data.', 'Characters beyond ASCII and the vertical tab are outside the bound.')
c('P23', 'every path and every depth: paths of up to 7 components of up to 10 symbolic digits, and of 127 to 512 components; read at every depth, replaced by every 32-bit number. The same once more after an earlier call on other data.', 'Beyond seven components the numbers are fixed.')
c('P24', 'every string of up to 7 (thorough 9) characters, and of up to 6 after m/; numbers of 0 to 10 symbolic digits; 0 to 5 levels with and without apostrophes; one character of a registered path replaced or inserted; every entry of the registry. The same once more after an earlier call on other data.', '')
c('P25', 'paths of up to 2 symbolic components and the usual five levels, numbers of 1 to 29 digits about the limits, white space anywhere, up to 257 levels; every registered path, as it is and one level further, from every registered version; any 78 bytes as root; any string of up to 5 characters; a failing step at each of the first 2 (thorough 3) levels; a generator used before, for the same or another root and path.', CURVE + ' Along several levels the private keys are assumed not to wrap around the order nor to begin with a zero byte (one level is taken without that).')
c('P26', 'any start for one entry; 1 to 3 entries from fixed starts and at the edges 2^31 and 2^32; 11 to 256 entries from one key; any bounds where the range is empty, reversed or impossible; all versions, depths at the limits, any string of up to 4 characters as base path, any 78 bytes as base key; a range object with up to 2 old entries, or used again with bounds, path, key or version changed.', CURVE + ' Along several entries the private keys are assumed not to wrap around the order nor to begin with a zero byte.')
c('P27', 'every private key, every public point, those with leading zero coordinates included; every version. The same once more after an earlier call on other data.', CURVE + ' Keccak-256 likewise.')
c('P28', 'every private key, every public point and version byte; texts of the exported hash functions of up to 99 bytes; a second key after another, the two related as negatives, or alike in all but the key, included.', CURVE)
c('P29', 'seeds of 13 lengths from 0 to 512 bytes, contents and every digest value symbolic; texts of up to 5 arbitrary characters; one arbitrary character in texts of 31 to 64 (thorough 128); odd lengths; a second seed after the first.', CURVE)
c('P30', 'names and symbols of up to 4 arbitrary ASCII characters each, of 10, 50 and 200 blanks with one arbitrary character; a list of texts beyond ASCII; labels of names and symbols of up to 257 characters; every 32-bit type and path component.', 'Which characters beyond ASCII are blank is checked on a list of 18 texts.')
c('P31', 'every 32-bit type and path component, every string of up to 5 (thorough 11) bytes and every registered name, against the registry the real init builds, under four map iteration orders.', 'Map iteration is explored in four orders, not all.')

c('P33', 'every row of SLIP-0132 and every 32-bit version, under four map iteration orders; under each registered version every content of the other 74 key bytes and of the checksum (any serialization that starts with the version).', 'Base58 texts of equal length are ordered as the numbers they encode, which decides the leading digits; SHA-256 is uninterpreted.')
c('P34', 'every 32-bit type and path component against every row of the embedded slip-0044.md, read anew in every run, under two map iteration orders.', 'Rows are compared one by one; membership is decided for a symbolic value. Map iteration is explored in two orders, not all.')
c('P35', 'every operation (all 27 exported functions and methods that compute) on symbolic keys, entropies, seeds, sentences, paths, versions and coins of the sizes of P21 to P24; one to two levels of derivation; calls begin in the state the initialisers leave.', CURVE + ' Interleavings are decided by access: an operation that writes no shared memory without a lock, and reads none that is written under a lock without one, cannot disturb others under any schedule. A candidate is replayed with four goroutines under the race detector. Access by way of the modelled libraries, and a cache that is filled before the watched call, are outside.')
c('P36', 'every 78 bytes and every 32-bit version for reading and replacing; any pair of registered versions, all metadata and indexes for what is derived, with all scalars and eight edge scalars.', CURVE)
c('P37', 'all data of 0 to 99 bytes, of lengths about the block sizes up to 513, and of 1000, 1024, 4095, 4096 and 4097 bytes; 0 to 39 bytes with 0 to 5 bytes of the caller beyond them; no slice at all.', HASH)
c('P38', 'all entropies of 16 and 32 bytes with passphrases of 0 to 2 bytes, of 20, 24 and 28 bytes with other lists (thorough all lists); generated sentences of all five counts; every registered entry with all chain codes and the root key 7 (thorough two levels further down); ranges of two (thorough up to three) from the third level, at three starts; a watched account of all metadata and chain codes.', CURVE + ' Derivations after the first assume of the digests what P25 assumes.')
