// Package stubhmac stands in for crypto/hmac when a counterexample that relies on a hash value of negligible
// probability is replayed: for the listed keys and messages it answers what the case says, otherwise the real value.
package stubhmac

import (
	"bytes"
	"crypto/hmac"
	"encoding/hex"
	"encoding/json"
	"hash"
	"os"
)

type ent struct {
	Kind string   `json:"kind"`
	Args []string `json:"args"`
	Out  string   `json:"out"`
}

var table = map[string][]byte{}

func init() {
	var c struct {
		Stub []ent `json:"stub"`
	}
	b, err := os.ReadFile(os.Getenv("VERIF_INPUT"))
	if err != nil || json.Unmarshal(b, &c) != nil {
		return
	}
	for _, e := range c.Stub {
		if e.Kind == "hmac_sha512" && len(e.Args) == 2 {
			out, _ := hex.DecodeString(e.Out)
			table[e.Args[0]+":"+e.Args[1]] = out
		}
	}
}

type mac struct {
	hash.Hash
	key []byte
	buf bytes.Buffer
}

func (m *mac) Write(b []byte) (int, error) {
	m.buf.Write(b)
	return m.Hash.Write(b)
}

func (m *mac) Reset() {
	m.buf.Reset()
	m.Hash.Reset()
}

func (m *mac) Sum(b []byte) []byte {
	if out, ok := table[hex.EncodeToString(m.key)+":"+hex.EncodeToString(m.buf.Bytes())]; ok && len(out) == m.Size() {
		return append(b, out...)
	}
	return m.Hash.Sum(b)
}

// New is hmac.New.
func New(h func() hash.Hash, key []byte) hash.Hash {
	return &mac{Hash: hmac.New(h, key), key: append([]byte{}, key...)}
}

// Equal is hmac.Equal.
func Equal(a, b []byte) bool { return hmac.Equal(a, b) }
