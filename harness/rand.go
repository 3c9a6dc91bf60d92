package main

import (
	"crypto/rand"
	"errors"
	"io"
)

var errSource = errors.New("random source failed")

// source is a random source that delivers data in chunks and then fails.
type source struct {
	data  []byte
	pos   int
	chunk int
	reads int
}

func (s *source) Read(b []byte) (int, error) {
	s.reads++
	if s.pos >= len(s.data) {
		return 0, errSource
	}
	n := copy(b, s.data[s.pos:])
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	s.pos += n
	return n, nil
}

func setRand(r io.Reader) { rand.Reader = r }
