package main

// The standard security handler, revisions 2 (40 bit RC4), after the PDF reference, algorithms 3.1 to 3.7.

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
)

var padStr = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

type encState struct{ key []byte }

func padPass(p []byte) []byte {
	return append(append([]byte{}, p...), padStr...)[:32]
}
func rc(key, b []byte) []byte {
	c, _ := rc4.NewCipher(key)
	out := make([]byte, len(b))
	c.XORKeyStream(out, b)
	return out
}
func (e *encState) decrypt(id int, b []byte) []byte {
	h := md5.Sum(append(append([]byte{}, e.key...), byte(id), byte(id>>8), byte(id>>16), 0, 0))
	return rc(h[:10], b)
}

type encInfo struct {
	Filter  string
	V, R, P int
	O, U    []byte
	ID      []byte
}

func fileKey(pass []byte, e *encInfo) []byte {
	b := append([]byte{}, padPass(pass)...)
	b = append(b, e.O...)
	b = append(b, byte(e.P), byte(e.P>>8), byte(e.P>>16), byte(e.P>>24))
	b = append(b, e.ID...)
	h := md5.Sum(b)
	return h[:5]
}

// userKey returns the file key if pass is accepted as user password.
func userKey(pass []byte, e *encInfo) []byte {
	k := fileKey(pass, e)
	if bytes.Equal(rc(k, padStr), e.U) {
		return k
	}
	return nil
}

// ownerKey returns the file key if pass is accepted as owner password.
func ownerKey(pass []byte, e *encInfo) []byte {
	h := md5.Sum(padPass(pass))
	return userKey(rc(h[:5], e.O), e)
}
