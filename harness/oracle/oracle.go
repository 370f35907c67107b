// Package oracle holds the definitions the checks compare against, written
// independently of the code under test.
package oracle

import (
	"crypto/md5"
	"encoding/binary"
)

// Weak is the weak checksum by definition: a is the sum of the bytes, b the sum
// of the running values of a, both modulo 2^16; little endian a | b<<16.
func Weak(w []byte) []byte {
	var a, b uint16
	for i, x := range w {
		a += uint16(x)
		b += uint16(uint64(len(w)-i) * uint64(x) % 65536)
	}
	return binary.LittleEndian.AppendUint32(nil, uint32(a)|uint32(b)<<16)
}

// MD5 is the strong checksum used by default.
func MD5(b []byte) []byte {
	s := md5.Sum(b)
	return s[:]
}

// Blocks cuts data into blocks, the last one possibly short.
func Blocks(data []byte, bs int) [][]byte {
	var out [][]byte
	for len(data) > 0 {
		n := min(bs, len(data))
		out = append(out, data[:n])
		data = data[n:]
	}
	return out
}
