// Package vlog records what the programs under test hand to and get from the
// library: every encrypted message and every decrypted result.
package vlog

import (
	"bufio"
	"encoding/binary"
	"math"
	"os"
)

var f *os.File

func init() {
	if p := os.Getenv("VLOG"); p != "" {
		f, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
	}
}

// Rec writes kind, a text and the listed slots.
func Rec(kind byte, text string, idx []int, v []complex128) {
	if f == nil {
		return
	}
	w := bufio.NewWriter(f)
	w.WriteByte(kind)
	binary.Write(w, binary.LittleEndian, uint32(len(text)))
	w.WriteString(text)
	binary.Write(w, binary.LittleEndian, uint32(len(idx)))
	buf := make([]byte, 20*len(idx))
	for n, i := range idx {
		b := buf[20*n:]
		binary.LittleEndian.PutUint32(b, uint32(i))
		binary.LittleEndian.PutUint64(b[4:], math.Float64bits(real(v[i])))
		binary.LittleEndian.PutUint64(b[12:], math.Float64bits(imag(v[i])))
	}
	w.Write(buf)
	w.Flush()
}

// NonZero lists the non-zero slots.
func NonZero(v []complex128) []int {
	var r []int
	for i, x := range v {
		if x != 0 {
			r = append(r, i)
		}
	}
	return r
}

// Ends lists the first and last 64 slots.
func Ends(n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		if i < 64 || i >= n-64 {
			r = append(r, i)
		}
	}
	return r
}
