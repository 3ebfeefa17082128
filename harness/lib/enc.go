package lib

import (
	"encoding/base64"
	"encoding/binary"
	"math"
)

func encode(b []byte) []byte {
	o := make([]byte, base64.StdEncoding.EncodedLen(len(b)))
	base64.StdEncoding.Encode(o, b)
	return o
}

func decodeInto(s string, m map[uint64]struct{}) {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
}

func f64bits(f float64) uint64 { return math.Float64bits(f) }
