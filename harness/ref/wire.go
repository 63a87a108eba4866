package ref

import "encoding/binary"

// PutVarInt appends a CompactSize integer.
func PutVarInt(b []byte, v uint64) []byte {
	if v < 253 {
		return append(b, byte(v))
	}
	if v < 1<<16 {
		return binary.LittleEndian.AppendUint16(append(b, 253), uint16(v))
	}
	if v < 1<<32 {
		return binary.LittleEndian.AppendUint32(append(b, 254), uint32(v))
	}
	return binary.LittleEndian.AppendUint64(append(b, 255), v)
}

// PutVarBytes appends length-prefixed bytes.
func PutVarBytes(b, d []byte) []byte { return append(PutVarInt(b, uint64(len(d))), d...) }

// U32 appends a little-endian 32-bit integer.
func U32(b []byte, v uint32) []byte { return binary.LittleEndian.AppendUint32(b, v) }

// U64 appends a little-endian 64-bit integer.
func U64(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }

// GetVarInt reads a CompactSize integer (any encoding length).
func GetVarInt(b []byte) (v uint64, n int, ok bool) {
	if len(b) < 1 {
		return
	}
	k := 1
	switch b[0] {
	case 253:
		k = 3
	case 254:
		k = 5
	case 255:
		k = 9
	default:
		return uint64(b[0]), 1, true
	}
	if len(b) < k {
		return
	}
	for i := k - 1; i >= 1; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v, k, true
}
