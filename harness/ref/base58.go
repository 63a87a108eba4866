// Package ref holds the reference models: plain, independent implementations of the Bitcoin rules.
package ref

import "crypto/sha256"

const b58alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58Encode by repeated long division of a digit vector.
func B58Encode(b []byte) string {
	zeros := 0
	for zeros < len(b) && b[zeros] == 0 {
		zeros++
	}
	var digits []byte // little endian base 58
	for _, x := range b {
		carry := int(x)
		for i := range digits {
			carry += int(digits[i]) << 8
			digits[i] = byte(carry % 58)
			carry /= 58
		}
		for carry > 0 {
			digits = append(digits, byte(carry%58))
			carry /= 58
		}
	}
	out := make([]byte, 0, zeros+len(digits))
	for i := 0; i < zeros; i++ {
		out = append(out, '1')
	}
	for i := len(digits) - 1; i >= 0; i-- {
		out = append(out, b58alpha[digits[i]])
	}
	return string(out)
}

// B58Decode returns false on a character outside the alphabet.
func B58Decode(s string) ([]byte, bool) {
	zeros := 0
	for zeros < len(s) && s[zeros] == '1' {
		zeros++
	}
	var bytes []byte // little endian base 256
	for i := 0; i < len(s); i++ {
		d := -1
		for k := 0; k < 58; k++ {
			if b58alpha[k] == s[i] {
				d = k
			}
		}
		if d < 0 {
			return nil, false
		}
		carry := d
		for j := range bytes {
			carry += int(bytes[j]) * 58
			bytes[j] = byte(carry)
			carry >>= 8
		}
		for carry > 0 {
			bytes = append(bytes, byte(carry))
			carry >>= 8
		}
	}
	out := make([]byte, zeros, zeros+len(bytes))
	for i := len(bytes) - 1; i >= 0; i-- {
		out = append(out, bytes[i])
	}
	return out, true
}

// Sha256d is double SHA-256.
func Sha256d(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

// B58CheckEncode is Base58Check.
func B58CheckEncode(payload []byte, version byte) string {
	raw := append([]byte{version}, payload...)
	raw = append(raw, Sha256d(raw)[:4]...)
	return B58Encode(raw)
}

// B58CheckDecode is Base58Check.
func B58CheckDecode(s string) ([]byte, byte, bool) {
	raw, ok := B58Decode(s)
	if !ok || len(raw) < 5 {
		return nil, 0, false
	}
	n := len(raw) - 4
	if string(Sha256d(raw[:n])[:4]) != string(raw[n:]) {
		return nil, 0, false
	}
	return raw[1:n], raw[0], true
}
