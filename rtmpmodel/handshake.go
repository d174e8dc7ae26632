package rtmpmodel

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
)

var tail = []byte{0xf0, 0xee, 0xc2, 0x4a, 0x80, 0x68, 0xbe, 0xe8, 0x2e, 0x00, 0xd0, 0xd1, 0x02, 0x9e, 0x7e, 0x57, 0x6e, 0xec, 0x5d, 0x2d, 0x29, 0x80, 0x6f, 0xab, 0x93, 0xb8, 0xe6, 0x36, 0xcf, 0xeb, 0x31, 0xae}

const playerText = "Genuine Adobe Flash Player 001"
const serverText = "Genuine Adobe Flash Media Server 001"

func key(s string, full bool) []byte {
	if full {
		return append([]byte(s), tail...)
	}
	return []byte(s)
}

func mac(k []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// DigestPos is where the digest lies in a block: scheme 0 keeps its offset
// bytes at 8, scheme 1 at 772.
func DigestPos(blk []byte, scheme int) int {
	base := 8
	if scheme == 1 {
		base = 772
	}
	s := 0
	for _, x := range blk[base : base+4] {
		s += int(x)
	}
	return base + 4 + s%728
}

// Block is a C1 or S1 block with a valid digest at the given offset.
func Block(client bool, scheme, offset int, seed byte, version uint32) []byte {
	b := make([]byte, 1536)
	x := uint32(seed) + 1
	for i := 8; i < len(b); i++ {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	copy(b[4:], U32(version))
	base := 8
	if scheme == 1 {
		base = 772
	}
	o := offset
	for i := 0; i < 4; i++ {
		v := o
		if v > 255 {
			v = 255
		}
		b[base+i] = byte(v)
		o -= v
	}
	Sign(b, client, scheme)
	return b
}

// Sign puts a valid digest into a block.
func Sign(b []byte, client bool, scheme int) {
	k := key(serverText, false)
	if client {
		k = key(playerText, false)
	}
	p := DigestPos(b, scheme)
	copy(b[p:], mac(k, b[:p], b[p+32:]))
}

// Verify finds the digest of a C1 or S1 block.
func Verify(b []byte, client bool) (scheme int, digest []byte, ok bool) {
	k := key(serverText, false)
	if client {
		k = key(playerText, false)
	}
	for scheme := 0; scheme < 2; scheme++ {
		p := DigestPos(b, scheme)
		if bytes.Equal(b[p:p+32], mac(k, b[:p], b[p+32:])) {
			return scheme, b[p : p+32], true
		}
	}
	return 0, nil, false
}

// Response is a C2 (by the client) or S2 (by the server) answering peerDigest.
func Response(client bool, peerDigest []byte, seed byte) []byte {
	b := make([]byte, 1536)
	for i := range b {
		b[i] = byte(i) ^ seed
	}
	copy(b[1504:], mac(responseKey(client, peerDigest), b[:1504]))
	return b
}

func responseKey(client bool, peerDigest []byte) []byte {
	if client {
		return mac(key(playerText, true), peerDigest)
	}
	return mac(key(serverText, true), peerDigest)
}

// ResponseOK verifies a C2 or S2 block.
func ResponseOK(b []byte, client bool, peerDigest []byte) bool {
	return bytes.Equal(b[1504:], mac(responseKey(client, peerDigest), b[:1504]))
}
