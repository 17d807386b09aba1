package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"hash/crc32"
	"strconv"
)

// imageBytes makes a small image whose header says w x h; the uid makes its
// bytes unique, so that every picture seen later can be attributed.
// kinds: 0 png, 1 gif, 2 jpeg, 3 webp
func imageBytes(kind, w, h int, uid uint64, extra int) []byte {
	var b bytes.Buffer
	be32 := func(v uint32) { _ = binary.Write(&b, binary.BigEndian, v) }
	switch kind & 3 {
	case 0:
		b.WriteString("\x89PNG\r\n\x1a\n")
		be32(13)
		at := b.Len()
		b.WriteString("IHDR")
		be32(uint32(w))
		be32(uint32(h))
		b.Write([]byte{8, 2, 0, 0, 0})
		be32(crc32.ChecksumIEEE(b.Bytes()[at:]))
	case 1:
		b.WriteString("GIF89a")
		_ = binary.Write(&b, binary.LittleEndian, uint16(w))
		_ = binary.Write(&b, binary.LittleEndian, uint16(h))
		b.Write([]byte{0, 0, 0})
	case 2:
		b.Write([]byte{0xff, 0xd8, 0xff, 0xc0, 0, 17, 8})
		_ = binary.Write(&b, binary.BigEndian, uint16(h))
		_ = binary.Write(&b, binary.BigEndian, uint16(w))
		b.Write([]byte{3, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0})
	case 3:
		b.WriteString("RIFF")
		_ = binary.Write(&b, binary.LittleEndian, uint32(30+extra&0xffff))
		b.WriteString("WEBPVP8L")
		_ = binary.Write(&b, binary.LittleEndian, uint32(18+extra&0xffff))
		v := uint32(w-1)&0x3fff | (uint32(h-1)&0x3fff)<<14
		b.WriteByte(0x2f)
		_ = binary.Write(&b, binary.LittleEndian, v)
	}
	style, family := extra>>32&7, uint64(extra>>40)
	extra &= 1<<32 - 1
	if style > 0 {
		twinBody(&b, style, family, uid, extra)
		return b.Bytes()
	}
	_ = binary.Write(&b, binary.LittleEndian, uid)
	b.WriteString("uid")
	r := NewRng(uid, 77)
	for i := 0; i < extra; i++ {
		b.WriteByte(byte(r.U64()))
	}
	return b.Bytes()
}

var pictureKinds = []string{"image/png", "image/gif", "image/jpeg", "image/webp"}

// picName names a picture file: what it is called says nothing about its format.
func picName(i int) string {
	return "pics/" + strconv.Itoa(i) + []string{".bin", ".png", ".JPG", "", ".jpg.old", ".Gif"}[i]
}

// twinBody fills an image such that it is alike others of its family: same
// length, same beginning, and what makes it unique late (1), in the middle
// with the same checksum and sum of bytes before and after (2), or in one
// byte in the middle of much else (3).
func twinBody(b *bytes.Buffer, style int, family, uid uint64, extra int) {
	r := NewRng(family, 78)
	fill := func(n int) {
		for i := 0; i < n; i++ {
			b.WriteByte(byte(r.U64()))
		}
	}
	switch style {
	case 1:
		fill(80 + extra)
		_ = binary.Write(b, binary.LittleEndian, uid)
	case 2:
		fill(40 + extra/2)
		_ = binary.Write(b, binary.LittleEndian, uid)
		_ = binary.Write(b, binary.LittleEndian, ^uid)
		patch := crcPatch(crc32.ChecksumIEEE(b.Bytes()), uint32(family*2654435761+1))
		_ = binary.Write(b, binary.LittleEndian, patch)
		fill(40 + extra/2)
	default:
		fill(30 + extra/2)
		_ = binary.Write(b, binary.LittleEndian, uid)
		fill(700 + extra/2)
	}
}

// crcPatch gives the four bytes that take a CRC-32 from cur to want.
func crcPatch(cur, want uint32) uint32 {
	var rev [256]byte
	for i, v := range crc32.IEEETable {
		rev[v>>24] = byte(i)
	}
	x := ^want
	for i := 0; i < 4; i++ {
		k := rev[x>>24]
		x = (x^crc32.IEEETable[k])<<8 | uint32(k)
	}
	return x ^ ^cur
}

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}
