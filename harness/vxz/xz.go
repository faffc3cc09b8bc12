//go:build go1.25

// Package vxz writes xz and zstd containers without compressing.
package vxz

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
)

// XZ wraps data in a valid .xz container of uncompressed LZMA2 chunks.
func XZ(data []byte) []byte {
	var out bytes.Buffer
	out.Write([]byte{0xFD, '7', 'z', 'X', 'Z', 0})
	flags := []byte{0, 1} // CRC32
	out.Write(flags)
	var w [4]byte
	put := func(v uint32) { binary.LittleEndian.PutUint32(w[:], v); out.Write(w[:]) }
	put(crc32.ChecksumIEEE(flags))
	vli := func(v uint64) []byte {
		var b []byte
		for v >= 0x80 {
			b = append(b, byte(v)|0x80)
			v >>= 7
		}
		return append(b, byte(v))
	}
	var index bytes.Buffer
	index.WriteByte(0)
	if len(data) > 0 {
		start := out.Len()
		hdr := []byte{2, 0, 0x21, 1, 0x16, 0, 0, 0} // size 12, LZMA2 filter, dict 8MiB
		out.Write(hdr)
		put(crc32.ChecksumIEEE(hdr))
		first := true
		for rest := data; len(rest) > 0; {
			n := len(rest)
			if n > 65536 {
				n = 65536
			}
			ctl := byte(2)
			if first {
				ctl = 1
				first = false
			}
			out.Write([]byte{ctl, byte((n - 1) >> 8), byte(n - 1)})
			out.Write(rest[:n])
			rest = rest[n:]
		}
		out.WriteByte(0)
		unpadded := out.Len() - start + 4
		for (out.Len()-start)%4 != 0 {
			out.WriteByte(0)
		}
		put(crc32.ChecksumIEEE(data))
		index.Write(vli(1))
		index.Write(vli(uint64(unpadded)))
		index.Write(vli(uint64(len(data))))
	} else {
		index.Write(vli(0))
	}
	for index.Len()%4 != 0 {
		index.WriteByte(0)
	}
	out.Write(index.Bytes())
	put(crc32.ChecksumIEEE(index.Bytes()))
	var foot bytes.Buffer
	binary.Write(&foot, binary.LittleEndian, uint32((index.Len()+4)/4-1))
	foot.Write(flags)
	put(crc32.ChecksumIEEE(foot.Bytes()))
	out.Write(foot.Bytes())
	out.Write([]byte{'Y', 'Z'})
	return out.Bytes()
}

// Zstd wraps data in a valid zstd frame of raw blocks.
func Zstd(data []byte) []byte {
	var out bytes.Buffer
	out.Write([]byte{0x28, 0xB5, 0x2F, 0xFD})
	out.WriteByte(0xA0) // 4 byte content size, single segment
	binary.Write(&out, binary.LittleEndian, uint32(len(data)))
	rest := data
	for {
		n := len(rest)
		if n > 100000 {
			n = 100000
		}
		last := uint32(0)
		if n == len(rest) {
			last = 1
		}
		h := last | uint32(n)<<3
		out.Write([]byte{byte(h), byte(h >> 8), byte(h >> 16)})
		out.Write(rest[:n])
		rest = rest[n:]
		if last == 1 {
			return out.Bytes()
		}
	}
}

// Unxz reads what XZ wrote, and nothing else.
func Unxz(x []byte) ([]byte, bool) {
	var out []byte
	if len(x) < 32 {
		return nil, false
	}
	if x[12] != 0 { // a block follows the stream header
		for p := 24; p+3 < len(x); {
			if x[p] == 0 {
				break
			}
			if x[p] > 2 {
				return nil, false
			}
			n := int(x[p+1])<<8 + int(x[p+2]) + 1
			if p+3+n > len(x) {
				return nil, false
			}
			out = append(out, x[p+3:p+3+n]...)
			p += 3 + n
		}
	}
	if !bytes.Equal(XZ(out), x) {
		return nil, false
	}
	return out, true
}
