package oracle

import "encoding/binary"

// Index is an index file as documented in cmd/gosync/fileformat.md.
func Index(data []byte, bs int, major, minor, patch uint16) []byte {
	out := []byte("G0S9NC")
	for _, v := range []uint16{major, minor, patch} {
		out = binary.LittleEndian.AppendUint16(out, v)
	}
	out = binary.LittleEndian.AppendUint64(out, uint64(len(data)))
	out = binary.LittleEndian.AppendUint32(out, uint32(bs))
	for _, b := range Blocks(data, bs) {
		out = append(out, Weak(b)...)
		out = append(out, MD5(b)...)
	}
	return out
}

// HeaderSize is the size of the header, EntrySize that of one entry.
const (
	HeaderSize = 24
	EntrySize  = 20
)
