package bytes2

import (
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The buffer is its bytes: what is written comes out behind what was there.

//@ spec (*Buffer).Write
//@ prop C22 C25
func writeZ(buf *Buffer, b []byte) (int, error) {
	zz.Requires(buf != nil)
	buf.bytes = append(buf.bytes, b...)
	return len(b), nil
}

//@ spec (*Buffer).WriteString
//@ prop C22 C25
func writeStringZ(buf *Buffer, s string) (int, error) {
	zz.Requires(buf != nil)
	buf.bytes = append(buf.bytes, s...)
	return len(s), nil
}

//@ spec (*Buffer).WriteByte
//@ prop C22 C25
func writeByteZ(buf *Buffer, b byte) error {
	zz.Requires(buf != nil)
	buf.bytes = append(buf.bytes, b)
	return nil
}

//@ spec (*Buffer).Bytes
//@ prop C22 C25
func bytesZ(buf *Buffer) []byte {
	zz.Requires(buf != nil)
	return buf.bytes
}

//@ spec (*Buffer).String
//@ prop C22 C25
func bufferStringZ(buf *Buffer) string {
	zz.Requires(buf != nil)
	return string(buf.bytes)
}

//@ spec (*Buffer).Len
//@ prop C22 C25
func bufferLenZ(buf *Buffer) int {
	zz.Requires(buf != nil)
	return len(buf.bytes)
}

//@ spec NewBuffer
//@ prop C22 C25
func newBufferZ(b []byte) *Buffer { return &Buffer{bytes: b} }
