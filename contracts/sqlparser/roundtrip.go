package sqlparser

import (
	"bytes"
	"math/rand"

	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
	zz "github.com/k0kubun/sqldef/zzverif"
)

// The text of a value is one literal with exactly that value: every byte, every pair of bytes, and random byte strings
// that favour the bytes that need care.
//
//@ bounded
//@ prop C22
func literalsReadBack() {
	if !literalsSeen {
		for i := 0; i < 256; i++ {
			readBack([]byte{byte(i)})
			for j := 0; j < 256; j++ {
				readBack([]byte{byte(i), byte(j)})
			}
		}
		readBack(nil)
		literalsSeen = true
	}
	r := rand.New(rand.NewSource(zz.Seed))
	odd := []byte("'\\\"`\x00\n\r\t\b\x1a%_Z0nrtb;-*/#\xff\xc3\xa9")
	for i := 0; i < 300; i++ {
		b := make([]byte, 3+r.Intn(40))
		for j := range b {
			if b[j] = byte(r.Intn(256)); r.Intn(3) > 0 {
				b[j] = odd[r.Intn(len(odd))]
			}
		}
		readBack(b)
	}
}

var literalsSeen bool

func readBack(b []byte) {
	zz.Beat(string(b))
	buf := &bytes.Buffer{}
	sqltypes.MakeTrusted(sqltypes.VarBinary, b).EncodeSQL(buf)
	for _, mode := range []ParserMode{ParserModeMysql, ParserModePostgres, ParserModeSQLite3, ParserModeMssql} {
		t := NewStringTokenizer(buf.String(), mode)
		typ, val := t.Scan()
		end, _ := t.Scan()
		if typ != STRING || !bytes.Equal(val, b) || end != 0 {
			zz.Fail("the literal is read back", "value %q, text %q: read back as %q (token %d, then %d)", b, buf.String(), val, typ, end)
		}
	}
}
