package sqltypes

import (
	"strconv"

	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

//@ spec NewInt64
//@ prop C24
func newInt64Z(v int64) Value {
	return Value{typ: querypb.Type_INT64, val: strconv.AppendInt(nil, v, 10)}
}

//@ spec NewInt32
//@ prop C24
func newInt32Z(v int32) Value {
	return Value{typ: querypb.Type_INT32, val: strconv.AppendInt(nil, int64(v), 10)}
}

//@ spec NewUint64
//@ prop C24
func newUint64Z(v uint64) Value {
	return Value{typ: querypb.Type_UINT64, val: strconv.AppendUint(nil, v, 10)}
}

//@ spec NewFloat64
//@ prop C24
func newFloat64Z(v float64) Value {
	return Value{typ: querypb.Type_FLOAT64, val: strconv.AppendFloat(nil, v, 'g', -1, 64)}
}

//@ spec NewVarChar
//@ prop C24
func newVarCharZ(v string) Value { return Value{typ: querypb.Type_VARCHAR, val: []byte(v)} }

//@ spec NewVarBinary
//@ prop C24
func newVarBinaryZ(v string) Value { return Value{typ: querypb.Type_VARBINARY, val: []byte(v)} }

// An integer text becomes the signed type where it fits.
//
//@ spec NewIntegral
//@ prop C24
func newIntegralZ(val string) (Value, error) {
	if n, err := strconv.ParseInt(val, 0, 64); err == nil {
		return Value{typ: querypb.Type_INT64, val: strconv.AppendInt(nil, n, 10)}, nil
	}
	n, err := strconv.ParseUint(val, 0, 64)
	if err != nil {
		return Value{}, err
	}
	return Value{typ: querypb.Type_UINT64, val: strconv.AppendUint(nil, n, 10)}, nil
}

//@ spec (Value).EncodeSQL
//@ prop C22 C25
func encodeSQLZ(v Value, b BinWriter) {
	zz.Requires(b != nil)
	if v.typ == querypb.Type_NULL_TYPE {
		b.Write([]byte("null"))
	} else if v.typ&2048 != 0 {
		encodeBytesSQLZ(v.val, b)
	} else {
		b.Write(v.val)
	}
}

// A quoted literal: the bytes that have an escape are written as a backslash and the escape.
//
//@ spec encodeBytesSQL
//@ prop C22 C25
func encodeBytesSQLZ(val []byte, b BinWriter) {
	zz.Requires(b != nil)
	r := []byte{'\''}
	for _, c := range val {
		if SQLEncodeMap[c] == DontEscape {
			r = append(r, c)
		} else {
			r = append(r, '\\', SQLEncodeMap[c])
		}
	}
	r = append(r, '\'')
	b.Write(r)
}

// escapeZ: how a byte is escaped; 255 if it stands for itself.
//
//@ opaque
func escapeZ(c int) byte {
	switch c {
	case 0:
		return '0'
	case '\'', '"', '\\':
		return byte(c)
	case 8:
		return 'b'
	case 10:
		return 'n'
	case 13:
		return 'r'
	case 9:
		return 't'
	case 26:
		return 'Z'
	}
	return 255
}

// The tables of escapes, filled when the program starts: the second is the reverse of the first.
//
//@ spec init#1
//@ prop C22
//@ lockstep
//@ reveal escapeZ
//@ nonative
func escapeTablesZ() {
	for i := range SQLEncodeMap {
		SQLEncodeMap[i] = 255
		SQLDecodeMap[i] = 255
	}
	for i := range SQLEncodeMap {
		if e := escapeZ(i); e != 255 {
			SQLEncodeMap[byte(i)] = e
			SQLDecodeMap[e] = byte(i)
		}
	}
}
