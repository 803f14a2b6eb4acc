package sqltypes

import (
	"errors"
	"fmt"
	"strconv"

	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = errors.New

// The class bits of a type code.

//@ spec IsIntegral
//@ prop C24
func isIntegralZ(t querypb.Type) bool { return t&256 != 0 }

//@ spec IsSigned
//@ prop C24
func isSignedZ(t querypb.Type) bool { return t&256 != 0 && t&512 == 0 }

//@ spec IsUnsigned
//@ prop C24
func isUnsignedZ(t querypb.Type) bool { return t&256 != 0 && t&512 != 0 }

//@ spec IsFloat
//@ prop C24
func isFloatZ(t querypb.Type) bool { return t&1024 != 0 }

//@ spec IsQuoted
//@ prop C24 C22
func isQuotedZ(t querypb.Type) bool { return t&2048 != 0 }

//@ spec IsText
//@ prop C24
func isTextZ(t querypb.Type) bool { return t&4096 != 0 }

//@ spec IsBinary
//@ prop C24
func isBinaryZ(t querypb.Type) bool { return t&8192 != 0 }

//@ spec isNumber
//@ prop C24
func isNumberZ(t querypb.Type) bool { return t&256 != 0 || t&1024 != 0 || t == querypb.Type_DECIMAL }

// classZ: 1 signed, 2 unsigned, 3 float, 4 decimal, 5 null, 6 expression, 7 text, 8 binary, 9 otherwise quoted.
//
//@ opaque
func classZ(t querypb.Type) int {
	switch t {
	case querypb.Type_INT8, querypb.Type_INT16, querypb.Type_INT24, querypb.Type_INT32, querypb.Type_INT64:
		return 1
	case querypb.Type_UINT8, querypb.Type_UINT16, querypb.Type_UINT24, querypb.Type_UINT32, querypb.Type_UINT64, querypb.Type_YEAR:
		return 2
	case querypb.Type_FLOAT32, querypb.Type_FLOAT64:
		return 3
	case querypb.Type_DECIMAL:
		return 4
	case querypb.Type_NULL_TYPE:
		return 5
	case querypb.Type_EXPRESSION:
		return 6
	case querypb.Type_TEXT, querypb.Type_VARCHAR, querypb.Type_CHAR:
		return 7
	case querypb.Type_BLOB, querypb.Type_VARBINARY, querypb.Type_BINARY:
		return 8
	case querypb.Type_TIMESTAMP, querypb.Type_DATE, querypb.Type_TIME, querypb.Type_DATETIME, querypb.Type_BIT, querypb.Type_ENUM, querypb.Type_SET,
		querypb.Type_GEOMETRY, querypb.Type_JSON:
		return 9
	}
	return 0
}

// Every type of a column belongs to the classes of its kind and to no other.
//
//@ lemma
//@ reveal *
//@ prop C24
func typeClassesZ(t querypb.Type) {
	k := classZ(t)
	zz.Requires(k != 0)
	zz.Ensures("integral", IsIntegral(t) == (k == 1 || k == 2))
	zz.Ensures("signed", IsSigned(t) == (k == 1))
	zz.Ensures("unsigned", IsUnsigned(t) == (k == 2))
	zz.Ensures("float", IsFloat(t) == (k == 3))
	zz.Ensures("quoted", IsQuoted(t) == (k >= 7))
	zz.Ensures("text", IsText(t) == (k == 7))
	zz.Ensures("binary", IsBinary(t) == (k == 8))
	zz.Ensures("number", isNumber(t) == (k <= 4))
}

// The type that MySQL reports as a type number with flags.
//
//@ spec modifyType
//@ prop C24
func modifyTypeZ(t querypb.Type, flags int64) querypb.Type {
	unsigned, binary, enum, set := flags&32 != 0, flags&128 != 0, flags&256 != 0, flags&2048 != 0
	switch {
	case t == querypb.Type_INT8 && unsigned:
		return querypb.Type_UINT8
	case t == querypb.Type_INT16 && unsigned:
		return querypb.Type_UINT16
	case t == querypb.Type_INT24 && unsigned:
		return querypb.Type_UINT24
	case t == querypb.Type_INT32 && unsigned:
		return querypb.Type_UINT32
	case t == querypb.Type_INT64 && unsigned:
		return querypb.Type_UINT64
	case t == querypb.Type_TEXT && binary:
		return querypb.Type_BLOB
	case t == querypb.Type_VARCHAR && binary:
		return querypb.Type_VARBINARY
	case t == querypb.Type_CHAR && binary:
		return querypb.Type_BINARY
	case t == querypb.Type_CHAR && enum:
		return querypb.Type_ENUM
	case t == querypb.Type_CHAR && set:
		return querypb.Type_SET
	}
	return t
}

func plainTypeZ(n int64) (querypb.Type, bool) {
	switch n {
	case 1:
		return querypb.Type_INT8, true
	case 2:
		return querypb.Type_INT16, true
	case 3:
		return querypb.Type_INT32, true
	case 4:
		return querypb.Type_FLOAT32, true
	case 5:
		return querypb.Type_FLOAT64, true
	case 6:
		return querypb.Type_NULL_TYPE, true
	case 7:
		return querypb.Type_TIMESTAMP, true
	case 8:
		return querypb.Type_INT64, true
	case 9:
		return querypb.Type_INT24, true
	case 10:
		return querypb.Type_DATE, true
	case 11:
		return querypb.Type_TIME, true
	case 12:
		return querypb.Type_DATETIME, true
	case 13:
		return querypb.Type_YEAR, true
	case 16:
		return querypb.Type_BIT, true
	case 245:
		return querypb.Type_JSON, true
	case 246:
		return querypb.Type_DECIMAL, true
	case 249, 250, 251, 252:
		return querypb.Type_TEXT, true
	case 253:
		return querypb.Type_VARCHAR, true
	case 254:
		return querypb.Type_CHAR, true
	case 255:
		return querypb.Type_GEOMETRY, true
	}
	return 0, false
}

//@ spec MySQLToType
//@ prop C24
func mySQLToTypeZ(n, flags int64) (querypb.Type, error) {
	t, ok := plainTypeZ(n)
	if !ok {
		return 0, fmt.Errorf("unsupported")
	}
	return modifyTypeZ(t, flags), nil
}

//@ spec TypeToMySQL
//@ prop C24
func typeToMySQLZ(t querypb.Type) (int64, int64) {
	switch t {
	case querypb.Type_INT8:
		return 1, 0
	case querypb.Type_UINT8:
		return 1, 32
	case querypb.Type_INT16:
		return 2, 0
	case querypb.Type_UINT16:
		return 2, 32
	case querypb.Type_INT32:
		return 3, 0
	case querypb.Type_UINT32:
		return 3, 32
	case querypb.Type_FLOAT32:
		return 4, 0
	case querypb.Type_FLOAT64:
		return 5, 0
	case querypb.Type_NULL_TYPE:
		return 6, 128
	case querypb.Type_TIMESTAMP:
		return 7, 0
	case querypb.Type_INT64:
		return 8, 0
	case querypb.Type_UINT64:
		return 8, 32
	case querypb.Type_INT24:
		return 9, 0
	case querypb.Type_UINT24:
		return 9, 32
	case querypb.Type_DATE:
		return 10, 128
	case querypb.Type_TIME:
		return 11, 128
	case querypb.Type_DATETIME:
		return 12, 128
	case querypb.Type_YEAR:
		return 13, 32
	case querypb.Type_BIT:
		return 16, 32
	case querypb.Type_JSON:
		return 245, 0
	case querypb.Type_DECIMAL:
		return 246, 0
	case querypb.Type_TEXT:
		return 252, 0
	case querypb.Type_BLOB:
		return 252, 128
	case querypb.Type_VARCHAR:
		return 253, 0
	case querypb.Type_VARBINARY:
		return 253, 128
	case querypb.Type_CHAR:
		return 254, 0
	case querypb.Type_BINARY:
		return 254, 128
	case querypb.Type_ENUM:
		return 254, 256
	case querypb.Type_SET:
		return 254, 2048
	case querypb.Type_GEOMETRY:
		return 255, 0
	}
	return 0, 0
}

// The mapping to the wire types loses nothing.
//
//@ lemma
//@ reveal *
//@ prop C24
func typeRoundTripZ(t querypb.Type) {
	k := classZ(t)
	zz.Requires(k != 0 && k != 6)
	n, flags := TypeToMySQL(t)
	r, err := MySQLToType(n, flags)
	zz.Ensures("the wire type is known", err == nil)
	zz.Ensures("the wire type stands for the type", r == t)
}

// fitsZ: a text that a value of the type can have.
//
//@ opaque
func fitsZ(t querypb.Type, val []byte) bool {
	switch {
	case t&256 != 0 && t&512 == 0:
		_, err := strconv.ParseInt(string(val), 0, 64)
		return err == nil
	case t&256 != 0:
		_, err := strconv.ParseUint(string(val), 0, 64)
		return err == nil
	case t&1024 != 0 || t == querypb.Type_DECIMAL:
		_, err := strconv.ParseFloat(string(val), 64)
		return err == nil
	}
	return t&2048 != 0 || t == querypb.Type_NULL_TYPE
}

//@ spec MakeTrusted
//@ prop C24
func makeTrustedZ(t querypb.Type, val []byte) Value {
	if t == querypb.Type_NULL_TYPE {
		return Value{}
	}
	return Value{typ: t, val: val}
}

//@ spec NewValue
//@ prop C24
//@ reveal fitsZ
func newValueZ(t querypb.Type, val []byte) (Value, error) {
	if !fitsZ(t, val) {
		return Value{}, fmt.Errorf("does not fit")
	}
	return makeTrustedZ(t, val), nil
}
