package sqltypes

import (
	"errors"
	"fmt"
	"strconv"

	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	zz "github.com/k0kubun/sqldef/zzverif"
)

//@ spec InterfaceToValue
//@ prop C24
func interfaceToValueZ(x interface{}) (Value, error) {
	if x == nil {
		return Value{}, nil
	}
	if b, ok := x.([]byte); ok {
		return Value{typ: querypb.Type_VARBINARY, val: b}, nil
	}
	if n, ok := x.(int64); ok {
		return newInt64Z(n), nil
	}
	if n, ok := x.(uint64); ok {
		return newUint64Z(n), nil
	}
	if f, ok := x.(float64); ok {
		return newFloat64Z(f), nil
	}
	if s, ok := x.(string); ok {
		return newVarCharZ(s), nil
	}
	return Value{}, fmt.Errorf("unexpected")
}

//@ spec (Value).Type
//@ prop C24
func valueTypeZ(v Value) querypb.Type { return v.typ }

//@ spec (Value).Raw
//@ prop C24
func valueRawZ(v Value) []byte { return v.val }

//@ spec (Value).Len
//@ prop C24
func valueLenZ(v Value) int { return len(v.val) }

//@ spec (Value).ToBytes
//@ prop C24
func valueToBytesZ(v Value) []byte {
	if v.typ == querypb.Type_EXPRESSION {
		return nil
	}
	return v.val
}

//@ spec (Value).IsNull
//@ prop C24
func valueIsNullZ(v Value) bool { return v.typ == querypb.Type_NULL_TYPE }

//@ spec (Value).IsIntegral
//@ prop C24
func valueIsIntegralZ(v Value) bool { return isIntegralZ(v.typ) }

//@ spec (Value).IsSigned
//@ prop C24
func valueIsSignedZ(v Value) bool { return isSignedZ(v.typ) }

//@ spec (Value).IsUnsigned
//@ prop C24
func valueIsUnsignedZ(v Value) bool { return isUnsignedZ(v.typ) }

//@ spec (Value).IsFloat
//@ prop C24
func valueIsFloatZ(v Value) bool { return isFloatZ(v.typ) }

//@ spec (Value).IsQuoted
//@ prop C24 C22
func valueIsQuotedZ(v Value) bool { return isQuotedZ(v.typ) }

//@ spec (Value).IsText
//@ prop C24
func valueIsTextZ(v Value) bool { return isTextZ(v.typ) }

//@ spec (Value).IsBinary
//@ prop C24
func valueIsBinaryZ(v Value) bool { return isBinaryZ(v.typ) }

//@ spec ValueToProto
//@ prop C24
func valueToProtoZ(v Value) *querypb.Value { return &querypb.Value{Type: v.typ, Value: v.val} }

//@ spec ProtoToValue
//@ prop C24 C25
func protoToValueZ(v *querypb.Value) Value {
	zz.Requires(v != nil)
	return makeTrustedZ(v.Type, v.Value)
}

//@ spec ValueBindVariable
//@ prop C24
func valueBindVariableZ(v Value) *querypb.BindVariable {
	return &querypb.BindVariable{Type: v.typ, Value: v.val}
}

//@ spec Int32BindVariable
//@ prop C24
func int32BindVariableZ(v int32) *querypb.BindVariable {
	return &querypb.BindVariable{Type: querypb.Type_INT32, Value: strconv.AppendInt(nil, int64(v), 10)}
}

//@ spec Int64BindVariable
//@ prop C24
func int64BindVariableZ(v int64) *querypb.BindVariable {
	return &querypb.BindVariable{Type: querypb.Type_INT64, Value: strconv.AppendInt(nil, v, 10)}
}

//@ spec Uint64BindVariable
//@ prop C24
func uint64BindVariableZ(v uint64) *querypb.BindVariable {
	return &querypb.BindVariable{Type: querypb.Type_UINT64, Value: strconv.AppendUint(nil, v, 10)}
}

//@ spec Float64BindVariable
//@ prop C24
func float64BindVariableZ(v float64) *querypb.BindVariable {
	return &querypb.BindVariable{Type: querypb.Type_FLOAT64, Value: strconv.AppendFloat(nil, v, 'g', -1, 64)}
}

//@ spec StringBindVariable
//@ prop C24
func stringBindVariableZ(v string) *querypb.BindVariable {
	return &querypb.BindVariable{Type: querypb.Type_VARCHAR, Value: []byte(v)}
}

//@ spec BytesBindVariable
//@ prop C24
func bytesBindVariableZ(v []byte) *querypb.BindVariable {
	return &querypb.BindVariable{Type: querypb.Type_VARBINARY, Value: v}
}

//@ spec BindVariableToValue
//@ prop C24 C25
func bindVariableToValueZ(bv *querypb.BindVariable) (Value, error) {
	zz.Requires(bv != nil)
	if bv.Type == querypb.Type_TUPLE {
		return Value{}, errors.New("tuple")
	}
	return makeTrustedZ(bv.Type, bv.Value), nil
}

// A bind variable is valid if its text fits its type, or if it is a tuple of at least one value, each of which fits and
// none of which is a tuple.
//
//@ spec ValidateBindVariable
//@ prop C24
//@ reveal fitsZ
func validateBindVariableZ(bv *querypb.BindVariable) error {
	if bv == nil {
		return errors.New("nil")
	}
	if bv.Type != querypb.Type_TUPLE {
		if !fitsZ(bv.Type, bv.Value) {
			return errors.New("does not fit")
		}
		return nil
	}
	if len(bv.Values) == 0 {
		return errors.New("empty")
	}
	for _, v := range bv.Values {
		zz.Requires(v != nil)
	}
	for _, v := range bv.Values {
		if v.Type == querypb.Type_TUPLE || !fitsZ(v.Type, v.Value) {
			return errors.New("does not fit")
		}
	}
	return nil
}

//@ spec (Value).ToString
//@ prop C24
func valueToStringZ(v Value) string {
	if v.typ == querypb.Type_EXPRESSION {
		return ""
	}
	return string(v.val)
}
