package sqltypes

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	zz "github.com/k0kubun/sqldef/zzverif"
)

// Go values become bind variables of the type and text they stand for, singly, in lists, in lists of anything and in maps;
// what comes out is valid, and anything else is refused.
//
//@ bounded
//@ prop C24
func bindVariablesBuilt() {
	zz.Beat("bind variables")
	r := rand.New(rand.NewSource(zz.Seed))
	ints := []int64{0, 1, -1, 9, 10, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, r.Int63(), -r.Int63()}
	uints := []uint64{0, 1, 10, math.MaxUint32, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, r.Uint64()}
	floats := []float64{0, 1, -1, 0.5, 1e100, -1e-100, math.MaxFloat64, math.SmallestNonzeroFloat64, 3.0000000000000004, r.NormFloat64()}
	texts := []string{"", "a", "1", "NULL", "'", "a\x00b", "\xff", "é", strings.Repeat("x", 300)}
	type one struct {
		in interface{}
		t  querypb.Type
		v  []byte
	}
	var ones []one
	bvs := map[string]*querypb.BindVariable{}
	raw := map[string]interface{}{}
	for _, x := range ints {
		ones = append(ones, one{x, querypb.Type_INT64, []byte(fmt.Sprint(x))}, one{int(x), querypb.Type_INT64, []byte(fmt.Sprint(x))})
	}
	for _, x := range uints {
		ones = append(ones, one{x, querypb.Type_UINT64, []byte(fmt.Sprint(x))})
	}
	for _, x := range floats {
		ones = append(ones, one{x, querypb.Type_FLOAT64, []byte(strconv.FormatFloat(x, 'g', -1, 64))})
	}
	for _, x := range texts {
		ones = append(ones, one{x, querypb.Type_VARCHAR, []byte(x)}, one{[]byte(x), querypb.Type_VARBINARY, []byte(x)})
		b := &querypb.BindVariable{Type: querypb.Type_VARCHAR, Value: []byte(x)}
		ones = append(ones, one{b, b.Type, b.Value}, one{Value{typ: querypb.Type_CHAR, val: []byte(x)}, querypb.Type_CHAR, []byte(x)})
	}
	ones = append(ones, one{nil, querypb.Type_NULL_TYPE, nil}, one{NULL, querypb.Type_NULL_TYPE, nil}, one{NewInt32(-5), querypb.Type_INT32, []byte("-5")})
	same := func(in interface{}, got *querypb.BindVariable, err error, t querypb.Type, v []byte, vs []*querypb.Value) {
		if err != nil || got == nil || got.Type != t || !bytes.Equal(got.Value, v) || len(got.Values) != len(vs) {
			zz.Fail("the bind variable of a value", "%T %v: %v, %v", in, in, got, err)
			return
		}
		for i := range vs {
			if got.Values[i] == nil || got.Values[i].Type != vs[i].Type || !bytes.Equal(got.Values[i].Value, vs[i].Value) {
				zz.Fail("the bind variable of a list", "%T %v: value %d is %v", in, in, i, got.Values[i])
				return
			}
		}
		if e := ValidateBindVariable(got); (e == nil) == (t == querypb.Type_TUPLE && len(vs) == 0) {
			zz.Fail("the bind variable of a value is valid", "%T %v: %v", in, in, e)
		}
	}
	for i, o := range ones {
		got, err := BuildBindVariable(o.in)
		same(o.in, got, err, o.t, o.v, nil)
		if b, ok := o.in.(*querypb.BindVariable); ok && got != b {
			zz.Fail("a bind variable stands for itself", "%v", b)
		}
		raw[fmt.Sprint("v", i)], bvs[fmt.Sprint("v", i)] = o.in, got
	}
	for n := 0; n < 6; n++ {
		pick := make([]int, n)
		for i := range pick {
			pick[i] = r.Intn(1 << 20)
		}
		var (
			any []interface{}
			is  []int
			i64 []int64
			us  []uint64
			fs  []float64
			ss  []string
			bs  [][]byte
		)
		vs := make([][]*querypb.Value, 7)
		add := func(k int, t querypb.Type, v string) { vs[k] = append(vs[k], &querypb.Value{Type: t, Value: []byte(v)}) }
		for _, p := range pick {
			o := ones[p%len(ones)]
			any = append(any, o.in)
			add(0, o.t, string(o.v))
			is = append(is, int(ints[p%len(ints)]))
			add(1, querypb.Type_INT64, fmt.Sprint(ints[p%len(ints)]))
			i64 = append(i64, ints[p%len(ints)])
			add(2, querypb.Type_INT64, fmt.Sprint(ints[p%len(ints)]))
			us = append(us, uints[p%len(uints)])
			add(3, querypb.Type_UINT64, fmt.Sprint(uints[p%len(uints)]))
			fs = append(fs, floats[p%len(floats)])
			add(4, querypb.Type_FLOAT64, strconv.FormatFloat(floats[p%len(floats)], 'g', -1, 64))
			ss = append(ss, texts[p%len(texts)])
			add(5, querypb.Type_VARCHAR, texts[p%len(texts)])
			bs = append(bs, []byte(texts[p%len(texts)]))
			add(6, querypb.Type_VARBINARY, texts[p%len(texts)])
		}
		for k, in := range []interface{}{any, is, i64, us, fs, ss, bs} {
			got, err := BuildBindVariable(in)
			same(in, got, err, querypb.Type_TUPLE, nil, vs[k])
		}
	}
	for _, in := range []interface{}{int32(1), uint(1), true, struct{}{}, []bool{true}, []interface{}{1, true}, map[string]int{}, float32(1), rune(1), byte(1)} {
		if got, err := BuildBindVariable(in); err == nil || got != nil {
			zz.Fail("a value of another type is refused", "%T %v: %v", in, in, got)
		}
		if got, err := BuildBindVariables(map[string]interface{}{"a": 1, "b": in}); err == nil || got != nil || !strings.HasPrefix(err.Error(), "b: ") {
			zz.Fail("a map with a value of another type is refused", "%T %v: %v, %v", in, in, got, err)
		}
	}
	got, err := BuildBindVariables(raw)
	if err != nil || !reflect.DeepEqual(got, bvs) {
		zz.Fail("the bind variables of a map", "%v, %v", got, err)
	}
	if got, err := BuildBindVariables(nil); err != nil || len(got) != 0 {
		zz.Fail("the bind variables of an empty map", "%v, %v", got, err)
	}
	if e := ValidateBindVariables(bvs); e != nil {
		zz.Fail("valid bind variables are accepted", "%v", e)
	}
	c := CopyBindVariables(bvs)
	if len(c) != len(bvs) {
		zz.Fail("a copy has the same entries", "%d of %d", len(c), len(bvs))
	}
	for k, v := range bvs {
		if c[k] != v {
			zz.Fail("a copy has the same entries", "%s: %v", k, c[k])
		}
	}
	if !BindVariablesEqual(c, bvs) {
		zz.Fail("a copy is equal", "%v", c)
	}
	delete(c, "v0")
	if BindVariablesEqual(c, bvs) || len(bvs) != len(raw) {
		zz.Fail("a copy is independent", "%v", c)
	}
	for k := range bvs {
		c = CopyBindVariables(bvs)
		for _, bad := range []*querypb.BindVariable{nil, {Type: querypb.Type_INT64, Value: []byte("x")}, {Type: querypb.Type_TUPLE}, {Type: querypb.Type_UINT8, Value: []byte("-1")}, {Type: querypb.Type_FLOAT64, Value: []byte("a")}} {
			c[k] = bad
			if e := ValidateBindVariables(c); e == nil || !strings.HasPrefix(e.Error(), k+": ") {
				zz.Fail("an invalid bind variable is reported", "%s %v: %v", k, bad, e)
			}
			if BindVariablesEqual(c, bvs) {
				zz.Fail("different bind variables are different", "%s %v", k, bad)
			}
		}
	}
}

// The 7-bit form of a value is the text itself for numbers, and its base 64 form in quotes otherwise.
//
//@ bounded
//@ prop C22
func asciiReadBack() {
	zz.Beat("7-bit values")
	r := rand.New(rand.NewSource(zz.Seed))
	for i := 0; i < 3000; i++ {
		b := make([]byte, i%40)
		r.Read(b)
		for _, t := range []querypb.Type{VarBinary, VarChar, Blob, Text, Char, Int64, Decimal, Float64, Null} {
			buf := &bytes.Buffer{}
			MakeTrusted(t, b).EncodeASCII(buf)
			s := buf.String()
			ok := s == string(b)
			if t == Null {
				ok = s == "null"
			} else if t == VarBinary || t == VarChar || t == Blob || t == Text || t == Char {
				ok = len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\''
				if ok {
					d, err := base64.StdEncoding.DecodeString(s[1 : len(s)-1])
					ok = err == nil && bytes.Equal(d, b)
				}
			}
			if !ok {
				zz.Fail("the 7-bit form is read back", "%v %q: %q", t, b, s)
			}
		}
	}
}
