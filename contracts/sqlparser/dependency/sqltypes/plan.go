package sqltypes

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	zz "github.com/k0kubun/sqldef/zzverif"
)

//@ spec (PlanValue).IsNull
//@ prop C25
func planIsNullZ(pv PlanValue) bool {
	return pv.Key == "" && pv.ListKey == "" && pv.Values == nil && pv.Value.typ == querypb.Type_NULL_TYPE
}

//@ spec (PlanValue).IsList
//@ prop C25
func planIsListZ(pv PlanValue) bool { return pv.ListKey != "" || pv.Values != nil }

// A variable that is missing, or that is a list, is no single value.
//
//@ spec (PlanValue).lookupValue
//@ prop C25
func planLookupValueZ(pv PlanValue, vars map[string]*querypb.BindVariable) (*querypb.BindVariable, error) {
	v, ok := vars[pv.Key]
	if !ok {
		return nil, errors.New("missing")
	}
	zz.Requires(v != nil)
	if v.Type == querypb.Type_TUPLE {
		return nil, errors.New("a list")
	}
	return v, nil
}

// A variable that is missing, or that is a single value, is no list.
//
//@ spec (PlanValue).lookupList
//@ prop C25
func planLookupListZ(pv PlanValue, vars map[string]*querypb.BindVariable) (*querypb.BindVariable, error) {
	v, ok := vars[pv.ListKey]
	if !ok {
		return nil, errors.New("missing")
	}
	zz.Requires(v != nil)
	if v.Type != querypb.Type_TUPLE {
		return nil, errors.New("no list")
	}
	return v, nil
}

// The value of the variable, or the value given; a list is refused, and nothing at all is NULL.
//
//@ spec (PlanValue).ResolveValue
//@ prop C25
func planResolveValueZ(pv PlanValue, vars map[string]*querypb.BindVariable) (Value, error) {
	if pv.Key != "" {
		v, err := planLookupValueZ(pv, vars)
		if err != nil {
			return Value{}, err
		}
		return MakeTrusted(v.Type, v.Value), nil
	}
	if pv.Value.typ != querypb.Type_NULL_TYPE {
		return pv.Value, nil
	}
	if planIsListZ(pv) {
		return Value{}, errors.New("a list")
	}
	return Value{}, nil
}

//@ opaque
func listGivenZ(v *querypb.BindVariable) bool {
	for _, x := range v.Values {
		if x == nil {
			return false
		}
	}
	return true
}

// The values of the list variable, or the values given, in order; the first one that has none is an error.
//
//@ spec (PlanValue).ResolveList
//@ prop C25
//@ reveal listGivenZ
func planResolveListZ(pv PlanValue, vars map[string]*querypb.BindVariable) ([]Value, error) {
	r := []Value{}
	if pv.ListKey != "" {
		v, err := planLookupListZ(pv, vars)
		if err != nil {
			return nil, err
		}
		zz.Requires(listGivenZ(v))
		for _, x := range v.Values {
			r = append(r, MakeTrusted(x.Type, x.Value))
		}
		return r, nil
	}
	if pv.Values != nil {
		for _, x := range pv.Values {
			v, err := planResolveValueZ(x, vars)
			if err != nil {
				return nil, err
			}
			r = append(r, v)
		}
		return r, nil
	}
	return nil, errors.New("a single value")
}

// Columns of values become rows: a single value is repeated, a list gives one value to each row, and lists of different
// lengths, missing variables and variables of the other kind are errors.
//
//@ bounded
//@ prop C25
func planRowsResolved() {
	zz.Beat("rows of values")
	r := rand.New(rand.NewSource(zz.Seed))
	for n := 0; n < 3000; n++ {
		vars := map[string]*querypb.BindVariable{}
		rows, failing := -1, false
		next := 0
		value := func() Value { next++; return NewInt64(int64(next)) }
		length := r.Intn(3)
		// column gives the plan of a column, and its values: one, or one for each row.
		single := func() (PlanValue, Value) {
			switch r.Intn(12) {
			case 0, 1, 2:
				return PlanValue{}, NULL
			case 3, 4, 5, 6:
				v := value()
				return PlanValue{Value: v}, v
			case 7:
				failing = true
				return PlanValue{Key: "none"}, NULL
			case 8:
				if r.Intn(2) == 0 {
					vars["tuple"] = &querypb.BindVariable{Type: querypb.Type_TUPLE}
					failing = true
					return PlanValue{Key: "tuple"}, NULL
				}
			}
			v := value()
			key := "v" + strconv.Itoa(next)
			vars[key] = &querypb.BindVariable{Type: v.Type(), Value: v.Raw()}
			return PlanValue{Key: key}, v
		}
		plans, columns := []PlanValue{}, [][]Value{}
		for k := r.Intn(4); k > 0; k-- {
			if r.Intn(2) == 0 {
				pv, v := single()
				plans, columns = append(plans, pv), append(columns, []Value{v})
				continue
			}
			l := length
			if r.Intn(9) == 0 {
				l++
			}
			if r.Intn(9) == 0 {
				plans, columns, failing = append(plans, PlanValue{ListKey: "none"}), append(columns, nil), true
				continue
			}
			if rows >= 0 && rows != l {
				failing = true
			}
			rows = l
			vs := make([]Value, l)
			if r.Intn(2) == 0 {
				pvs := make([]PlanValue, l)
				for i := range pvs {
					pvs[i], vs[i] = single()
				}
				plans, columns = append(plans, PlanValue{Values: pvs}), append(columns, vs)
				continue
			}
			value()
			key := "l" + strconv.Itoa(next)
			bv := &querypb.BindVariable{Type: querypb.Type_TUPLE}
			for i := range vs {
				vs[i] = value()
				bv.Values = append(bv.Values, &querypb.Value{Type: vs[i].Type(), Value: vs[i].Raw()})
			}
			vars[key] = bv
			plans, columns = append(plans, PlanValue{ListKey: key}), append(columns, vs)
		}
		isList := func(i int) bool { return plans[i].IsList() }
		if rows < 0 {
			rows = 1
		}
		got, err := ResolveRows(plans, vars)
		in := fmt.Sprintf("%v with %v", plans, vars)
		if failing != (err != nil) {
			zz.Fail("rows that cannot be made are an error, and no others", "%s: %v, %v", in, got, err)
			continue
		}
		if err != nil {
			if got != nil {
				zz.Fail("no rows with an error", "%s: %v", in, got)
			}
			continue
		}
		if len(got) != rows {
			zz.Fail("the number of rows", "%s: %v", in, got)
			continue
		}
		for i, row := range got {
			if len(row) != len(plans) {
				zz.Fail("a row has a value for every column", "%s: %v", in, row)
				continue
			}
			for j := range row {
				want := columns[j][0]
				if isList(j) {
					want = columns[j][i]
				}
				if row[j].Type() != want.Type() || !bytes.Equal(row[j].Raw(), want.Raw()) {
					zz.Fail("the value of a row and column", "%s: row %d column %d is %v, want %v", in, i, j, row[j], want)
				}
			}
		}
	}
}

// The length that all lists have, and one if there are none.
//
//@ spec rowCount
//@ prop C25
//@ lockstep
func planRowCountZ(pvs []PlanValue, vars map[string]*querypb.BindVariable) (int, error) {
	count := -1
	for _, pv := range pvs {
		if pv.Key != "" || pv.Value.typ != querypb.Type_NULL_TYPE {
			continue
		}
		n := len(pv.Values)
		if pv.Values == nil {
			if pv.ListKey == "" {
				continue
			}
			v, err := planLookupListZ(pv, vars)
			if err != nil {
				return 0, err
			}
			n = len(v.Values)
		}
		if count != -1 && count != n {
			return 0, errors.New("mismatch")
		}
		count = n
	}
	if count == -1 {
		return 1, nil
	}
	return count, nil
}
