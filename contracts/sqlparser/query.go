package sqlparser

import (
	"bytes"
	"fmt"

	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
	zz "github.com/k0kubun/sqldef/zzverif"
)

// A variable is looked up by its name without the colon; with two colons it must be a list that is not empty, with one
// it must not be a list.
//
//@ spec FetchBindVar
//@ prop C25
func fetchBindVarZ(name string, vars map[string]*querypb.BindVariable) (*querypb.BindVariable, bool, error) {
	zz.Requires(len(name) >= 2)
	list := name[1] == ':'
	key := name[1:]
	if list {
		key = name[2:]
	}
	v, ok := vars[key]
	if !ok {
		return nil, false, fmt.Errorf("missing")
	}
	zz.Requires(v != nil)
	if list != (v.Type == querypb.Type_TUPLE) {
		return nil, false, fmt.Errorf("unexpected")
	}
	if list && len(v.Values) == 0 {
		return nil, false, fmt.Errorf("empty")
	}
	return v, list, nil
}

//@ opaque
func valuesGivenZ(v *querypb.BindVariable) bool {
	for _, x := range v.Values {
		if x == nil {
			return false
		}
	}
	return true
}

// One value, or the values of a tuple in brackets and separated by commas.
//
//@ spec EncodeValue
//@ prop C25 C22
//@ reveal valuesGivenZ
func encodeValueZ(buf *bytes.Buffer, v *querypb.BindVariable) {
	zz.Requires(buf != nil && v != nil && valuesGivenZ(v))
	if v.Type != querypb.Type_TUPLE {
		sqltypes.MakeTrusted(v.Type, v.Value).EncodeSQL(buf)
		return
	}
	buf.WriteString("(")
	for i, x := range v.Values {
		if i > 0 {
			buf.WriteString(", ")
		}
		sqltypes.MakeTrusted(x.Type, x.Value).EncodeSQL(buf)
	}
	buf.WriteString(")")
}

//@ spec (InsertValues).EncodeSQL
//@ prop C25 C22
func insertValuesZ(iv InsertValues, buf *bytes.Buffer) {
	zz.Requires(buf != nil)
	for i, row := range iv {
		if i > 0 {
			buf.WriteString(", ")
		}
		buf.WriteString("(")
		for j, v := range row {
			if j > 0 {
				buf.WriteString(", ")
			}
			v.EncodeSQL(buf)
		}
		buf.WriteString(")")
	}
}

// The query with every placeholder replaced and all the rest kept: the text between two placeholders is copied, and a
// placeholder becomes the text of its value.
//
//@ spec (*ParsedQuery).GenerateQuery
//@ prop C25
//@ lockstep
func generateQueryZ(pq *ParsedQuery, vars map[string]*querypb.BindVariable, extras map[string]Encodable) ([]byte, error) {
	zz.Requires(pq != nil)
	if len(pq.bindLocations) == 0 {
		return []byte(pq.Query), nil
	}
	buf := &bytes.Buffer{}
	pos := 0
	for _, loc := range pq.bindLocations {
		zz.Keeps(0 <= pos && pos <= len(pq.Query))
		zz.Requires(pos <= loc.offset && loc.length >= 2 && loc.offset+loc.length <= len(pq.Query))
		buf.WriteString(pq.Query[pos:loc.offset])
		name := pq.Query[loc.offset : loc.offset+loc.length]
		x, ok := extras[name[1:]]
		if ok {
			zz.Requires(x != nil)
			x.EncodeSQL(buf)
		} else {
			v, _, err := fetchBindVarZ(name, vars)
			if err != nil {
				return nil, err
			}
			encodeValueZ(buf, v)
		}
		pos = loc.offset + loc.length
	}
	buf.WriteString(pq.Query[pos:])
	return buf.Bytes(), nil
}

//@ spec (*TrackedBuffer).WriteArg
//@ prop C25
func writeArgZ(buf *TrackedBuffer, arg string) {
	zz.Requires(buf != nil && buf.Buffer != nil)
	at := buf.Buffer.Len()
	buf.Buffer.WriteString(arg)
	buf.bindLocations = append(buf.bindLocations, bindLocation{offset: at, length: len(arg)})
}

//@ spec (*TrackedBuffer).ParsedQuery
//@ prop C25
func parsedQueryZ(buf *TrackedBuffer) *ParsedQuery {
	zz.Requires(buf != nil && buf.Buffer != nil)
	return &ParsedQuery{Query: buf.Buffer.String(), bindLocations: buf.bindLocations}
}

//@ spec (*TrackedBuffer).HasBindVars
//@ prop C25
func hasBindVarsZ(buf *TrackedBuffer) bool {
	zz.Requires(buf != nil)
	return len(buf.bindLocations) > 0
}

//@ opaque
func rowsCompleteZ(tpl *TupleEqualityList) bool {
	for i := range tpl.Rows {
		if len(tpl.Rows[i]) < len(tpl.Columns) {
			return false
		}
	}
	return true
}

// One column: the column and the first value of every row. Several columns: for every row, an equality for every column.
//
//@ spec (*TupleEqualityList).EncodeSQL
//@ prop C25 C22
//@ pure sqlparser.Append
//@ lockstep
//@ reveal rowsCompleteZ
func tupleEqualityZ(tpl *TupleEqualityList, buf *bytes.Buffer) {
	zz.Requires(tpl != nil && buf != nil && rowsCompleteZ(tpl))
	if len(tpl.Columns) == 1 {
		Append(buf, tpl.Columns[0])
		buf.WriteString(" in (")
		for i, r := range tpl.Rows {
			if i > 0 {
				buf.WriteString(", ")
			}
			r[0].EncodeSQL(buf)
		}
		buf.WriteString(")")
		return
	}
	for i, r := range tpl.Rows {
		if i > 0 {
			buf.WriteString(" or ")
		}
		buf.WriteString("(")
		for j, c := range tpl.Columns {
			if j > 0 {
				buf.WriteString(" and ")
			}
			Append(buf, c)
			buf.WriteString(" = ")
			r[j].EncodeSQL(buf)
		}
		buf.WriteString(")")
	}
}
