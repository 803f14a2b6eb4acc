package sqlparser

import (
	"errors"

	zz "github.com/k0kubun/sqldef/zzverif"
)

var _ = zz.Requires

// The whole text is read as one statement, by the syntax of the database, or there is an error.
//
//@ spec ParseStrictDDLWithMode
//@ prop C20 C21
//@ changes sqlparser.yyParse
//@ seed alter table t
//@ seed create table t (a int
//@ seed drop table t
//@ seed truncate table t x
//@ seed rename table a to b x
//@ seed create database d
//@ seed analyze table t
//@ seed create table t (a int) x
//@ seed create view v
//@ seed drop index i on
func parseStrictZ(sql string, mode ParserMode) (Statement, error) {
	t := NewStringTokenizer(sql, mode)
	if yyParse(t) != 0 {
		return nil, errors.New("syntax")
	}
	return t.ParseTree, nil
}

//@ spec NewStringTokenizer
//@ prop C20 C21
func newStringTokenizerZ(sql string, mode ParserMode) *Tokenizer {
	return &Tokenizer{buf: []byte(sql), bufSize: len(sql), mode: mode}
}
