package sqlparser

import (
	"github.com/k0kubun/sqldef/sqlparser/dependency/bytes2"
	zz "github.com/k0kubun/sqldef/zzverif"
)

// The text ahead of a tokenizer over a string: lastChar, then buf[bufPos:bufSize].

// Every tokenizer reads within its text.
//
//@ invariant
func tokenizerOwn(t *Tokenizer) bool {
	return t.InStream == nil && 0 <= t.bufPos && t.bufPos <= t.bufSize && t.bufSize <= len(t.buf) && t.lastChar <= eofChar
}

// The characters that are left.
//
//@ measure
func tokenizerLeft(t *Tokenizer) int {
	n := t.bufSize - t.bufPos
	if t.lastChar != eofChar {
		n++
	}
	return n
}

//@ safe (*Tokenizer).next
//@ prop C21
func nextS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	eof := tkn.lastChar == eofChar
	tkn.next()
	zz.Ensures("reads one character", tokenizerLeft(tkn) < left || eof)
	zz.Ensures("reads no more than one", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanMantissa
//@ prop C21
func scanMantissaS(tkn *Tokenizer, base int, buffer *bytes2.Buffer) {
	zz.Requires(tkn != nil && buffer != nil && base <= 16 && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanMantissa(base, buffer)
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).skipBlank
//@ prop C21
func skipBlankS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.skipBlank()
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).skipStatement
//@ prop C21
func skipStatementS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.skipStatement()
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanIdentifier
//@ prop C21
func scanIdentifierS(tkn *Tokenizer, firstByte byte, isDbSystemVariable bool) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanIdentifier(firstByte, isDbSystemVariable)
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanHex
//@ prop C21
func scanHexS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanHex()
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanBitLiteral
//@ prop C21
func scanBitLiteralS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanBitLiteral()
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanLiteralIdentifier
//@ prop C21
func scanLiteralIdentifierS(tkn *Tokenizer, sepChar uint16) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn) && sepChar < eofChar)
	left := tokenizerLeft(tkn)
	tkn.scanLiteralIdentifier(sepChar)
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanBindVar
//@ prop C21
func scanBindVarS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanBindVar()
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanNumber
//@ prop C21
func scanNumberS(tkn *Tokenizer, seenDecimalPoint bool) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanNumber(seenDecimalPoint)
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanString
//@ prop C21
func scanStringS(tkn *Tokenizer, delim uint16, typ int) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn) && delim < eofChar)
	left := tokenizerLeft(tkn)
	tkn.scanString(delim, typ)
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanCommentType1
//@ prop C21
func scanCommentType1S(tkn *Tokenizer, prefix string) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanCommentType1(prefix)
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanCommentType2
//@ prop C21
func scanCommentType2S(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.scanCommentType2()
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe (*Tokenizer).scanMySQLSpecificComment
//@ prop C21
func scanMySQLSpecificCommentS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	tkn.scanMySQLSpecificComment()
}

//@ safe (*Tokenizer).Scan
//@ prop C21
//@ nonative
func scanS(tkn *Tokenizer) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	tkn.Scan()
}

//@ safe (*Tokenizer).Lex
//@ prop C21
//@ nonative
//@ partial
func lexS(tkn *Tokenizer, lval *yySymType) {
	zz.Requires(tkn != nil && lval != nil && tokenizerOwn(tkn))
	tkn.Lex(lval)
}

//@ safe (*Tokenizer).Error
//@ prop C21
func errorS(tkn *Tokenizer, err string) {
	zz.Requires(tkn != nil && tokenizerOwn(tkn))
	left := tokenizerLeft(tkn)
	tkn.Error(err)
	zz.Ensures("does not go back", tokenizerLeft(tkn) <= left)
}

//@ safe NewStringTokenizer
//@ prop C21
func newStringTokenizerS(sql string, mode ParserMode) {
	tkn := NewStringTokenizer(sql, mode)
	zz.Ensures("a tokenizer", tkn != nil && tokenizerOwn(tkn))
}

//@ safe ExtractMysqlComment
//@ prop C21
func extractMysqlCommentS(sql string) {
	zz.Requires(len(sql) >= 5)
	ExtractMysqlComment(sql)
}

//@ safe ExtractCommentDirectives
//@ prop C21 C23
func extractCommentDirectivesS(comments Comments) { ExtractCommentDirectives(comments) }

//@ safe CommentDirectives.IsSet
//@ prop C21 C23
func isSetS(d CommentDirectives, key string) { d.IsSet(key) }

//@ safe KeywordString
//@ prop C21
func keywordStringS(id int) { KeywordString(id) }
