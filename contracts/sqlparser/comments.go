package sqlparser

import (
	"strings"
	"unicode"

	zz "github.com/k0kubun/sqldef/zzverif"
)

//@ spec isNonSpace
//@ prop C23
func isNonSpaceZ(r rune) bool { return !unicode.IsSpace(r) }

//@ spec hasCommentPrefix
//@ prop C23 C21
func hasCommentPrefixZ(s string) bool {
	return strings.HasPrefix(s, "/*") || strings.HasPrefix(s, "--")
}

// Comments and white space at the start of the text: the end of the last comment, or of the white space behind it if
// something else follows; 0 if there is no comment.
//
//@ spec leadingCommentEnd
//@ prop C23 C21
//@ lockstep
func leadingCommentEndZ(text string) int {
	found := false
	pos := 0
	for pos < len(text) {
		zz.Keeps(0 <= pos && pos <= len(text))
		skip := strings.IndexFunc(text[pos:], func(r rune) bool { return !unicode.IsSpace(r) })
		if skip < 0 {
			break
		}
		pos += skip
		rest := text[pos:]
		if len(rest) < 4 || !strings.HasPrefix(rest, "/*") {
			break
		}
		n := strings.Index(rest[2:], "*/")
		if n < 0 {
			break
		}
		found = true
		pos += 2 + n + 2
	}
	zz.Ensures("within the text", 0 <= pos && pos <= len(text))
	if !found {
		return 0
	}
	return pos
}

// Comments and white space at the end of the text, from the end: the start of the first of them.
//
//@ spec trailingCommentStart
//@ prop C23 C21
//@ lockstep
func trailingCommentStartZ(text string) int {
	found := false
	end := len(text)
	for end > 0 {
		zz.Keeps(0 <= end && end <= len(text))
		n := len(strings.TrimRightFunc(text[:end], unicode.IsSpace))
		if n == 0 {
			break
		}
		end = n
		if end < 4 || text[end-2:end] != "*/" {
			break
		}
		at := strings.LastIndex(text[:end-2], "/*")
		if at < 0 {
			break
		}
		found = true
		end = at
	}
	zz.Ensures("within the text", 0 <= end && end <= len(text))
	if !found {
		return len(text)
	}
	return end
}

// The comments in front of and behind the statement; the white space around the three is dropped.
//
//@ spec SplitMarginComments
//@ prop C23
//@ pure sqlparser.trailingCommentStart
//@ pure sqlparser.leadingCommentEnd
func splitMarginCommentsZ(sql string) (string, MarginComments) {
	b := trailingCommentStart(sql)
	zz.Requires(0 <= b && b <= len(sql)) // "within the text"
	a := leadingCommentEnd(sql[:b])
	zz.Requires(0 <= a && a <= b) // "within the text"
	return strings.TrimFunc(sql[a:b], unicode.IsSpace), MarginComments{
		Leading:  strings.TrimLeftFunc(sql[:a], unicode.IsSpace),
		Trailing: strings.TrimRightFunc(sql[b:], unicode.IsSpace),
	}
}

// As long as the text starts with a comment: what follows the comment. A comment that does not end, and one that holds
// a statement for MySQL, stay.
//
//@ spec StripLeadingComments
//@ prop C23
//@ lockstep
func stripLeadingCommentsZ(sql string) string {
	s := strings.TrimFunc(sql, unicode.IsSpace)
	for strings.HasPrefix(s, "/*") || strings.HasPrefix(s, "--") {
		if strings.HasPrefix(s, "/*") {
			n := strings.Index(s, "*/")
			if n <= 1 || len(s) > 2 && s[2] == '!' {
				return s
			}
			s = s[n+2:]
		} else {
			n := strings.Index(s, "\n")
			if n < 0 {
				return s
			}
			s = s[n+1:]
		}
		s = strings.TrimFunc(s, unicode.IsSpace)
	}
	return s
}
