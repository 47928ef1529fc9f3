// Package verifmodel gives Go bodies for library functions that call back into
// the verified code. It is loaded next to the repository through an overlay and
// never becomes part of it. Functions without a body are the verifier's primitives.
package verifmodel

import "regexp"

// reCount is the number of successive non-overlapping matches of re in s,
// reTok the text of match j, reLit the text between match j-1 and match j.
func reCount(re *regexp.Regexp, s string) int         { panic("primitive") }
func reTok(re *regexp.Regexp, s string, j int) string { panic("primitive") }
func reLit(re *regexp.Regexp, s string, j int) string { panic("primitive") }

func RegexpReplaceAllStringFunc(re *regexp.Regexp, src string, repl func(string) string) string {
	n := reCount(re, src)
	out := ""
	for j := 0; j < n; j++ {
		out += reLit(re, src, j) + repl(reTok(re, src, j))
	}
	return out + reLit(re, src, n)
}
