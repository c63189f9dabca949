// Code generated by mkshim; DO NOT EDIT.

// Package strings is the standard package with its work charged to the simulator.
package strings

import (
	"gitdiffsim/simrt"
	"iter"
	std "strings"
	"unicode"
)

func found(i, n int) int {
	if i < 0 {
		return n
	}
	return i
}

func total(l []string) (n int) {
	for _, x := range l {
		n += len(x) + 1
	}
	return
}

// rest is what a limited split did not look at.
func rest(l []string, n int) int {
	if n > 0 && len(l) == n {
		return len(l[n-1])
	}
	return 0
}

type Builder = std.Builder

func Clone(a string) (r0 string) {
	r0 = std.Clone(a)
	simrt.Work(0 + len(a))
	return
}

func Compare(a string, b string) (r0 int) {
	r0 = std.Compare(a, b)
	simrt.Work(min(len(a), len(b)))
	return
}

func Contains(a string, b string) (r0 bool) {
	r0 = std.Contains(a, b)
	simrt.Work(found(std.Index(a, b), len(a)))
	return
}

func ContainsAny(a string, b string) (r0 bool) {
	r0 = std.ContainsAny(a, b)
	simrt.Work(found(std.IndexAny(a, b), len(a)))
	return
}

func ContainsFunc(a string, b func(rune) bool) (r0 bool) {
	return std.ContainsFunc(a, b)
}

func ContainsRune(a string, b rune) (r0 bool) {
	r0 = std.ContainsRune(a, b)
	simrt.Work(found(std.IndexRune(a, b), len(a)))
	return
}

func Count(a string, b string) (r0 int) {
	r0 = std.Count(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func Cut(a string, b string) (r0 string, r1 string, r2 bool) {
	r0, r1, r2 = std.Cut(a, b)
	simrt.Work(len(r0) + len(b))
	return
}

func CutLast(a string, b string) (r0 string, r1 string, r2 bool) {
	r0, r1, r2 = std.CutLast(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func CutPrefix(a string, b string) (r0 string, r1 bool) {
	r0, r1 = std.CutPrefix(a, b)
	simrt.Work(len(b))
	return
}

func CutSuffix(a string, b string) (r0 string, r1 bool) {
	r0, r1 = std.CutSuffix(a, b)
	simrt.Work(len(b))
	return
}

func EqualFold(a string, b string) (r0 bool) {
	r0 = std.EqualFold(a, b)
	simrt.Work(min(len(a), len(b)))
	return
}

func Fields(a string) (r0 []string) {
	r0 = std.Fields(a)
	simrt.Work(0 + len(a))
	return
}

func FieldsFunc(a string, b func(rune) bool) (r0 []string) {
	r0 = std.FieldsFunc(a, b)
	simrt.Work(0 + len(a))
	return
}

func FieldsFuncSeq(a string, b func(rune) bool) (r0 iter.Seq[string]) {
	return std.FieldsFuncSeq(a, b)
}

func FieldsSeq(a string) (r0 iter.Seq[string]) {
	return std.FieldsSeq(a)
}

func HasPrefix(a string, b string) (r0 bool) {
	r0 = std.HasPrefix(a, b)
	simrt.Work(len(b))
	return
}

func HasSuffix(a string, b string) (r0 bool) {
	r0 = std.HasSuffix(a, b)
	simrt.Work(len(b))
	return
}

func Index(a string, b string) (r0 int) {
	r0 = std.Index(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexAny(a string, b string) (r0 int) {
	r0 = std.IndexAny(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexByte(a string, b byte) (r0 int) {
	r0 = std.IndexByte(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexFunc(a string, b func(rune) bool) (r0 int) {
	r0 = std.IndexFunc(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexRune(a string, b rune) (r0 int) {
	r0 = std.IndexRune(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func Join(a []string, b string) (r0 string) {
	r0 = std.Join(a, b)
	simrt.Work(0 + total(a) + len(b))
	return
}

func LastIndex(a string, b string) (r0 int) {
	r0 = std.LastIndex(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func LastIndexAny(a string, b string) (r0 int) {
	r0 = std.LastIndexAny(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func LastIndexByte(a string, b byte) (r0 int) {
	r0 = std.LastIndexByte(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func LastIndexFunc(a string, b func(rune) bool) (r0 int) {
	r0 = std.LastIndexFunc(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func Lines(a string) (r0 iter.Seq[string]) {
	return std.Lines(a)
}

func Map(a func(rune) rune, b string) (r0 string) {
	r0 = std.Map(a, b)
	simrt.Work(0 + len(b))
	return
}

func NewReader(a string) (r0 *std.Reader) {
	return std.NewReader(a)
}

func NewReplacer(a ...string) (r0 *std.Replacer) {
	return std.NewReplacer(a...)
}

type Reader = std.Reader

func Repeat(a string, b int) (r0 string) {
	r0 = std.Repeat(a, b)
	simrt.Work(0 + len(a))
	return
}

func Replace(a string, b string, p2 string, p3 int) (r0 string) {
	r0 = std.Replace(a, b, p2, p3)
	simrt.Work(0 + len(a) + len(b) + len(p2))
	return
}

func ReplaceAll(a string, b string, p2 string) (r0 string) {
	r0 = std.ReplaceAll(a, b, p2)
	simrt.Work(0 + len(a) + len(b) + len(p2))
	return
}

type Replacer = std.Replacer

func Split(a string, b string) (r0 []string) {
	r0 = std.Split(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func SplitAfter(a string, b string) (r0 []string) {
	r0 = std.SplitAfter(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func SplitAfterN(a string, b string, p2 int) (r0 []string) {
	r0 = std.SplitAfterN(a, b, p2)
	simrt.Work(len(a) - rest(r0, p2))
	return
}

func SplitAfterSeq(a string, b string) (r0 iter.Seq[string]) {
	return std.SplitAfterSeq(a, b)
}

func SplitN(a string, b string, p2 int) (r0 []string) {
	r0 = std.SplitN(a, b, p2)
	simrt.Work(len(a) - rest(r0, p2))
	return
}

func SplitSeq(a string, b string) (r0 iter.Seq[string]) {
	return std.SplitSeq(a, b)
}

func Title(a string) (r0 string) {
	r0 = std.Title(a)
	simrt.Work(0 + len(a))
	return
}

func ToLower(a string) (r0 string) {
	r0 = std.ToLower(a)
	simrt.Work(0 + len(a))
	return
}

func ToLowerSpecial(a unicode.SpecialCase, b string) (r0 string) {
	r0 = std.ToLowerSpecial(a, b)
	simrt.Work(0 + len(b))
	return
}

func ToTitle(a string) (r0 string) {
	r0 = std.ToTitle(a)
	simrt.Work(0 + len(a))
	return
}

func ToTitleSpecial(a unicode.SpecialCase, b string) (r0 string) {
	r0 = std.ToTitleSpecial(a, b)
	simrt.Work(0 + len(b))
	return
}

func ToUpper(a string) (r0 string) {
	r0 = std.ToUpper(a)
	simrt.Work(0 + len(a))
	return
}

func ToUpperSpecial(a unicode.SpecialCase, b string) (r0 string) {
	r0 = std.ToUpperSpecial(a, b)
	simrt.Work(0 + len(b))
	return
}

func ToValidUTF8(a string, b string) (r0 string) {
	r0 = std.ToValidUTF8(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func Trim(a string, b string) (r0 string) {
	r0 = std.Trim(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimFunc(a string, b func(rune) bool) (r0 string) {
	r0 = std.TrimFunc(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimLeft(a string, b string) (r0 string) {
	r0 = std.TrimLeft(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimLeftFunc(a string, b func(rune) bool) (r0 string) {
	r0 = std.TrimLeftFunc(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimPrefix(a string, b string) (r0 string) {
	r0 = std.TrimPrefix(a, b)
	simrt.Work(len(b))
	return
}

func TrimRight(a string, b string) (r0 string) {
	r0 = std.TrimRight(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimRightFunc(a string, b func(rune) bool) (r0 string) {
	r0 = std.TrimRightFunc(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimSpace(a string) (r0 string) {
	r0 = std.TrimSpace(a)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimSuffix(a string, b string) (r0 string) {
	r0 = std.TrimSuffix(a, b)
	simrt.Work(len(b))
	return
}
