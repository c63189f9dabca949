// Code generated by mkshim; DO NOT EDIT.

// Package bytes is the standard package with its work charged to the simulator.
package bytes

import (
	std "bytes"
	"gitdiffsim/simrt"
	"iter"
	"unicode"
)

func found(i, n int) int {
	if i < 0 {
		return n
	}
	return i
}

func total(l [][]byte) (n int) {
	for _, x := range l {
		n += len(x) + 1
	}
	return
}

// rest is what a limited split did not look at.
func rest(l [][]byte, n int) int {
	if n > 0 && len(l) == n {
		return len(l[n-1])
	}
	return 0
}

func eq(a, b []byte) int {
	if len(a) != len(b) {
		return 0
	}
	return len(a)
}

type Buffer = std.Buffer

func Clone(a []byte) (r0 []byte) {
	r0 = std.Clone(a)
	simrt.Work(0 + len(a))
	return
}

func Compare(a []byte, b []byte) (r0 int) {
	r0 = std.Compare(a, b)
	simrt.Work(min(len(a), len(b)))
	return
}

func Contains(a []byte, b []byte) (r0 bool) {
	r0 = std.Contains(a, b)
	simrt.Work(found(std.Index(a, b), len(a)))
	return
}

func ContainsAny(a []byte, b string) (r0 bool) {
	r0 = std.ContainsAny(a, b)
	simrt.Work(found(std.IndexAny(a, b), len(a)))
	return
}

func ContainsFunc(a []byte, b func(rune) bool) (r0 bool) {
	return std.ContainsFunc(a, b)
}

func ContainsRune(a []byte, b rune) (r0 bool) {
	r0 = std.ContainsRune(a, b)
	simrt.Work(found(std.IndexRune(a, b), len(a)))
	return
}

func Count(a []byte, b []byte) (r0 int) {
	r0 = std.Count(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func Cut(a []byte, b []byte) (r0 []byte, r1 []byte, r2 bool) {
	r0, r1, r2 = std.Cut(a, b)
	simrt.Work(len(r0) + len(b))
	return
}

func CutLast(a []byte, b []byte) (r0 []byte, r1 []byte, r2 bool) {
	r0, r1, r2 = std.CutLast(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func CutPrefix(a []byte, b []byte) (r0 []byte, r1 bool) {
	r0, r1 = std.CutPrefix(a, b)
	simrt.Work(len(b))
	return
}

func CutSuffix(a []byte, b []byte) (r0 []byte, r1 bool) {
	r0, r1 = std.CutSuffix(a, b)
	simrt.Work(len(b))
	return
}

func Equal(a []byte, b []byte) (r0 bool) {
	r0 = std.Equal(a, b)
	simrt.Work(eq(a, b))
	return
}

func EqualFold(a []byte, b []byte) (r0 bool) {
	r0 = std.EqualFold(a, b)
	simrt.Work(min(len(a), len(b)))
	return
}

var ErrTooLarge = std.ErrTooLarge

func Fields(a []byte) (r0 [][]byte) {
	r0 = std.Fields(a)
	simrt.Work(0 + len(a))
	return
}

func FieldsFunc(a []byte, b func(rune) bool) (r0 [][]byte) {
	r0 = std.FieldsFunc(a, b)
	simrt.Work(0 + len(a))
	return
}

func FieldsFuncSeq(a []byte, b func(rune) bool) (r0 iter.Seq[[]byte]) {
	return std.FieldsFuncSeq(a, b)
}

func FieldsSeq(a []byte) (r0 iter.Seq[[]byte]) {
	return std.FieldsSeq(a)
}

func HasPrefix(a []byte, b []byte) (r0 bool) {
	r0 = std.HasPrefix(a, b)
	simrt.Work(len(b))
	return
}

func HasSuffix(a []byte, b []byte) (r0 bool) {
	r0 = std.HasSuffix(a, b)
	simrt.Work(len(b))
	return
}

func Index(a []byte, b []byte) (r0 int) {
	r0 = std.Index(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexAny(a []byte, b string) (r0 int) {
	r0 = std.IndexAny(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexByte(a []byte, b byte) (r0 int) {
	r0 = std.IndexByte(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexFunc(a []byte, b func(r rune) bool) (r0 int) {
	r0 = std.IndexFunc(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func IndexRune(a []byte, b rune) (r0 int) {
	r0 = std.IndexRune(a, b)
	simrt.Work(found(r0, len(a)))
	return
}

func Join(a [][]byte, b []byte) (r0 []byte) {
	r0 = std.Join(a, b)
	simrt.Work(0 + total(a) + len(b))
	return
}

func LastIndex(a []byte, b []byte) (r0 int) {
	r0 = std.LastIndex(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func LastIndexAny(a []byte, b string) (r0 int) {
	r0 = std.LastIndexAny(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func LastIndexByte(a []byte, b byte) (r0 int) {
	r0 = std.LastIndexByte(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func LastIndexFunc(a []byte, b func(r rune) bool) (r0 int) {
	r0 = std.LastIndexFunc(a, b)
	simrt.Work(len(a) - max(r0, 0))
	return
}

func Lines(a []byte) (r0 iter.Seq[[]byte]) {
	return std.Lines(a)
}

func Map(a func(r rune) rune, b []byte) (r0 []byte) {
	r0 = std.Map(a, b)
	simrt.Work(0 + len(b))
	return
}

const MinRead = std.MinRead

func NewBuffer(a []byte) (r0 *std.Buffer) {
	return std.NewBuffer(a)
}

func NewBufferString(a string) (r0 *std.Buffer) {
	return std.NewBufferString(a)
}

func NewReader(a []byte) (r0 *std.Reader) {
	return std.NewReader(a)
}

type Reader = std.Reader

func Repeat(a []byte, b int) (r0 []byte) {
	r0 = std.Repeat(a, b)
	simrt.Work(0 + len(a))
	return
}

func Replace(a []byte, b []byte, p2 []byte, p3 int) (r0 []byte) {
	r0 = std.Replace(a, b, p2, p3)
	simrt.Work(0 + len(a) + len(b) + len(p2))
	return
}

func ReplaceAll(a []byte, b []byte, p2 []byte) (r0 []byte) {
	r0 = std.ReplaceAll(a, b, p2)
	simrt.Work(0 + len(a) + len(b) + len(p2))
	return
}

func Runes(a []byte) (r0 []rune) {
	r0 = std.Runes(a)
	simrt.Work(len(a))
	return
}

func Split(a []byte, b []byte) (r0 [][]byte) {
	r0 = std.Split(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func SplitAfter(a []byte, b []byte) (r0 [][]byte) {
	r0 = std.SplitAfter(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func SplitAfterN(a []byte, b []byte, p2 int) (r0 [][]byte) {
	r0 = std.SplitAfterN(a, b, p2)
	simrt.Work(len(a) - rest(r0, p2))
	return
}

func SplitAfterSeq(a []byte, b []byte) (r0 iter.Seq[[]byte]) {
	return std.SplitAfterSeq(a, b)
}

func SplitN(a []byte, b []byte, p2 int) (r0 [][]byte) {
	r0 = std.SplitN(a, b, p2)
	simrt.Work(len(a) - rest(r0, p2))
	return
}

func SplitSeq(a []byte, b []byte) (r0 iter.Seq[[]byte]) {
	return std.SplitSeq(a, b)
}

func Title(a []byte) (r0 []byte) {
	r0 = std.Title(a)
	simrt.Work(0 + len(a))
	return
}

func ToLower(a []byte) (r0 []byte) {
	r0 = std.ToLower(a)
	simrt.Work(0 + len(a))
	return
}

func ToLowerSpecial(a unicode.SpecialCase, b []byte) (r0 []byte) {
	r0 = std.ToLowerSpecial(a, b)
	simrt.Work(0 + len(b))
	return
}

func ToTitle(a []byte) (r0 []byte) {
	r0 = std.ToTitle(a)
	simrt.Work(0 + len(a))
	return
}

func ToTitleSpecial(a unicode.SpecialCase, b []byte) (r0 []byte) {
	r0 = std.ToTitleSpecial(a, b)
	simrt.Work(0 + len(b))
	return
}

func ToUpper(a []byte) (r0 []byte) {
	r0 = std.ToUpper(a)
	simrt.Work(0 + len(a))
	return
}

func ToUpperSpecial(a unicode.SpecialCase, b []byte) (r0 []byte) {
	r0 = std.ToUpperSpecial(a, b)
	simrt.Work(0 + len(b))
	return
}

func ToValidUTF8(a []byte, b []byte) (r0 []byte) {
	r0 = std.ToValidUTF8(a, b)
	simrt.Work(0 + len(a) + len(b))
	return
}

func Trim(a []byte, b string) (r0 []byte) {
	r0 = std.Trim(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimFunc(a []byte, b func(r rune) bool) (r0 []byte) {
	r0 = std.TrimFunc(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimLeft(a []byte, b string) (r0 []byte) {
	r0 = std.TrimLeft(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimLeftFunc(a []byte, b func(r rune) bool) (r0 []byte) {
	r0 = std.TrimLeftFunc(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimPrefix(a []byte, b []byte) (r0 []byte) {
	r0 = std.TrimPrefix(a, b)
	simrt.Work(len(b))
	return
}

func TrimRight(a []byte, b string) (r0 []byte) {
	r0 = std.TrimRight(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimRightFunc(a []byte, b func(r rune) bool) (r0 []byte) {
	r0 = std.TrimRightFunc(a, b)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimSpace(a []byte) (r0 []byte) {
	r0 = std.TrimSpace(a)
	simrt.Work(len(a) - len(r0))
	return
}

func TrimSuffix(a []byte, b []byte) (r0 []byte) {
	r0 = std.TrimSuffix(a, b)
	simrt.Work(len(b))
	return
}
