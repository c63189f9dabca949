package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"
)

func init() {
	register(&Prop{
		ID: "C23", Quick: 150000, Thorough: 7500000,
		Rule: "Each run draws a patch, damages one line of it as C22 does or cuts it off, sometimes puts many lines in front of it, delivers it over a drawn stream, and compares the line number in the error with the place of the damage. Non-trivial: an error was reported.",
		Body: c23,
	})
}

var lineNumber = regexp.MustCompile(`\bline ([0-9]+)`)

// lineSpan is the lines, counted from 1, one of which an error must name.
type lineSpan struct{ lo, hi int }

func c23(r *sim.Run) {
	p := model.GenPatch(r, model.Opts{MinFiles: 1})
	if len(p.Files) == 0 {
		return
	}
	var text []byte
	var want []lineSpan
	var what, kind string
	if r.Chance(1, 5) {
		text, want, what = cutWhere(r, p)
		kind = "cut off"
	} else {
		h, ok := damage(r, p)
		for tries := 0; !ok && tries < 6; tries++ {
			h, ok = damage(r, p)
		}
		if !ok {
			return
		}
		text, want, what, kind = []byte(strings.Join(h.lines, "")), hurtWhere(p, &h), h.what, h.kind
	}
	front := 0
	if r.Chance(1, 8) {
		l := linesInFront(r)
		front = strings.Count(l, "\n")
		text = append([]byte(l), text...)
	}
	st := seam.NewStream(r, "patch", text)
	got := parse(r, st, true)
	where := fmt.Sprintf("%s %q in %s, %d lines in front, expecting line %v; error: %v", kind, what, p.Kinds(), front, want, got.err)
	r.Sample("%s", where)
	if got.err == nil {
		return // C09 and C22 judge that
	}
	r.NonTrivial()
	m := lineNumber.FindStringSubmatch(got.err.Error())
	if m == nil {
		r.Fail("error without line number: "+kind, "%s", where)
		return
	}
	n, _ := strconv.Atoi(m[1])
	for _, s := range want {
		if n >= s.lo+front && n <= s.hi+front {
			return
		}
	}
	r.Fail("error names another line: "+kind, "%s", where)
}

// hurtWhere returns the lines that may be named for damage: the damaged one,
// or, where several lines only together are wrong, the header of the hunk or
// the first line that cannot belong to it.
func hurtWhere(p *model.Patch, h *hurt) []lineSpan {
	at := 0
	for h.lines[at] == p.Lines[at].Text {
		at++
	}
	line := func(i int) int { return 1 + strings.Count(strings.Join(h.lines[:i], ""), "\n") }
	l := line(at)
	top, end := at, at
	for top > 0 && p.Lines[top].Kind != model.KHunk {
		top--
	}
	end = line(hunkEnd(p, at))
	switch h.kind {
	case "hunk header repeated", "file header lost":
		return []lineSpan{{l + 1, l + 1}}
	case "counts too large":
		return []lineSpan{{l, l}, {end, end}}
	case "counts too small", "no changes":
		return []lineSpan{{l, end}}
	case "another operator", "hunk line repeated":
		return []lineSpan{{line(top), line(top)}, {l, end}}
	case "hunk line lost":
		return []lineSpan{{line(top), line(top)}, {end, end}}
	case "hunk header lost":
		return []lineSpan{{end, end}}
	case "names differ without reason", "half a rename":
		i := at
		for i < len(p.Lines) && (i == at || p.Lines[i].Kind == model.KMeta) {
			i++
		}
		return []lineSpan{{l, line(i)}}
	}
	return []lineSpan{{l, l}}
}

// cutWhere ends a patch early. Errors may name a line from the header of the
// unfinished file on, up to the one that is missing.
func cutWhere(r *sim.Run, p *model.Patch) ([]byte, []lineSpan, string) {
	at := cutPoint(r, p)
	text := p.Text[:at:at]
	total := strings.Count(string(text), "\n")
	if at > 0 && text[at-1] != '\n' {
		total++
	}
	i := len(p.Lines) - 1
	for i > 0 && p.Lines[i].Pos >= at {
		i--
	}
	last := i
	s := lineSpan{total, total + 1}
	switch p.Lines[i].Kind {
	case model.KBody, model.KNoEOL:
		for p.Lines[i].Kind != model.KHunk {
			i--
		}
		return text, []lineSpan{s, {total - (last - i), total - (last - i)}}, fmt.Sprint("at byte ", at)
	}
	return text, []lineSpan{s}, fmt.Sprint("at byte ", at)
}

// linesInFront draws text to put in front of a patch, often very long.
func linesInFront(r *sim.Run) string {
	n := []int{1, 3, 62, 200, 255, 4000, 9995, 32765, 65533}[r.Pick(8, 8, 8, 8, 8, 4, 2, 1, 1)] + r.N(4)
	line := []string{"x\n", "\n", "some text\n", "\r\n", strings.Repeat("long ", 50) + "\n"}[r.N(5)]
	if n > 4003 {
		line = line[len(line)-1:]
	}
	return strings.Repeat(line, n)
}
