package props

import (
	"bytes"
	"fmt"
	"strings"
	"time"
	_ "time/tzdata"

	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"
	"gitdiffsim/simrt"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C19", Quick: 400000, Thorough: 20000000,
		Rule: "Each run draws several hosts with different local time zones (fixed, half-hour, with daylight saving, zones whose rules changed), dates in all of git's formats at instants around zone transitions and the epoch, patch headers and GNU diff headers with time stamps; every host parses all of them, while its zone is changed at drawn statements of the library; instants are compared with an independent calendar computation, headers and files with what was written. Non-trivial: hosts had different zones.",
		Body: c19,
		Stub: "the host's time zone (time.Local), patch streams, the clock, package sync (simulated)",
	})
}

var zoneNames = []string{"UTC", "America/New_York", "Europe/London", "Europe/Berlin", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Kiritimati", "Pacific/Apia", "America/St_Johns", "Africa/Casablanca", "Africa/Monrovia", "Pacific/Marquesas", "Etc/GMT+12"}

var zones = map[string]*time.Location{}

func zone(name string) *time.Location {
	if l, ok := zones[name]; ok {
		return l
	}
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(fmt.Sprintf("zone %s: %v", name, err))
	}
	zones[name] = l
	return l
}

func genZone(r *sim.Run) *time.Location {
	if r.Chance(1, 4) {
		off := []int{3600, -3600, 19800, -12600, 50400, -43200, 1, 20700}[r.N(8)]
		name := []string{"X", "MST", "", "UTC", "GMT"}[r.N(5)]
		return time.FixedZone(name, off)
	}
	return zone(zoneNames[r.N(len(zoneNames))])
}

// showsAs tells whether instant t reads as c on a clock in l, or would but for
// a gap in the local time.
func showsAs(t time.Time, c [6]int, l *time.Location) bool {
	x := t.In(l)
	if x.Year() == c[0] && int(x.Month()) == c[1] && x.Day() == c[2] && x.Hour() == c[3] && x.Minute() == c[4] && x.Second() == c[5] {
		return true
	}
	// in a gap no instant shows this time
	u := time.Date(c[0], time.Month(c[1]), c[2], c[3], c[4], c[5], 0, l)
	if u.Hour() == c[3] && u.Minute() == c[4] && u.Day() == c[2] {
		return false
	}
	d := t.Sub(u)
	return d <= 26*time.Hour && d >= -26*time.Hour
}

func c19(r *sim.Run) {
	var dates []model.Date
	for n := 1 + r.N(4); n > 0; n-- {
		dates = append(dates, model.GenDate(r))
	}
	h := model.GenHeader(r)
	p := gnuPatch(r)
	hosts := 2 + r.N(3)
	r.NonTrivial()
	names := []string{}
	first := ""
	for i := 0; i < hosts; i++ {
		used := []*time.Location{genZone(r)}
		time.Local = used[0]
		names = append(names, time.Local.String())
		r.Ev("host", time.Local.String())
		wander := r.Chance(1, 3)
		// call runs f, possibly with the zone changing meanwhile, and tells
		// which zones were current
		call := func(what string, span int, f func()) []*time.Location {
			used = used[len(used)-1:]
			if wander {
				n := int64(1 + r.N(span))
				r.After(n, func() {
					z := genZone(r)
					used = append(used, z)
					time.Local = z
					r.Fault("clock: time zone changed during a call")
				})
			}
			r.Call(what, 0, f)
			r.NoAlarm()
			return used
		}
		for _, d := range dates {
			var t time.Time
			var err error
			z := call("ParsePatchDate", 8, func() { t, err = gitdiff.ParsePatchDate(d.Text) })
			r.Ev("date", d.Text, errStr(err))
			if err != nil {
				r.Fail("date not parsed: "+d.Format, "%q on a host in %v: %v", d.Text, z, err)
			}
			checkDate(r, d, t, z)
		}
		var x *gitdiff.PatchHeader
		var err error
		z := call("ParsePatchHeader", 150, func() { x, err = gitdiff.ParsePatchHeader(h.Text) })
		if err == nil {
			if len(h.Dates) > 0 {
				checkDate(r, h.Dates[0], x.AuthorDate, z)
			} else if !x.AuthorDate.IsZero() {
				r.Fail("date was invented", "author date %v from %q", x.AuthorDate, h.Text)
			}
			if len(h.Dates) > 1 {
				checkDate(r, h.Dates[1], x.CommitterDate, z)
			}
			for k, d := range h.Dates {
				if !d.Zoned { // checked above
					if k == 0 {
						x.AuthorDate = time.Time{}
					} else {
						x.CommitterDate = time.Time{}
					}
				}
			}
		}
		desc := headerDesc(x, err)
		if i == 0 {
			first = desc
		} else if desc != first {
			r.Fail("header differs between hosts", "%s on the first, %s in %v; header %q", first, desc, z, h.Text)
		}
		st := seam.NewStream(r, "patch", p.Text)
		rd := st.Reader(true)
		var files []*gitdiff.File
		z = call("Parse", 300, func() { files, _, err = gitdiff.Parse(rd) })
		if err != nil {
			r.Fail("well-formed patch rejected", "on a host in %v: %v", z, err)
		}
		if d := model.DiffFiles(p.Want(), files); d != "" {
			r.Fail("files differ between hosts", "on a host in %v: %s\n%s", z, d, excerpt(p, nil))
		}
	}
	r.Sample("hosts in %v; dates %v; %s", names, dateTexts(dates), p.Kinds())
	if simrt.Instrumented == 0 {
		r.Probe("plain build: no zone changes within calls")
	}
}

func dateTexts(d []model.Date) string {
	var s []string
	for _, x := range d {
		s = append(s, x.Text)
	}
	return strings.Join(s, "; ")
}

func checkDate(r *sim.Run, d model.Date, t time.Time, z []*time.Location) {
	if d.Zoned {
		if t.Unix() != d.Unix || t.Nanosecond() != 0 {
			r.Fail("date denotes another instant: "+d.Format, "%q is %d, got %d (%v) on a host in %v", d.Text, d.Unix, t.Unix(), t, z)
		}
		return
	}
	for _, l := range z {
		if showsAs(t, d.Civil, l) {
			return
		}
	}
	r.Fail("date without a zone is not in the local zone: "+d.Format, "%q gave %v on a host in %v", d.Text, t, z)
}

// gnuPatch draws a patch in GNU format whose time stamps decide what happens
// to the files.
func gnuPatch(r *sim.Run) *model.Patch {
	p := &model.Patch{}
	var b bytes.Buffer
	for n := 1 + r.N(3); n > 0; n-- {
		name := fmt.Sprintf("dir/file%d", n)
		oldT, newT := model.GenInstant(r), model.GenInstant(r)
		f := &gitdiff.File{OldName: name, NewName: name}
		kind := "gnu modify"
		// changes that could be a creation or a removal by their hunks alone
		h := &gitdiff.TextFragment{}
		switch r.N(3) {
		case 0: // old side empty
			model.Fill(h, []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "new\n"}})
			h.NewPosition, h.NewLines = 1, 1
			if r.Bool() {
				oldT = 0
			}
			if oldT == 0 {
				f.IsNew, f.OldName, kind = true, "", "gnu create"
			}
			if newT == 0 {
				newT = 1
			}
		case 1: // new side empty
			model.Fill(h, []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "old\n"}})
			h.OldPosition, h.OldLines = 1, 1
			if r.Bool() {
				newT = 0
			}
			if newT == 0 {
				f.IsDelete, f.NewName, kind = true, "", "gnu delete"
			}
			if oldT == 0 {
				oldT = 1
			}
		case 2:
			model.Fill(h, []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "old\n"}, {Op: gitdiff.OpAdd, Line: "new\n"}})
			h.OldPosition, h.OldLines, h.NewPosition, h.NewLines = 1, 1, 1, 1
			if oldT == 0 {
				oldT = 1
			}
			if newT == 0 {
				newT = -1
			}
		}
		f.TextFragments = []*gitdiff.TextFragment{h}
		fmt.Fprintf(&b, "--- %s\t%s\n+++ %s\t%s\n", name, model.GNUStamp(r, oldT), name, model.GNUStamp(r, newT))
		fmt.Fprintf(&b, "@@ -%d,%d +%d,%d @@\n", h.OldPosition, h.OldLines, h.NewPosition, h.NewLines)
		for _, l := range h.Lines {
			b.WriteString(l.Op.String() + l.Line)
		}
		p.Files = append(p.Files, &model.FileSpec{Want: f, Kind: kind})
	}
	p.Text = b.Bytes()
	return p
}
