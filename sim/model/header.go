package model

import (
	"fmt"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/sim"
)

// ---------------------------------------------------------------- dates

// Date is a date as git writes it.
type Date struct {
	Text   string
	Format string
	Zoned  bool // the text determines the instant
	Unix   int64
	Civil  [6]int // year, month, day, hour, minute, second as written
}

var dayNames = []string{"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"} // from 1970-01-01
var monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// CivilOf converts seconds since 1970 to a date of the Gregorian calendar.
func CivilOf(sec int64) (c [6]int, weekday int) {
	days := floorDiv(sec, 86400)
	rem := sec - days*86400
	c[3], c[4], c[5] = int(rem/3600), int(rem/60%60), int(rem%60)
	weekday = int(((days % 7) + 7) % 7)
	z := days + 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	c[2] = int(doy - (153*mp+2)/5 + 1)
	m := mp + 3
	if m > 12 {
		m -= 12
		y++
	}
	c[0], c[1] = int(y), int(m)
	return c, weekday
}

// DateFormats are the formats of git's --date flag.
var DateFormats = []string{"default", "iso", "iso-strict", "rfc", "short", "local", "unix", "raw"}

// MakeDate writes an instant at an offset (seconds east) in a format.
func MakeDate(format string, unix int64, off int64) Date {
	c, wd := CivilOf(unix + off)
	d := Date{Format: format, Unix: unix, Zoned: true, Civil: c}
	sign, a := "+", off
	if off < 0 {
		sign, a = "-", -off
	}
	zone := fmt.Sprintf("%s%02d%02d", sign, a/3600, a/60%60)
	switch format {
	case "default":
		d.Text = fmt.Sprintf("%s %s %d %02d:%02d:%02d %04d %s", dayNames[wd], monthNames[c[1]-1], c[2], c[3], c[4], c[5], c[0], zone)
	case "iso":
		d.Text = fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d %s", c[0], c[1], c[2], c[3], c[4], c[5], zone)
	case "iso-strict":
		z := zone[:3] + ":" + zone[3:]
		if off == 0 && unix%2 == 0 { // as git does since 2.45
			z = "Z"
		}
		d.Text = fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s", c[0], c[1], c[2], c[3], c[4], c[5], z)
	case "rfc":
		d.Text = fmt.Sprintf("%s, %d %s %04d %02d:%02d:%02d %s", dayNames[wd], c[2], monthNames[c[1]-1], c[0], c[3], c[4], c[5], zone)
	case "short":
		d.Text = fmt.Sprintf("%04d-%02d-%02d", c[0], c[1], c[2])
		d.Zoned = false
		d.Civil[3], d.Civil[4], d.Civil[5] = 0, 0, 0
	case "local":
		d.Text = fmt.Sprintf("%s %s %d %02d:%02d:%02d %04d", dayNames[wd], monthNames[c[1]-1], c[2], c[3], c[4], c[5], c[0])
		d.Zoned = false
	case "unix":
		d.Text = fmt.Sprint(unix)
	case "raw":
		d.Text = fmt.Sprintf("%d %s", unix, zone)
	}
	return d
}

var offsets = []int64{0, 3600, -7 * 3600, 5*3600 + 1800, 5*3600 + 45*60, -3*3600 - 1800, 14 * 3600, -12 * 3600, 2 * 3600, -5 * 3600, 9*3600 + 1800, 12*3600 + 45*60, -8 * 3600, 13 * 3600}

// GenInstant draws a moment, biased to interesting ones.
func GenInstant(r *sim.Run) int64 {
	switch r.Pick(4, 2, 2, 1) {
	case 1: // around daylight saving changes and the epoch
		base := []int64{0, 1585447200, 1583650800, 1603587600, 1604224800, 951782400, 1709164800, 2147483647, 978307200, -1, 1130036400, 1586656883}[r.N(12)]
		if r.Chance(1, 4) {
			return base
		}
		return base + int64(r.N(7201)) - 3600
	case 2:
		return int64(r.N(1 << 30))
	case 3: // anything with a year of four digits
		base := []int64{1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, 1e10, 1e11, 253402300799 - 86400, -(1 << 31), -(1 << 32), -1e10, -62135596800 + 400*86400}[r.N(11)]
		switch r.N(3) {
		case 0:
			return base
		case 1:
			return base - int64(r.N(86400))
		}
		return base/2 + int64(r.N(1<<31)) - 1<<30
	}
	return 1_500_000_000 + int64(r.N(300_000_000))
}

// GenDate draws a date.
func GenDate(r *sim.Run) Date {
	f := DateFormats[r.N(len(DateFormats))]
	u := GenInstant(r)
	return MakeDate(f, u, offsets[r.N(len(offsets))]).otherSign(r)
}

// otherSign sometimes writes UTC as some programs do.
func (d Date) otherSign(r *sim.Run) Date {
	if s := strings.TrimSuffix(d.Text, " +0000"); s != d.Text && r.Chance(1, 4) {
		d.Text = s + " -0000"
	}
	return d
}

// MailDate draws the date of a mail.
func MailDate(r *sim.Run) Date { return MakeDate("rfc", GenInstant(r), GenOffset(r)).otherSign(r) }

// ---------------------------------------------------------------- preambles

// Header is a preamble.
type Header struct {
	Text  string
	Dates []Date // author's, committer's
	Mail  bool
}

var people = []string{"A U Thor <author@example.com>", "\"Quo\\\"ted\" <q@example.com>", "plain@example.com", "Name (Comment) <n@x>", "Ünï Cödé <u@example.com>", "No Mail <>", "<only@mail>", "mail@x (Name)", "A B C <a.b@c.d> trailing"}

var subjects = []string{"Change things", "[PATCH v2 1/3] Change things", "Re: [PATCH] Re: x", "=?UTF-8?q?=F0=9F=A4=96=20robot?=", "=?UTF-8?q?[PATCH]=20long=20line=20of=20?=\n =?UTF-8?q?subject?=", "[not a patch] x", ":: odd", "", "=?UTF-8?q?bad=Z?="}

// GenHeader draws a preamble of a supported format.
func GenHeader(r *sim.Run) Header {
	b := choice.NewBulk(r.Seed())
	who := func() string { return people[r.N(len(people))] }
	body := func(indent string) string {
		var s strings.Builder
		for i := r.N(5); i > 0; i-- {
			switch b.N(6) {
			case 0:
				s.WriteString("\n")
			case 1:
				s.WriteString(indent + "---\n")
			case 2:
				s.WriteString(indent + "    code\n")
			default:
				s.WriteString(indent + fmt.Sprintf("Line %d of text.\n", b.N(100)))
			}
		}
		return s.String()
	}
	var h Header
	sha := hex(b, 40)
	if r.Bool() {
		h.Mail = true
		d := GenDate(r)
		h.Dates = []Date{d}
		deco := ""
		if r.Bool() {
			deco, _ = GenDeco(r)
		}
		if r.Chance(5, 6) {
			h.Text = "From " + sha + " Mon Sep 17 00:00:00 2001\n"
		}
		h.Text += "From: " + who() + "\nDate: " + d.Text + "\nSubject: " + deco + subjects[r.N(len(subjects))] + "\n\n" + body("")
		return h
	}
	h.Text = "commit " + sha
	if r.Chance(1, 4) {
		h.Text += " (HEAD -> main)"
	}
	h.Text += "\n"
	a := GenDate(r)
	switch r.N(4) {
	case 0: // medium
		h.Text += "Author: " + who() + "\nDate:   " + a.Text + "\n"
		h.Dates = []Date{a}
	case 1: // fuller
		c := GenDate(r)
		h.Text += "Author:     " + who() + "\nAuthorDate: " + a.Text + "\nCommit:     " + who() + "\nCommitDate: " + c.Text + "\n"
		h.Dates = []Date{a, c}
	case 2: // short
		h.Text += "Author: " + who() + "\n"
	case 3: // full
		h.Text += "Author: " + who() + "\nCommit: " + who() + "\n"
	}
	h.Text += "\n    A title\n\n" + body("    ")
	return h
}

// GenIdent draws an identity string, well-formed or not.
func GenIdent(r *sim.Run) string {
	if r.Chance(2, 3) {
		return people[r.N(len(people))]
	}
	b := choice.NewBulk(r.Seed())
	var s strings.Builder
	for i := r.N(30); i > 0; i-- {
		s.WriteString([]string{"a", "B", " ", "<", ">", "@", "\"", "\\", "(", ")", "\t", "\n", ".", "é", "\xff", ",", "\x00"}[b.N(17)])
	}
	return s.String()
}

// GNUStamp writes an instant as GNU diff does, at some offset.
func GNUStamp(r *sim.Run, unix int64) string {
	d := MakeDate("iso", unix, offsets[r.N(len(offsets))])
	frac := []string{"", ".000000000", ".0", ".000000"}[r.Pick(2, 4, 1, 1)]
	if unix != 0 && r.Bool() {
		frac = ".123456789"
	}
	date, zone := d.Text[:len("2006-01-02 15:04:05")], d.Text[len("2006-01-02 15:04:05"):]
	if r.Chance(1, 4) {
		zone = zone[:len(zone)-2] + ":" + zone[len(zone)-2:]
	}
	return date + frac + zone
}
