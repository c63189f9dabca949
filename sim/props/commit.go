package props

import (
	"fmt"
	"strings"
	"time"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/seam"
	"gitdiffsim/sim"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 100000, Thorough: 5000000,
		Rule: "Each run draws a series of one to three commits (ids, people, instants, titles and bodies in several scripts and up to 150 kB per line, bodies containing lines that look like patches and headers), writes each as git log/show (short, medium, full, fuller) or as a format-patch mail (folded, quoted and encoded as git does) that passes through mail relays (fields added, reordered, folded again, renamed in case, separator line removed), sends it with a patch over a stream that splits, stalls or fails and is repeated until it arrives, to one to three hosts in different time zones running under the seeded scheduler; every host reads patch and description in every subject clean mode and compares with the commit; identities are also read and formatted over several relays; some descriptions are damaged so that they must be refused. Non-trivial: a commit arrived.",
		Body: c20,
		Stub: "patch streams, mail relays, hosts' time zones, the clock, package sync (simulated)",
	})
}

// message is a commit description in transit.
type message struct {
	c      *model.Commit
	text   string // description
	want   gitdiff.PatchHeader
	dates  []model.Date
	mail   bool
	deco   string
	only   int
	format string
	patch  []byte
	bad    string // why it must be refused
}

func genMessage(r *sim.Run) *message {
	m := &message{}
	m.mail = r.Bool()
	m.c = model.GenCommit(r, !m.mail)
	ident := func(i model.Ident) *gitdiff.PatchIdentity {
		return &gitdiff.PatchIdentity{Name: i.Name, Email: i.Email}
	}
	m.want.Author = ident(m.c.Author)
	m.want.Title, m.want.Body = m.c.Title, m.c.Body
	m.want.SHA = m.c.SHA
	if m.mail {
		m.format = "mail"
		d := model.MailDate(r)
		m.deco, m.only = model.GenDeco(r)
		if m.c.Encoded() && m.deco != "" && !strings.HasSuffix(m.deco, " ") {
			if m.only == len(m.deco) {
				m.only++
			}
			m.deco += " "
		}
		x := m.c.Mail(r, m.deco, d)
		if r.Bool() {
			x.Relay(r)
		}
		if x.From == "" {
			m.want.SHA = ""
		}
		m.dates = []model.Date{d}
		m.want.BodyAppendix = m.c.Appendix
		m.text = x.String()
		if r.Chance(1, 12) {
			m.text = strings.ReplaceAll(m.text, "\n", "\r\n")
			r.Fault("mail: lines end with carriage returns")
		}
	} else {
		m.format = []string{"short", "medium", "full", "fuller"}[r.N(4)]
		m.dates = []model.Date{model.GenDate(r), model.GenDate(r)}
		m.text = m.c.Pretty(r, m.format, [2]model.Date{m.dates[0], m.dates[1]})
		switch m.format {
		case "short":
			m.dates = nil
			m.want.Body = ""
		case "medium":
			m.dates = m.dates[:1]
		case "full":
			m.dates = nil
			m.want.Committer = ident(m.c.Committer)
		case "fuller":
			m.want.Committer = ident(m.c.Committer)
		}
		if m.want.Title == "" {
			m.want.Body = ""
		}
		if r.Chance(1, 40) { // only its first line
			m.format, m.dates, m.want = "id", nil, gitdiff.PatchHeader{SHA: m.c.SHA}
			m.text = "commit " + m.c.SHA + []string{"\n", "\n\n", " \n"}[r.N(3)]
		}
	}
	if r.Chance(1, 8) {
		m.damage(r)
	}
	n := "dir/file"
	m.patch = []byte(fmt.Sprintf("diff --git a/%s b/%s\nindex 0123456..89abcde 100644\n--- a/%s\n+++ b/%s\n@@ -1,2 +1,2 @@\n context\n-old\n+new\n", n, n, n, n))
	return m
}

// damage makes the description one that must be refused.
func (m *message) damage(r *sim.Run) {
	lines := strings.SplitAfter(m.text, "\n")
	var at []int
	for i, l := range lines {
		if strings.Trim(l, "\r\n") == "" {
			break
		}
		if k, _, ok := strings.Cut(l, ":"); ok {
			switch k {
			case "Date", "AuthorDate", "CommitDate":
				at = append(at, i)
			case "Author", "Commit", "From":
				at = append(at, i)
			}
		}
	}
	switch k := r.N(3); {
	case k < 2 && len(at) > 0:
		i := at[r.N(len(at))]
		key, val, _ := strings.Cut(lines[i], ":")
		if i+1 < len(lines) && strings.HasPrefix(lines[i+1], " ") || strings.HasPrefix(lines[i+1], "\t") {
			return // folded
		}
		val = strings.TrimSpace(val)
		if strings.HasSuffix(key, "Date") {
			if val == "" {
				return
			}
			bad := []string{"yesterday", val + "x", "x" + val, "Sat Foo 11 15:21:23 2020 -0700", "2020-13-41", "2020-04-11 25:61:00 -0700", "1586000000 zone", "-", "Sat, 32 Apr 2020 15:21:23 -0700", "12 34 56", "9" + strings.Repeat("9", 30), "1586643683 12 -0700", "1586643683 -0700 1", "1586643683 +07", "1586643683,12 -0700"}[r.N(15)]
			lines[i] = key + ": " + bad + "\n"
			m.bad = "date " + bad
		} else {
			k := r.N(4)
			if key == "From" {
				k = 2 + k%2
			}
			lines[i] = key + ":" + []string{"", " ", " <>", "\t < > "}[k] + "\n"
			m.bad = "empty identity"
		}
		r.Fault("description: " + key + " damaged")
	default:
		lines[0] = []string{"X" + lines[0], " x\n" + lines[0], "commitment to x\n", "from me\n", "Subject: x\n", "Fro\n", "-\n"}[r.N(7)]
		m.bad = "first line " + lines[0]
		r.Fault("description: first line damaged")
	}
	m.text = strings.Join(lines, "")
}

var cleanModes = []gitdiff.SubjectCleanMode{gitdiff.SubjectCleanAll, gitdiff.SubjectCleanPatchOnly, gitdiff.SubjectCleanWhitespace}

// inMode is the description as it must be read in a clean mode.
func (m *message) inMode(mode gitdiff.SubjectCleanMode) gitdiff.PatchHeader {
	w := m.want
	if !m.mail {
		return w
	}
	switch mode {
	case gitdiff.SubjectCleanAll:
		w.SubjectPrefix = m.deco
	case gitdiff.SubjectCleanPatchOnly:
		w.SubjectPrefix = m.deco[:m.only]
		w.Title = m.deco[m.only:] + w.Title
	case gitdiff.SubjectCleanWhitespace:
		w.Title = m.deco + w.Title
	}
	if m.c.Title == "" {
		// white space at the end of the field is lost
		if w.Title == "" {
			w.SubjectPrefix = strings.TrimRight(w.SubjectPrefix, " \t")
		}
		w.Title = strings.TrimRight(w.Title, " \t")
	}
	return w
}

func who(p *gitdiff.PatchIdentity) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("%q %q", p.Name, p.Email)
}

// diffHeader names the first field that differs, except for dates.
func diffHeader(want, got *gitdiff.PatchHeader) (field, detail string) {
	for _, f := range []struct{ n, a, b string }{
		{"id", want.SHA, got.SHA},
		{"author", who(want.Author), who(got.Author)},
		{"committer", who(want.Committer), who(got.Committer)},
		{"title", want.Title, got.Title},
		{"body", want.Body, got.Body},
		{"subject prefix", want.SubjectPrefix, got.SubjectPrefix},
		{"appendix", want.BodyAppendix, got.BodyAppendix},
		{"message", messageOf(want), got.Message()},
	} {
		if f.a != f.b {
			return f.n, diffAt(f.a, f.b)
		}
	}
	return "", ""
}

func messageOf(h *gitdiff.PatchHeader) string {
	if h.Body == "" {
		return h.Title
	}
	return h.Title + "\n\n" + h.Body
}

func c20(r *sim.Run) {
	if r.Chance(1, 5) {
		c20people(r)
		return
	}
	var series []*message
	for n := 1 + r.Pick(4, 2, 1); n > 0; n-- {
		series = append(series, genMessage(r))
	}
	hosts := 1 + r.Pick(3, 2, 1)
	r.Budget(1_000_000_000)
	receive := func(host int) {
		for _, m := range series {
			receiveOne(r, m)
		}
	}
	var desc []string
	for _, m := range series {
		desc = append(desc, fmt.Sprintf("%s of %d bytes", m.format, len(m.text)))
	}
	r.Sample("%v to %d hosts; first: %s", desc, hosts, quoteClip(series[0].text))
	if hosts == 1 {
		time.Local = genZone(r)
		receive(0)
		return
	}
	s := sim.NewSched(r)
	for i := 0; i < hosts; i++ {
		s.Go(fmt.Sprintf("host %d", i), func() { receive(i) })
	}
	s.Run()
}

func receiveOne(r *sim.Run, m *message) {
	text := append([]byte(m.text), m.patch...)
	var got parsed
	for try := 1; ; try++ {
		st := seam.NewStream(r, "patch", text)
		if try <= 3 && r.Chance(1, 3) {
			st.FailAt = int(choice.NewBulk(r.Seed()).Uint64() % uint64(len(text)+1))
			st.FailErr = seam.NewReadErr(r, "stream error")
			st.OneShot, st.FailWith = r.Bool(), r.Bool()
		}
		got = parse(r, st, st.FailAt < 0)
		if !st.Fired {
			break
		}
		if got.err == nil {
			r.Fail("loss not reported", "%s, failed at byte %d", quoteClip(m.text), st.FailAt)
		}
	}
	if got.err != nil || len(got.files) != 1 {
		r.Fail("patch with its description rejected", "%d files, %v; %s", len(got.files), got.err, quoteClip(m.text))
	}
	if got.pre != m.text {
		r.Fail("description differs from the one sent", "%s", diffAt(m.text, got.pre))
	}
	for k, mode := range cleanModes {
		var opts []gitdiff.PatchHeaderOption
		if k > 0 || r.Bool() {
			opts = append(opts, gitdiff.WithSubjectCleanMode(mode))
		}
		var h *gitdiff.PatchHeader
		var err error
		r.Call("ParsePatchHeader", 0, func() { h, err = gitdiff.ParsePatchHeader(got.pre, opts...) })
		r.Ev("header", errStr(err))
		if m.bad != "" {
			if err == nil {
				r.Fail("invalid description accepted", "%s: %s", m.bad, quoteClip(m.text))
			}
			continue
		}
		if err != nil {
			r.Fail("description rejected: "+m.format, "%v; %s", err, quoteClip(m.text))
		}
		w := m.inMode(mode)
		if f, d := diffHeader(&w, h); f != "" {
			r.Fail(f+" differs: "+m.format, "%s; clean mode %d; %s", d, mode, quoteClip(m.text))
		}
		for i, t := range []time.Time{h.AuthorDate, h.CommitterDate} {
			if i < len(m.dates) {
				checkDate(r, m.dates[i], t, []*time.Location{time.Local})
			} else if !t.IsZero() {
				r.Fail("date was invented", "%v from %s", t, quoteClip(m.text))
			}
		}
		r.NonTrivial()
	}
}

// c20people reads and formats identities over several relays.
func c20people(r *sim.Run) {
	r.NonTrivial()
	for n := 1 + r.N(4); n > 0; n-- {
		i := model.GenPerson(r)
		text, want, once := model.WriteIdent(r, i)
		hops := 1 + r.N(4)
		if once {
			hops = 1
		}
		for hop := 1; hop <= hops; hop++ {
			var got gitdiff.PatchIdentity
			var err error
			r.Call("ParsePatchIdentity", 0, func() { got, err = gitdiff.ParsePatchIdentity(text) })
			r.Ev("identity", text, got.Name, got.Email, errStr(err))
			if err != nil {
				r.Fail("identity rejected", "%q after %d relays: %v", text, hop-1, err)
			}
			if got.Name != want.Name || got.Email != want.Email {
				r.Fail("identity differs", "%q after %d relays: got %q %q, expected %q %q", text, hop-1, got.Name, got.Email, want.Name, want.Email)
			}
			r.Call("String", 0, func() { text = got.String() })
		}
	}
	empty := []string{"", " ", "<>", "\t< >\n", "\"\"", "() <>"}[r.N(6)]
	var err error
	var got gitdiff.PatchIdentity
	r.Call("ParsePatchIdentity", 0, func() { got, err = gitdiff.ParsePatchIdentity(empty) })
	if err == nil {
		r.Fail("empty identity accepted", "%q gave %q %q", empty, got.Name, got.Email)
	}
}
