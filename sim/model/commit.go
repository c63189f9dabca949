package model

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"gitdiffsim/choice"
	"gitdiffsim/sim"
)

// Ident is a person as git knows it.
type Ident struct{ Name, Email string }

// Commit is a commit as its author made it.
type Commit struct {
	SHA               string
	Author, Committer Ident
	Title             string
	Body              string
	Appendix          string // after the "---" line of a mail
}

var firstNames = []string{"A", "Morton", "Jo", "Ünï", "日本", "O'Neil", "dependabot[bot]", "Dr.", "x", "J. R.", "Jean-Luc", "Reginald", "Åsa"}
var lastNames = []string{"U Thor", "Haypenny", "", "Cödé", "太郎", "Müller-Lüdenscheidt", "III", "de la Cruz", "(Work)", "van der Berg, Jr", "Smith;", "Kleine-König", "%s"}
var mails = []string{"author@example.com", "a.b+c@d.example", "12345+dependabot[bot]@users.noreply.github.com", "x@y", "ünï@example.com", "root@localhost", "a_b-c%d@h.example", "o'neil@example.com", "q=1@example.com", "root", ""}

// GenPerson draws a person whose name contains no characters that change
// their meaning when unquoted.
func GenPerson(r *sim.Run) Ident {
	n := strings.TrimSpace(firstNames[r.N(len(firstNames))] + " " + lastNames[r.N(len(lastNames))])
	return Ident{n, mails[r.N(len(mails))]}
}

// quoteName writes a name as git does in a mail header.
func quoteName(n string) string {
	if !strings.ContainsAny(n, "()<>[]:;@,.\"\\") {
		return n
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(n) + `"`
}

var words = []string{"fix", "the", "parser", "Add", "größer", "日本語", "🤖", "a_b", "x=1", "why?", "100%", "re:", "diff", "[x]", "(see", "#12)", "=?", "?=", "=?UTF-8?q?x?=", "commit", "From", "---", "C++", "it's", "\"quoted\"", "back\\slash", "tab", "a", "supercalifragilisticexpialidocious", "Re:", "=", "_", "é", "end.", "first,", "so;", "stop!", "well...", "(x).", "_x_", "a-", "-", "/", "\\", "'", "*", "#"}

// genTitle draws a title that does not begin like a decoration. plain: no
// characters git encodes.
func genTitle(r *sim.Run, b *choice.Bulk) string {
	n := 1 + b.N(12)
	if r.Chance(1, 12) {
		n = 1 + b.N(400)
	}
	if r.Chance(1, 300) {
		n = 15000
	}
	ascii := r.Bool()
	t := []string{"Change", "fix:", "R", "re", "Reimplement", "a", "Ü", "🤖", "x=", "=", "?", "Rework:", "Re", "(x)", "#1", "rm:", "RC:", "r:e", "Ref:", "rée:", "R2:", "r::", "rE"}[r.N(23)]
	for ; n > 0; n-- {
		w := words[b.N(len(words))]
		if ascii && (strings.IndexFunc(w, func(c rune) bool { return c >= 0x80 }) >= 0 || strings.Contains(w, "=?")) {
			continue
		}
		t += " " + w
	}
	return t
}

var bodyLines = []string{"Line of text.", "    code()", "\tindented by a tab", " - item", "Signed-off-by: A U Thor <author@example.com>", "größer 日本語 🤖", "Author: nobody <no@body>", "Date:   yesterday", "commit 1234", "Subject: [PATCH] other", "From: x", "=?UTF-8?q?x?=", "a = b", "100%", "x", "\\", "\"", "(cherry picked from commit 0123456789)", "----", "-- ", "--", "- --", "+++", "+ added", "index 12..34", "tab\tinside", "Link: https://example.com/?a=b&c=d#e", "   ---", "\t---", " --- ", "--- a", "---x", "> quoted", ">From x", "# comment", "# ------------------------ >8 ------------------------", "-- >8 --", "8< ---", "Notes:", "Notes (x):", "From: A U Thor <author@example.com>", "Date: Sat, 11 Apr 2020 15:21:23 -0700", "[x]", "[PATCH] y", "***", "===", "v2: changes", "---------", "    diff --git a/x b/x", "Merge: 1234 5678", "Author:", "Co-authored-by: x <y@z>", "Changes in v2:", ".", "..", "\u00a0nbsp", "a  b", "EOF", "--=_part", "Content-Type: text/plain", "\x0c formfeed", "--- 8< ---", "fixup! x", "git-svn-id: x", "X-Y: z"}

// lines that would begin a patch if they were not indented
var wildLines = []string{"---", "diff --git a/x b/x", "--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b", "@@ -1,2 +3,4 @@", "GIT binary patch", "literal 3", "From 0123456789 Mon Sep 17 00:00:00 2001"}

// genBody draws a body as git's default clean-up leaves it: no empty lines at
// the ends or in a row, no white space at the ends of lines.
func genBody(r *sim.Run, b *choice.Bulk, wild bool) string {
	n := r.Pick(2, 3, 3, 2, 1)
	if n == 4 {
		n = 4 + b.N(60)
	}
	var out []string
	for i := 0; i < n; i++ {
		if i > 0 && b.N(3) == 0 {
			out = append(out, "")
		}
		l := bodyLines[b.N(len(bodyLines))]
		if wild && b.N(3) == 0 {
			l = wildLines[b.N(len(wildLines))]
		}
		if b.N(200) == 0 {
			l += strings.Repeat(" long", b.N(30000))
		}
		out = append(out, strings.TrimRight(l, " \t"))
	}
	return strings.Join(out, "\n")
}

// GenCommit draws a commit. wild bodies contain lines that look like patches.
func GenCommit(r *sim.Run, wild bool) *Commit {
	b := choice.NewBulk(r.Seed())
	c := &Commit{SHA: hex(b, []int{40, 64}[r.Pick(5, 1)]), Author: GenPerson(r), Committer: GenPerson(r)}
	if r.Chance(1, 20) {
		return c // no message
	}
	if !wild && r.Chance(1, 8) {
		c.Author.Name = []string{`Jo "Red" Smith`, `Back\Slash`, `"`, `a\"b`, `Dr. "X\" (Y`, `<x>`[1:2]}[r.N(6)]
	}
	c.Title = genTitle(r, b)
	c.Body = genBody(r, b, wild)
	return c
}

// wrapTitle breaks a title into lines as an author might.
func wrapTitle(r *sim.Run, t string) string {
	w := strings.Split(t, " ")
	if len(w) < 2 || !r.Chance(1, 5) {
		return t
	}
	for n := 1 + r.N(4) + r.N(2)*r.N(len(w)); n > 0; n-- {
		k := 1 + r.N(len(w)-1)
		w[k] = strings.TrimSuffix("\n"+strings.TrimPrefix(w[k], "\n"), " ")
	}
	return strings.ReplaceAll(strings.Join(w, " "), " \n", "\n")
}

// Encoded tells whether git encodes the title in mails.
func (c *Commit) Encoded() bool { return strings.HasPrefix(EncodeSubject(c.Title, 0), "=?") }

// Pretty renders the commit as git log or git show does in the named format;
// dates are the author's and the committer's.
func (c *Commit) Pretty(r *sim.Run, format string, dates [2]Date) string {
	var s strings.Builder
	s.WriteString("commit " + c.SHA)
	if r.Chance(1, 5) {
		s.WriteString([]string{" (HEAD -> main)", " (tag: v1.0, origin/main)"}[r.N(2)])
	}
	s.WriteString("\n")
	if r.Chance(1, 6) {
		s.WriteString("Merge: 0123456 89abcde\n")
	}
	p := func(i Ident) string { return i.Name + " <" + i.Email + ">" }
	switch format {
	case "short":
		fmt.Fprintf(&s, "Author: %s\n", p(c.Author))
	case "medium":
		fmt.Fprintf(&s, "Author: %s\nDate:   %s\n", p(c.Author), dates[0].Text)
	case "full":
		fmt.Fprintf(&s, "Author: %s\nCommit: %s\n", p(c.Author), p(c.Committer))
	case "fuller":
		fmt.Fprintf(&s, "Author:     %s\nAuthorDate: %s\nCommit:     %s\nCommitDate: %s\n", p(c.Author), dates[0].Text, p(c.Committer), dates[1].Text)
	}
	s.WriteString("\n")
	msg := c.Title
	if msg != "" {
		msg = wrapTitle(r, msg)
		if c.Body != "" && format != "short" {
			msg += "\n\n" + c.Body
		}
		full := r.Chance(3, 4) // git indents empty lines too; editors may trim them
		for _, l := range strings.Split(msg, "\n") {
			if l != "" || full {
				l = "    " + l
			}
			s.WriteString(l + "\n")
		}
		s.WriteString("\n")
	}
	return s.String()
}

// EncodeSubject writes a title as git does in a mail's subject line that
// already has col columns.
func EncodeSubject(t string, col int) string {
	ascii := true
	for i := 0; i < len(t); i++ {
		if t[i] >= 0x80 || t[i] == '\n' || strings.HasPrefix(t[i:], "=?") {
			ascii = false
		}
	}
	if ascii {
		return wrap(t, col, 78)
	}
	const lead = "=?UTF-8?q?"
	var s strings.Builder
	s.WriteString(lead)
	col += len(lead)
	for len(t) > 0 {
		_, n := utf8.DecodeRuneInString(t)
		x := t[:n]
		if c := x[0]; n > 1 || c <= ' ' || c >= 0x7f || c == '=' || c == '?' || c == '_' {
			x = ""
			for i := 0; i < n; i++ {
				x += fmt.Sprintf("=%02X", t[i])
			}
		}
		if col+len(x)+2 > 76 {
			s.WriteString("?=\n " + lead)
			col = len(lead) + 1
		}
		s.WriteString(x)
		col += len(x)
		t = t[n:]
	}
	s.WriteString("?=")
	return s.String()
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// encodeName writes a name as git does in a mail's sender.
func encodeName(t string) string {
	const lead = "=?UTF-8?q?"
	var s strings.Builder
	s.WriteString(lead)
	col := len("From: ") + len(lead)
	for len(t) > 0 {
		_, n := utf8.DecodeRuneInString(t)
		x := t[:n]
		if c := x[0]; n > 1 || !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("!*+-/", c) >= 0) {
			x = ""
			for i := 0; i < n; i++ {
				x += fmt.Sprintf("=%02X", t[i])
			}
		}
		if col+len(x)+2 > 76 {
			s.WriteString("?=\n " + lead)
			col = len(lead) + 1
		}
		s.WriteString(x)
		col += len(x)
		t = t[n:]
	}
	s.WriteString("?=")
	return s.String()
}

// wrap folds text at spaces.
func wrap(t string, col, width int) string {
	var s strings.Builder
	for i, w := range strings.Split(t, " ") {
		if i > 0 {
			if col+1+len(w) > width {
				s.WriteString("\n")
				col = 0
			}
			s.WriteString(" ")
			col++
		}
		s.WriteString(w)
		col += len(w)
	}
	return s.String()
}

// Mail is a commit written as a mail.
type Mail struct {
	From    string // separator line; may be empty
	Fields  []Field
	Body    string
	Encoded bool // the title is encoded
}

// Field is a header field, possibly folded.
type Field struct{ Key, Val string }

// Mail renders the commit as git format-patch does.
func (c *Commit) Mail(r *sim.Run, deco string, date Date) *Mail {
	m := &Mail{From: "From " + c.SHA + " Mon Sep 17 00:00:00 2001"}
	enc := EncodeSubject(c.Title, len("Subject: ")+len(deco))
	m.Encoded = strings.HasPrefix(enc, "=?")
	if m.Encoded && deco != "" && !strings.HasSuffix(deco, " ") {
		panic("encoded words need a space before them")
	}
	from := quoteName(c.Author.Name)
	if !isASCII(c.Author.Name) && !r.Chance(1, 4) { // else --no-encode-email-headers
		from = encodeName(c.Author.Name)
	}
	k := len(from) - 1 - strings.LastIndexByte(from, '\n')
	if k == len(from) {
		k += len("From: ")
	}
	if k+len(c.Author.Email)+3 > 78 && from[0] == '=' {
		from += "\n"
	}
	m.Fields = []Field{
		{"From", from + " <" + c.Author.Email + ">"},
		{"Date", date.Text},
		{"Subject", deco + enc},
	}
	if r.Chance(1, 3) {
		m.Fields = append(m.Fields, Field{"MIME-Version", "1.0"}, Field{"Content-Type", "text/plain; charset=UTF-8"}, Field{"Content-Transfer-Encoding", "8bit"})
	}
	if c.Body != "" {
		m.Body = c.Body + "\n"
	}
	if r.Chance(3, 4) {
		m.Body += "---\n"
		switch r.N(4) {
		case 1:
			c.Appendix = " dir/file | 2 +-\n 1 file changed, 1 insertion(+), 1 deletion(-)"
		case 2:
			c.Appendix = "v2: größer\n\n---\n dir/file | 2 +-"
		case 3:
			c.Appendix = "CC: Joe Smith <joe.smith@company.com>"
		}
		if c.Appendix != "" {
			m.Body += c.Appendix + "\n"
		}
		m.Body += "\n"
	}
	return m
}

// Relay changes what mail servers and programs change.
func (m *Mail) Relay(r *sim.Run) {
	for n := r.N(4); n > 0; n-- {
		switch r.N(7) {
		case 0:
			if r.Chance(1, 40) { // what many servers and filters add
				k := r.N(len(m.Fields) + 1)
				var fs []Field
				for i := 20 + r.N(80); i > 0; i-- {
					fs = append(fs, Field{fmt.Sprintf("X-%s-%d", []string{"Spam", "Filter", "Trace"}[i%3], i), "value " + strings.Repeat("x", i%50)})
				}
				m.Fields = append(m.Fields[:k:k], append(fs, m.Fields[k:]...)...)
				r.Fault("mail: many fields added")
				break
			}
			f := []Field{{"Received", "from a.example by b.example\n\twith ESMTP id 12;\n Sat, 11 Apr 2020 15:21:23 -0700"}, {"Message-Id", "<1@a.example>"}, {"X-From", "Nobody <no@body>"}, {"To", "list@example.com"}, {"Reply-To", "Other <other@example.com>"}, {"X-Empty", ""}, {"List-Id", "\n patches.example.com"}, {"X-Subject", "[PATCH] no"}}[r.N(8)]
			for _, o := range m.Fields {
				if o.Key == f.Key {
					f.Key += "-2"
				}
			}
			k := r.N(len(m.Fields) + 1)
			m.Fields = append(m.Fields[:k:k], append([]Field{f}, m.Fields[k:]...)...)
			r.Fault("mail: field added")
		case 1:
			k := r.N(len(m.Fields))
			f := m.Fields[k]
			rest := append(append([]Field{}, m.Fields[:k]...), m.Fields[k+1:]...)
			k = r.N(len(rest) + 1)
			m.Fields = append(rest[:k:k], append([]Field{f}, rest[k:]...)...)
			r.Fault("mail: fields reordered")
		case 2: // fold again
			k := r.N(len(m.Fields))
			v := strings.ReplaceAll(m.Fields[k].Val, "\n", "")
			if !strings.Contains(v, "\t") && !strings.Contains(v, "  ") {
				w := strings.Split(v, " ")
				for i := 1; i < len(w); i++ {
					if w[i] != "" && r.Chance(1, 4) {
						w[i] = "\n" + []string{" ", "\t", "    "}[r.N(3)] + w[i]
					} else {
						w[i] = " " + w[i]
					}
				}
				m.Fields[k].Val = strings.Join(w, "")
				r.Fault("mail: field folded again")
			}
		case 3:
			k := r.N(len(m.Fields))
			m.Fields[k].Key = []func(string) string{strings.ToLower, strings.ToUpper}[r.N(2)](m.Fields[k].Key)
			r.Fault("mail: field names in other case")
		case 4:
			m.From = ""
			r.Fault("mail: separator line removed")
		case 5:
			for k := range m.Fields {
				m.Fields[k].Val += []string{"", " ", "\t "}[r.N(3)]
			}
			r.Fault("mail: spaces added after fields")
		case 6:
			l := strings.Split(m.Body, "\n")
			for k := range l[:len(l)-1] {
				l[k] += []string{"", "", " ", "\t "}[r.N(4)]
				if k > 50 {
					break
				}
			}
			m.Body = strings.Join(l, "\n")
			r.Fault("mail: spaces added after lines")
		}
	}
}

// String is the text of the mail up to the patch.
func (m *Mail) String() string {
	var s strings.Builder
	f := m.Fields
	if m.From != "" {
		s.WriteString(m.From + "\n")
	} else { // without the separator a mail is known by its first field
		for k, x := range f {
			if strings.EqualFold(x.Key, "From") {
				x.Key = "From"
				f = append([]Field{x}, append(append([]Field{}, f[:k]...), f[k+1:]...)...)
				break
			}
		}
	}
	for _, x := range f {
		sep := ": "
		if x.Val == "" || x.Val[0] == '\n' {
			sep = ":"
		}
		s.WriteString(x.Key + sep + x.Val + "\n")
	}
	s.WriteString("\n" + m.Body)
	return s.String()
}

var decoParts = []string{"[PATCH] ", "[PATCH v3 5/17] ", "[PATCH]", "Re: ", "RE: ", "re:", "rE: ", ": ", "[PATCH][PATCH 1/2] ", "[PATCH RFC] ", "Re:\t"}
var otherParts = []string{"[foo] ", "[TICKET-1]", "[] ", "[re: x] ", "[CATCH] ", "[patch] ", "[PATC H]"}

// GenDeco draws what mail programs put before a title: what is removed when
// everything is, and when only [PATCH] is.
func GenDeco(r *sim.Run) (all string, patchOnly int) {
	patchOnly = -1
	for n := r.Pick(1, 4, 2, 1); n > 0; n-- {
		if r.Chance(1, 5) {
			if patchOnly < 0 {
				patchOnly = len(all)
			}
			all += otherParts[r.N(len(otherParts))]
			continue
		}
		all += decoParts[r.N(len(decoParts))]
	}
	if patchOnly < 0 {
		patchOnly = len(all)
	}
	return
}

// WriteIdent writes a person in one of the forms git knows; want is what must
// be read from it. once: formatting it plainly loses quotation marks.
func WriteIdent(r *sim.Run, i Ident) (text string, want Ident, once bool) {
	sp := func() string { return []string{" ", "  ", "\t", "\n ", " \r\n "}[r.Pick(5, 1, 1, 1, 1)] }
	spread := func(s string) string { // other white space between words
		w := strings.Split(s, " ")
		for k := 1; k < len(w); k++ {
			w[k] = sp() + w[k]
		}
		return strings.Join(w, "")
	}
	bare := i.Email
	if !strings.Contains(bare, "@") {
		bare += "@host"
	}
	want = i
	// marks: quotation marks, brackets and backslashes, plain and as they are
	// written inside a quotation or comment
	marks := []string{"\"", "\\", "(", ")", "<", "\"Red\""}
	mark := marks[r.N(len(marks))]
	pairs := strings.NewReplacer("\"", "\\\"", "\\", "\\\\", "(", "\\(", ")", "\\)").Replace(mark)
	switch r.N(10) {
	case 8: // a mark inside a quotation
		if mark == "<" || mark == "(" && strings.HasSuffix(i.Name, ")") { // read as a comment
			mark, pairs = "x", "x"
		}
		if !strings.Contains(mark, "\"") && r.Bool() && mark != "\\" {
			pairs = mark
		}
		text, want.Name, once = `"`+pairs+" "+i.Name+`" <`+i.Email+">", mark+" "+i.Name, true
	case 9: // a comment with a mark, where a quotation mark needs no backslash
		if strings.ContainsAny(i.Name, "()") {
			text = i.Name + " <" + i.Email + ">"
			break
		}
		if mark == "<" {
			mark, pairs = "x", "x"
		}
		if strings.Contains(mark, "\"") && r.Bool() {
			pairs = mark
		}
		once = true
		switch r.N(3) {
		case 0:
			text, want.Name = "("+pairs+")"+sp()+i.Name+" <"+i.Email+">", "("+mark+") "+i.Name
		case 1:
			text, want.Name = "("+pairs+") "+`"`+i.Name+`" <`+i.Email+">", "("+mark+") "+i.Name
		default:
			text, want = bare+sp()+"("+i.Name+" "+pairs+")", Ident{i.Name + " " + mark, bare}
		}
	case 0, 1:
		text = spread(i.Name) + sp() + "<" + i.Email + ">"
	case 2:
		text = quoteName(i.Name) + " <" + i.Email + ">"
	case 3: // quoted throughout
		text = `"` + i.Name + `"` + sp() + "<" + i.Email + ">"
	case 4: // quoted pairs
		n := []rune(i.Name)
		var q strings.Builder
		for _, c := range n {
			if c < 0x80 && r.Chance(1, 4) {
				q.WriteByte('\\')
			}
			q.WriteRune(c)
		}
		text = `"` + q.String() + `" <` + i.Email + ">"
	case 5:
		text, want = bare, Ident{bare, bare}
	case 6:
		if !strings.Contains(i.Email, "@") && i.Email != "" { // nobody's name
			bare = i.Email
		}
		text, want = "<"+bare+">", Ident{bare, bare}
	case 7:
		if strings.ContainsAny(i.Name, "()") {
			text = i.Name + " <" + i.Email + ">"
			break
		}
		text, want.Email = bare+sp()+"("+spread(i.Name)+")", bare
	}
	if r.Chance(1, 4) {
		text = sp() + text + sp()
	}
	return
}

// GenOffset draws a time zone's offset in seconds.
func GenOffset(r *sim.Run) int64 { return offsets[r.N(len(offsets))] }
