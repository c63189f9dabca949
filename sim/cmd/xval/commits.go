package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/sim"
)

// commits compares rendered commit descriptions with what git writes.
func commits(n int, seed uint64) {
	dir, err := os.MkdirTemp("", "xval")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	git := func(in string, args ...string) string {
		c := exec.Command("git", args...)
		c.Dir, c.Stdin = dir, strings.NewReader(in)
		c.Env = append(os.Environ(), "GIT_CONFIG_NOSYSTEM=1", "HOME="+dir)
		var e bytes.Buffer
		c.Stderr = &e
		out, err := c.Output()
		if err != nil {
			panic(fmt.Sprint(args, err, e.String()))
		}
		return string(out)
	}
	git("", "init", "-q", ".")
	tree := strings.TrimSpace(git("", "mktree"))
	bad := 0
	for i := 0; i < n; i++ {
		r := sim.NewRun(choice.New(choice.Derive(seed, uint64(i))), sim.NewStats(), false)
		mail := r.Bool()
		c := model.GenCommit(r, !mail)
		u, off := int64(1_500_000_000+r.N(300_000_000)), model.GenOffset(r)
		u |= 1
		format := []string{"default", "iso", "rfc", "raw", "unix", "iso-strict", "short"}[r.N(7)]
		if mail {
			format = "rfc"
		}
		d := model.MakeDate(format, u, off)
		pretty := []string{"short", "medium", "full", "fuller"}[r.N(4)]
		msg := c.Title
		var want string
		var m *model.Mail
		if mail {
			m = c.Mail(r, "[PATCH] ", d)
			var f []model.Field
			for _, x := range m.Fields {
				if x.Key == "From" || x.Key == "Date" || x.Key == "Subject" {
					f = append(f, x)
				}
			}
			m.Fields = f
			b, _, _ := strings.Cut("\n"+m.Body, "\n---\n")
			m.Body = strings.TrimPrefix(b, "\n")
			want = m.String()
		} else {
			want = c.Pretty(r, pretty, [2]model.Date{d, d})
			want = strings.ReplaceAll(want, "\n    \n", "\n\n")
			head, rest, _ := strings.Cut(want, "\n")
			head, _, _ = strings.Cut(head, " (")
			rest = strings.TrimPrefix(rest, "Merge: 0123456 89abcde\n")
			want = head + "\n" + rest
			if t, _, ok := strings.Cut(strings.SplitN(rest+"\n", "\n\n", 2)[1], "\n\n"); ok {
				msg = strings.TrimPrefix(strings.ReplaceAll(t, "\n    ", "\n"), "    ")
			}
			if c.Title == "" {
				msg = ""
			}
		}
		if c.Body != "" && c.Title != "" {
			msg += "\n\n" + c.Body
		}
		if c.Title != "" {
			msg += "\n"
		}
		sign, a := "+", off
		if off < 0 {
			sign, a = "-", -off
		}
		zone := fmt.Sprintf("%s%02d%02d", sign, a/3600, a/60%60)
		obj := fmt.Sprintf("tree %s\nauthor %s <%s> %d %s\ncommitter %s <%s> %d %s\n\n%s", tree, c.Author.Name, c.Author.Email, u, zone, c.Committer.Name, c.Committer.Email, u, zone, msg)
		id := strings.TrimSpace(git(obj, "hash-object", "-t", "commit", "-w", "--literally", "--stdin"))
		var got string
		if mail {
			got = git("", "log", "-1", "--pretty=email", "--encode-email-headers", id)
			if !strings.Contains(want, "\nFrom: =?") && strings.Contains(got, "\nFrom: =?") {
				continue // written with --no-encode-email-headers
			}
			want = strings.ReplaceAll(want, "[PATCH] \n", "[PATCH]\n")
			var keep []string
			hdr := true
			for _, l := range strings.SplitAfter(got, "\n") {
				if l == "\n" {
					hdr = false
				}
				if hdr && (strings.HasPrefix(l, "MIME-") || strings.HasPrefix(l, "Content-")) {
					continue
				}
				keep = append(keep, l)
			}
			got = strings.Join(keep, "")
		} else {
			got = git("", "log", "-1", "--no-expand-tabs", "--pretty="+pretty, "--date="+format, id)
		}
		got = strings.ReplaceAll(got, id, c.SHA)
		if !mail {
			got = strings.ReplaceAll(got, "\n    \n", "\n\n")
		}
		if strings.TrimRight(got, "\n") != strings.TrimRight(want, "\n") {
			bad++
			if bad < 10 {
				fmt.Printf("case %d (%s %s)\ngit:   %q\nmodel: %q\n", i, pretty, format, got, want)
			}
		}
	}
	fmt.Printf("%d commits compared, %d differ\n", n, bad)
}
