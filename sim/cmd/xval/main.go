// Command xval compares the workload model with git itself (development only):
// it renders generated patches, applies them with "git apply" to the sender's
// old tree in a scratch directory and compares with the sender's new tree.
package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"gitdiffsim/choice"
	"gitdiffsim/model"
	"gitdiffsim/sim"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	seed := uint64(1)
	if len(os.Args) > 2 {
		seed, _ = strconv.ParseUint(os.Args[2], 10, 64)
	}
	if os.Getenv("XVAL_COMMITS") != "" {
		commits(n, seed)
		return
	}
	bad, done, skipped := 0, 0, map[string]int{}
	for i := 0; i < n; i++ {
		dir, err := os.MkdirTemp("", "xval")
		if err != nil {
			panic(err)
		}
		if only := os.Getenv("XVAL_CASE"); only != "" && only != strconv.Itoa(i) {
			os.RemoveAll(dir)
			continue
		}
		why, msg := one(dir, choice.Derive(seed, uint64(i)))
		os.RemoveAll(dir)
		if why != "" {
			skipped[why]++
			continue
		}
		done++
		if msg != "" {
			bad++
			if bad < 40 {
				fmt.Printf("case %d: %s\n", i, msg)
			}
		}
	}
	fmt.Printf("%d compared, %d differ, skipped %v\n", done, bad, skipped)
}

func one(dir string, seed uint64) (skip, msg string) {
	r := sim.NewRun(choice.New(seed), sim.NewStats(), false)
	p := model.GenPatch(r, model.Opts{Content: true, MinFiles: 1})
	if os.Getenv("XVAL_GIT") != "" && strings.Contains(p.Kinds(), "gnu") {
		return "gnu", ""
	}
	if strings.Contains(p.Pre, "@@") || strings.Contains(p.Pre, "diff --gi") || strings.Contains(p.Pre, "--- a") {
		return "odd preamble", ""
	}
	unidiff0 := false
	seen := map[string]bool{}
	for _, f := range p.Files {
		for _, nm := range []string{f.Want.OldName, f.Want.NewName} {
			if strings.HasSuffix(nm, "/") || strings.Contains(nm, "/.git") {
				return "name", ""
			}
			if nm != "" && nm != f.Want.OldName && seen[nm] {
				return "name clash", ""
			}
			seen[nm] = true
		}
		if b := f.Want.BinaryFragment; b != nil && b.Method == gitdiff.BinaryPatchDelta && b.Size < 4 {
			return "delta shorter than git accepts", ""
		}
		if f.Trad {
			// git drops one component of all names
			if !strings.Contains(f.Want.OldName+f.Want.NewName, "/") {
				return "gnu name without directory", ""
			}
		}
		for _, h := range f.Want.TextFragments {
			if h.LeadingContext == 0 || h.TrailingContext == 0 {
				unidiff0 = true
			}
		}
	}
	drop := func(f *model.FileSpec, n string) string {
		if f.Trad {
			return n[strings.IndexByte(n, '/')+1:]
		}
		return n
	}
	// git wants full object ids for binary files
	var text bytes.Buffer
	for _, l := range p.Lines {
		if l.File >= 0 && l.Kind == model.KMeta && strings.HasPrefix(l.Text, "index ") && p.Files[l.File].Want.IsBinary {
			f := p.Files[l.File]
			id := func(has bool, d []byte) string {
				if !has {
					return strings.Repeat("0", 40)
				}
				return fmt.Sprintf("%x", sha1.Sum(append([]byte(fmt.Sprintf("blob %d\x00", len(d))), d...)))
			}
			rest := ""
			if i := strings.LastIndexByte(l.Text, ' '); i > 6 {
				rest = l.Text[i:]
			} else {
				rest = "\n"
			}
			l.Text = "index " + id(f.HasOld, f.Old) + ".." + id(f.HasNew, f.New) + rest
		}
		if strings.Contains(l.Text, "120000") || strings.Contains(l.Text, "160000") {
			return "symlink", ""
		}
		text.WriteString(l.Text)
	}
	for _, f := range p.Files {
		if f.HasOld {
			path := filepath.Join(dir, drop(f, f.Want.OldName))
			if os.MkdirAll(filepath.Dir(path), 0o755) != nil || os.WriteFile(path, f.Old, 0o644) != nil {
				return "tree impossible", ""
			}
			if f.Want.OldMode&0o111 != 0 {
				os.Chmod(path, 0o755)
			}
			if f.Want.OldMode == 0o120000 || f.Want.OldMode == 0o160000 {
				return "symlink", ""
			}
		}
	}
	args := []string{"apply", "--whitespace=nowarn", "-"}
	if unidiff0 {
		args = []string{"apply", "--whitespace=nowarn", "--unidiff-zero", "-"}
	}
	cmd := exec.Command("git", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GIT_CEILING_DIRECTORIES=/tmp", "GIT_CONFIG_NOSYSTEM=1", "HOME=/nonexistent")
	cmd.Stdin = &text
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Sprintf("git apply: %v %s (%s)", err, out, p.Kinds())
	}
	want := map[string]string{}
	for _, f := range p.Files {
		if f.HasOld && f.CopySource {
			want[drop(f, f.Want.OldName)] = string(f.Old)
		}
		if f.HasNew {
			want[drop(f, f.Want.NewName)] = string(f.New)
		}
	}
	for nm, w := range want {
		b, err := os.ReadFile(filepath.Join(dir, nm))
		if err != nil || string(b) != w {
			return "", fmt.Sprintf("%q: %v, %d bytes, want %d (%s)\n%s", nm, err, len(b), len(w), p.Kinds(), out)
		}
	}
	count := 0
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			count++
		}
		return nil
	})
	if count != len(want) {
		return "", fmt.Sprintf("%d files, want %d (%s)", count, len(want), p.Kinds())
	}
	return "", ""
}
