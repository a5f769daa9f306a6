package rules

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/checker/core"
)

var familySuites = []string{"Numbers", "Texts", "Idle", "Inputs", "Outputs", "Later", "Reals", "Doomed"}
var familyConfigs = []string{"Plain", "Full", "Else"}
var familyVariants = []string{"Animate", "Ros"}

// parallel runs a function on 0..n-1.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, max(2, runtime.NumCPU()))
	for i := range n {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}()
	}
	wg.Wait()
}

// family makes what is generated for every member, and what of the templates that covers.
func (c *Ctx) family() (ms []*member, cover map[string]map[string]bool) {
	for _, s := range familySuites {
		for _, f := range familyConfigs {
			for _, v := range familyVariants {
				ms = append(ms, &member{Suite: s, Config: f, Variant: v})
			}
		}
	}
	covers := make([]map[string]map[string]bool, len(ms))
	parallel(len(ms), func(i int) {
		m := ms[i]
		covers[i] = map[string]map[string]bool{}
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("CHECKER_DEBUG") != "" {
					panic(x)
				}
				ms[i] = &member{Name: m.Suite + "/" + m.Config + "/" + m.Variant, Suite: m.Suite, Config: m.Config, Variant: m.Variant, err: fmt.Sprint("the analysis crashed: ", x)}
			}
		}()
		ms[i] = c.familyMember(m.Suite, m.Config, m.Variant)
		if ms[i].st != nil && ms[i].err == "" {
			c.collect(ms[i], covers[i])
		}
	})
	cover = map[string]map[string]bool{}
	for _, cv := range covers {
		for k, w := range cv {
			if cover[k] == nil {
				cover[k] = map[string]bool{}
			}
			for x := range w {
				cover[k][x] = true
			}
		}
	}
	return ms, cover
}

// usable reports the members that cannot be worked with and returns the others.
func (c *Ctx) usable(rule string, ms []*member) (good []*member) {
	for _, m := range ms {
		bad := m.err
		for _, f := range m.files {
			if f.Err != "" && bad == "" {
				bad = f.Path + ": " + f.Err
			}
		}
		if bad != "" {
			c.R.Undecided(rule, m.Name, "", "what is generated cannot be told: %s", bad)
			continue
		}
		good = append(good, m)
	}
	c.R.Count("shapes of suite, configuration and variant", len(ms))
	return good
}

// work is a scratch directory with the generated files of the members.
type work struct {
	dir   string
	clang string
}

func (c *Ctx) newWork() (*work, error) {
	w := &work{}
	for _, n := range []string{"/usr/bin/clang++", "/usr/bin/clang++-18", "clang++"} {
		if p, err := exec.LookPath(n); err == nil {
			w.clang = p
			break
		}
	}
	if w.clang == "" {
		return nil, fmt.Errorf("no clang++")
	}
	d, err := os.MkdirTemp("", "rtcgcheck")
	if err != nil {
		return nil, err
	}
	w.dir = d
	return w, core.WriteStubs(filepath.Join(d, "stubs"))
}

func (w *work) close() {
	if w.dir != "" && strings.Contains(w.dir, "rtcgcheck") {
		os.RemoveAll(w.dir)
	}
}

// home is the directory of the generated files of a member.
func (w *work) home(m *member) string {
	return filepath.Join(w.dir, strings.ReplaceAll(m.Name, "/", "_"))
}

// inside returns where a generated file goes, if that is inside the directory of its member.
func (w *work) inside(m *member, p string) (string, bool) {
	h := w.home(m)
	f := filepath.Join(h, filepath.FromSlash(p))
	return f, strings.HasPrefix(f, h+"/")
}

func (w *work) write(m *member) error {
	for _, f := range m.files {
		to, ok := w.inside(m, f.Path)
		if !ok {
			return fmt.Errorf("file %s is outside", f.Path)
		}
		if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
			return err
		}
		b := []byte(f.text())
		if f.From != "" {
			var err error
			if b, err = os.ReadFile(filepath.Join(w.dir, "stubs", "link", strings.ToLower(m.Variant)+".cpp")); err != nil {
				return err
			}
		}
		if err := os.WriteFile(to, b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// stubFlags are the include directories of what is outside the generated files.
func (w *work) stubFlags(m *member) []string {
	fs := []string{"-isystem", filepath.Join(w.dir, "stubs", "user")}
	if m.Variant == "Ros" {
		fs = append(fs, "-isystem", filepath.Join(w.dir, "stubs", "ros"))
	}
	return fs
}

func (w *work) run(dir string, args ...string) (stdout []byte, stderr string, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, w.clang, args...)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err.Error(), err
	}
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	return o.Bytes(), e.String(), err
}

// drivers lists the drivers of a member: the main.cpp of each test, by the name of its test.
func (m *member) drivers() (tests []string, mains map[string]*genFile) {
	mains = map[string]*genFile{}
	for _, f := range m.files {
		if path.Base(f.Path) == "main.cpp" {
			t := path.Base(path.Dir(path.Dir(f.Path)))
			mains[t] = f
			tests = append(tests, t)
		}
	}
	sort.Strings(tests)
	return
}

func (m *member) file(base string) *genFile {
	for _, f := range m.files {
		if path.Base(f.Path) == base {
			return f
		}
	}
	return nil
}

// root is the directory of the variant.
func (m *member) root() string { return "OUT/" + strings.ToLower(m.Variant) }

var stdFlag = regexp.MustCompile(`-std=[A-Za-z0-9+]+`)

// std finds the dialect that the build files ask for.
func (m *member) std(build string) string {
	for _, f := range m.files {
		if path.Base(f.Path) == build {
			return stdFlag.FindString(f.text())
		}
	}
	return ""
}

var diagLine = regexp.MustCompile(`^(\S[^:]*):(\d+):(\d+): (?:fatal )?error: (.*)$`)

type diag struct {
	file, msg string
	line      int
}

func diags(out string) (ds []diag) {
	for _, l := range strings.Split(out, "\n") {
		if m := diagLine.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[2])
			ds = append(ds, diag{m[1], m[4], n})
		}
	}
	return
}

// source finds the generated file and the template behind a file name in a message.
func (w *work) source(m *member, file string, line int) (construct, pos string) {
	if !filepath.IsAbs(file) {
		file = filepath.Join(w.home(m), m.root(), file)
	}
	rel, err := filepath.Rel(w.home(m), file)
	if err != nil {
		return file, ""
	}
	for _, f := range m.files {
		if f.Path == filepath.ToSlash(rel) {
			p := f.at(line)
			t, _, _ := strings.Cut(p, ":")
			return t, p
		}
	}
	if r, err := filepath.Rel(w.dir, file); err == nil && !strings.HasPrefix(r, "..") {
		return r, fmt.Sprintf("%s:%d", r, line)
	}
	return file, fmt.Sprintf("%s:%d", file, line)
}
