package update_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/adrg/xdg"
	"github.com/bab-sh/bab/internal/update"
	"github.com/bab-sh/bab/internal/verifh"
)

// the server the code talks to: answers from memory
type fakeNet struct{ tag func() (string, string) }

func (f *fakeNet) RoundTrip(q *http.Request) (*http.Response, error) {
	tag, etag := f.tag()
	b, _ := json.Marshal(map[string]any{"tag_name": tag, "name": "x"})
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{"Etag": {etag}}, Body: io.NopCloser(bytes.NewReader(b)), Request: q, ProtoMajor: 1, ProtoMinor: 1}, nil
}

type entry struct {
	CheckedAt     time.Time `json:"checked_at"`
	LatestVersion string    `json:"latest_version"`
	ETag          string    `json:"etag"`
}

func setup(dir string, f *fakeNet) {
	os.Setenv("XDG_CACHE_HOME", dir)
	os.Unsetenv("CI")
	os.Unsetenv("BAB_NO_UPDATE_CHECK")
	xdg.Reload()
	http.DefaultTransport = f
	http.DefaultClient.Transport = f
}

// TestVerifSaveChild is the process that saves (run by TestVerifSave under faults).
func TestVerifSaveChild(t *testing.T) {
	dir := os.Getenv("VERIF_CHILD_DIR")
	if dir == "" {
		return
	}
	runtime.LockOSThread()
	setup(dir, &fakeNet{tag: func() (string, string) { return os.Getenv("VERIF_CHILD_TAG"), os.Getenv("VERIF_CHILD_ETAG") }})
	if l := os.Getenv("VERIF_CHILD_FSIZE"); l != "" {
		n, _ := strconv.ParseUint(l, 10, 64)
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	update.ForceCheck("v1.0.0")
	os.Exit(0)
}

const cacheName = "update-check.json"

// snapshot of the cache directory: name -> content ("<dir>" for directories)
func snap(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if st.IsDir() {
			m[rel] = "<dir>"
		} else {
			b, _ := os.ReadFile(p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func ownTemp(n string) bool {
	return strings.HasPrefix(n, "update-check") && strings.HasSuffix(n, ".tmp") && !strings.Contains(n, "/")
}

func complete(s, tag, etag string) bool {
	var e entry
	return json.Unmarshal([]byte(s), &e) == nil && e.LatestVersion == tag && e.ETag == etag && !e.CheckedAt.IsZero()
}

// judge compares the directory before and after a save that was faulted.
func judge(before, after map[string]string, tag, etag string, crashed, mayNew bool) string {
	old, had := before[cacheName]
	now, has := after[cacheName]
	isOld := had == has && old == now
	switch {
	case isOld:
	case mayNew && has && complete(now, tag, etag):
	case has && complete(now, tag, etag):
		return "the new content took the cache file's place although writing, syncing or closing it failed"
	case !has:
		return "the cache file is gone"
	default:
		return fmt.Sprintf("the cache file holds neither its previous nor the complete new content: %q", now)
	}
	for n, c := range before {
		if n == cacheName || ownTemp(n) && c != "<dir>" {
			continue
		}
		if x, ok := after[n]; !ok {
			return "another file was removed: " + n
		} else if x != c {
			return "another file was overwritten: " + n
		}
	}
	for n := range after {
		if _, ok := before[n]; !ok && n != cacheName && !(crashed && ownTemp(n)) {
			return "a file was left behind: " + n
		}
	}
	return ""
}

func fill(r *verifh.R, dir string) {
	os.MkdirAll(dir, 0o755)
	names := []string{"update-check.json.bak", "update-check-1.tmp.keep", "xupdate-check-2.tmp", "update-check-abc.txt", "notes.tmp", "Update-check-3.tmp", "config.json", ".tmp", "update-checks"}
	for _, n := range names {
		if r.Intn(3) == 0 {
			p := filepath.Join(dir, n)
			os.WriteFile(p, []byte("keep "+n), 0o644)
			if r.Intn(2) == 0 {
				os.Chtimes(p, time.Now(), time.Now().Add(-50*time.Hour))
			}
		}
	}
	for _, n := range []string{"update-check-111.tmp", "update-check-222.tmp"} {
		if r.Intn(3) == 0 {
			p := filepath.Join(dir, n)
			os.WriteFile(p, []byte("stale"), 0o600)
			if r.Intn(2) == 0 {
				os.Chtimes(p, time.Now(), time.Now().Add(-2*time.Hour))
			}
		}
	}
	if r.Intn(4) == 0 {
		p := filepath.Join(dir, "update-check-dir.tmp")
		os.MkdirAll(p, 0o755)
		os.WriteFile(filepath.Join(p, "inner"), []byte("keep"), 0o644)
		os.Chtimes(p, time.Now(), time.Now().Add(-50*time.Hour))
	}
	if r.Intn(4) == 0 {
		p := filepath.Join(dir, "update-check-empty.tmp")
		os.MkdirAll(p, 0o755)
		os.Chtimes(p, time.Now(), time.Now().Add(-50*time.Hour))
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		os.WriteFile(filepath.Join(dir, cacheName), []byte(`{"checked_at":"2020-01-02T03:04:05Z","latest_version":"v0.9.0","etag":"old"}`), 0o600)
	case 2:
		os.WriteFile(filepath.Join(dir, cacheName), []byte(`{"checked_at":"2020-01-02T03:04:05Z","latest_version":"v0.9.0","etag":"`+strings.Repeat("o", 3000)+`"}`), 0o644)
	default:
		os.WriteFile(filepath.Join(dir, cacheName), []byte(`garbage`), 0o600)
	}
}

func word(r *verifh.R, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)]
	}
	return string(b)
}

type call struct {
	name, line string
	nth        int
}

var sysRe = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)$`)

// trace runs the child under strace and lists its system calls that name the cache directory.
func trace(dir, tag, etag, inject string, extra ...string) (calls []call, raw string, err error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, "", err
	}
	log := filepath.Join(filepath.Dir(dir), "trace")
	os.Remove(log)
	args := []string{"-f", "-y", "-qq", "-s", "64", "-o", log, "-e", "trace=openat,open,creat,write,pwrite64,writev,fsync,fdatasync,close,rename,renameat,renameat2,unlink,unlinkat,truncate,ftruncate,link,linkat,copy_file_range,sendfile"}
	if inject != "" {
		args = append(args, "-e", "inject="+inject)
	}
	args = append(args, exe, "-test.run", "^TestVerifSaveChild$")
	c := exec.Command("strace", args...)
	c.Dir = filepath.Dir(dir)
	c.Env = append(os.Environ(), "VERIF_CHILD_DIR="+dir, "VERIF_CHILD_TAG="+tag, "VERIF_CHILD_ETAG="+etag)
	c.Env = append(c.Env, extra...)
	out, rerr := c.CombinedOutput()
	b, err := os.ReadFile(log)
	if err != nil || len(b) == 0 {
		return nil, string(out), fmt.Errorf("strace gives nothing: %v %v %s", err, rerr, out)
	}
	count := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		m := sysRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		k := m[1] + m[2]
		count[k]++
		if strings.Contains(m[3], dir+"/bab") {
			calls = append(calls, call{m[2], m[3], count[k]})
		}
	}
	return calls, string(b), nil
}

var fdPath = regexp.MustCompile(`^\d+<([^>]*)>`)
var quoted = regexp.MustCompile(`"([^"]*)"`)

// order checks in a trace that what took the cache file's place was written, synced and closed before.
func order(calls []call, cachePath string) string {
	type state struct{ dirty, synced, closed, seen bool }
	st := map[string]*state{}
	for _, c := range calls {
		ok := !strings.Contains(c.line, "= -1")
		if m := fdPath.FindStringSubmatch(c.line); m != nil && ok {
			s := st[m[1]]
			if s == nil {
				s = &state{}
				st[m[1]] = s
			}
			switch c.name {
			case "write", "pwrite64", "writev", "ftruncate":
				s.dirty, s.synced, s.seen = true, false, true
				if m[1] == cachePath {
					return "the cache file itself is written to"
				}
			case "fsync", "fdatasync":
				s.dirty, s.synced = false, true
			case "close":
				s.closed = true
			}
		}
		if strings.HasPrefix(c.name, "rename") && ok {
			q := quoted.FindAllStringSubmatch(c.line, -1)
			if len(q) < 2 || q[1][1] != cachePath {
				continue
			}
			s := st[q[0][1]]
			if s == nil || s.dirty || !s.synced {
				return "the new content took the cache file's place before it was synced"
			}
			if !s.closed {
				return "the new content took the cache file's place before it was closed"
			}
		}
	}
	return ""
}

func TestVerifSave(t *testing.T) {
	if os.Getenv("VERIF_CHILD_DIR") != "" {
		return
	}
	r := verifh.New("a cache directory with other files, stale temporary files and any previous cache content; one save with an error or a kill injected at one of its system calls, or with a limit on the file size; distinct (system call, fault)")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	n := 0
	fresh := func() (string, string) {
		n++
		top := filepath.Join(root, fmt.Sprintf("d%d", n))
		os.MkdirAll(top, 0o755)
		dir := filepath.Join(top, "cache")
		fill(r, filepath.Join(dir, "bab"))
		return top, dir
	}
	exe, _ := os.Executable()
	// without faults, with a size limit, in an unwritable place
	for i := 0; i < verifh.N(60, 600); i++ {
		top, dir := fresh()
		sub := filepath.Join(dir, "bab")
		tag, etag := "v"+word(r, 1+r.Intn(30)), word(r, r.Intn(200))
		before := snap(sub)
		c := exec.Command(exe, "-test.run", "^TestVerifSaveChild$")
		c.Dir = top
		c.Env = append(os.Environ(), "VERIF_CHILD_DIR="+dir, "VERIF_CHILD_TAG="+tag, "VERIF_CHILD_ETAG="+etag)
		lim := -1
		if i%3 != 0 {
			lim = r.Intn(140 + len(tag) + len(etag))
			c.Env = append(c.Env, fmt.Sprintf("VERIF_CHILD_FSIZE=%d", lim))
		}
		out, err := c.CombinedOutput()
		after := snap(sub)
		r.Case(fmt.Sprintf("limit %v", lim >= 0))
		if err != nil {
			r.Violation("crash", fmt.Sprintf("saving ended the process: %v %s", err, out), nil)
		}
		msg := judge(before, after, tag, etag, false, true)
		if msg == "" && lim < 0 && !complete(after[cacheName], tag, etag) {
			msg = "a save without any fault did not replace the cache"
		}
		if msg != "" {
			r.Violation("save", msg, map[string]any{"fileSizeLimit": lim, "before": before, "after": after, "tag": tag})
		}
		os.RemoveAll(top)
	}
	// a reader sees only complete contents while several savers run
	readers(t, r, root)
	// every system call of a save, failed and killed at
	top, dir := fresh()
	calls, raw, err := trace(dir, "v2.0.0", "et", "")
	os.RemoveAll(top)
	if err != nil {
		fmt.Println("NOTE: no fault injection here:", err)
		return
	}
	_, _ = calls, raw
	kinds := map[string]bool{}
	for round := 0; round < verifh.N(2, 12); round++ {
		top, dir := fresh()
		sub := filepath.Join(dir, "bab")
		state := filepath.Join(top, "keep")
		if err := exec.Command("cp", "-a", sub, state).Run(); err != nil {
			t.Fatal(err)
		}
		reset := func() {
			os.RemoveAll(sub)
			exec.Command("cp", "-a", state, sub).Run()
		}
		tag, etag := "v2."+word(r, 5), word(r, 40)
		calls, _, err := trace(dir, tag, etag, "")
		if err != nil {
			t.Fatal(err)
		}
		if msg := order(calls, filepath.Join(sub, cacheName)); msg != "" {
			r.Violation("order", msg, map[string]any{"systemCalls": lines(calls)})
		}
		wrote := map[string]bool{} // files the save writes to
		for _, c := range calls {
			if m := fdPath.FindStringSubmatch(c.line); m != nil && strings.Contains(c.name, "write") {
				wrote[m[1]] = true
			}
		}
		for _, c := range calls {
			if c.name == "openat" && strings.Contains(c.line, "O_DIRECTORY") {
				continue
			}
			faults := []string{"error=EIO", "signal=KILL"}
			if c.name == "write" || c.name == "openat" {
				faults = append(faults, "error=ENOSPC")
			}
			if strings.HasPrefix(c.name, "rename") {
				faults = append(faults, "error=EACCES", "error=EXDEV")
			}
			if strings.HasPrefix(c.name, "unlink") {
				faults = append(faults, "error=EACCES")
			}
			for _, f := range faults {
				reset()
				before := snap(sub)
				got, _, err := trace(dir, tag, etag, fmt.Sprintf("%s:%s:when=%d", c.name, f, c.nth))
				if err != nil {
					continue
				}
				hit := ""
				for _, g := range got {
					if strings.Contains(g.line, "(INJECTED)") || f == "signal=KILL" && g.name == c.name && g.nth == c.nth {
						hit = g.name + "(" + g.line
					}
				}
				if hit == "" {
					continue // the fault struck a call that has nothing to do with the cache
				}
				r.Case(c.name + " " + f)
				kinds[c.name+" "+f] = true
				after := snap(sub)
				kill := f == "signal=KILL"
				// a failed write, sync or close of the new content must keep the old
				fd := ""
				if m := fdPath.FindStringSubmatch(c.line); m != nil {
					fd = m[1]
				}
				st, serr := os.Stat(fd)
				isDir := serr == nil && st.IsDir()
				may := kill || fd == "" || isDir || !wrote[fd]
				// removing the temporary file may itself have been made to fail
				crashed := kill || strings.HasPrefix(c.name, "unlink")
				if msg := judge(before, after, tag, etag, crashed, may); msg != "" {
					r.Violation("fault", msg, map[string]any{"fault": f, "at": hit, "before": before, "after": after})
				}
				if msg := order(got, filepath.Join(sub, cacheName)); msg != "" {
					r.Violation("order", msg, map[string]any{"fault": f, "systemCalls": lines(got)})
				}
			}
			if r.Violations() > 3 {
				return
			}
		}
		os.RemoveAll(top)
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Println("NOTE: faults injected at:", strings.Join(ks, ", "))
}

func lines(cs []call) []string {
	var o []string
	for _, c := range cs {
		o = append(o, c.name+"("+c.line)
	}
	return o
}

func readers(t *testing.T, r *verifh.R, root string) {
	dir := filepath.Join(root, "conc")
	sub := filepath.Join(dir, "bab")
	os.MkdirAll(sub, 0o755)
	var cnt atomic.Int64
	setup(dir, &fakeNet{tag: func() (string, string) {
		k := cnt.Add(1)
		return fmt.Sprintf("v1.%d.0", k), strings.Repeat("e", int(k*37%4000))
	}})
	var wg, rd sync.WaitGroup
	stop := make(chan struct{})
	var bad atomic.Value
	rd.Add(1)
	go func() {
		defer rd.Done()
		had := false
		for {
			select {
			case <-stop:
				return
			default:
			}
			b, err := os.ReadFile(filepath.Join(sub, cacheName))
			if err != nil {
				if had {
					bad.Store("the cache file disappeared: " + err.Error())
				}
				continue
			}
			had = true
			var e entry
			var k int
			if json.Unmarshal(b, &e) != nil {
				bad.Store("incomplete content read: " + string(b))
			} else if _, err := fmt.Sscanf(e.LatestVersion, "v1.%d.0", &k); err != nil || e.ETag != strings.Repeat("e", k*37%4000) {
				bad.Store("mixed content read: " + string(b))
			}
		}
	}()
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < verifh.N(150, 1500); i++ {
				update.ForceCheck("v1.0.0")
				r.Case("concurrent save")
			}
		}()
	}
	wg.Wait()
	close(stop)
	rd.Wait()
	if m := bad.Load(); m != nil {
		r.Violation("reader", m.(string), nil)
	}
	for n := range snap(sub) {
		if n != cacheName {
			r.Violation("left", "a file was left behind: "+n, nil)
		}
	}
}
