package update_test

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/adrg/xdg"
	"github.com/bab-sh/bab/internal/update"
	"github.com/bab-sh/bab/internal/verifh"
)

// ---- versions, built from parts so that their order is known ----

type ver struct {
	text string
	ok   bool
	seg  [3]int
	pre  int // 0 none; the pre-releases below in their order
}

var pres = []string{"", "alpha", "alpha.1", "beta", "beta.2", "beta.11", "rc.1"}

func version(r *verifh.R) ver {
	if r.Intn(6) == 0 {
		bad := []string{"latest", "v", "1..2", "v1.2.x", "not a version", "1.2.3.", "-1.2", "nightly-2024", "v1,2", "½"}
		return ver{text: bad[r.Intn(len(bad))]}
	}
	var v ver
	v.ok = true
	vals := []int{0, 1, 2, 9, 10, 11, 100, 21}
	for i := range v.seg {
		v.seg[i] = vals[r.Intn(len(vals))]
		if r.Intn(3) > 0 {
			v.seg[i] = r.Intn(2)
		}
	}
	n := 3
	if r.Intn(8) == 0 {
		n = 2
		v.seg[2] = 0
	}
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, strconv.Itoa(v.seg[i]))
	}
	v.text = strings.Join(p, ".")
	if r.Intn(2) == 0 {
		v.text = "v" + v.text
	}
	if r.Intn(4) == 0 {
		v.pre = r.Intn(len(pres))
	}
	if v.pre > 0 {
		v.text += "-" + pres[v.pre]
	}
	if r.Intn(8) == 0 {
		v.text += "+build." + strconv.Itoa(r.Intn(9))
	}
	return v
}

func newer(a, b ver) bool {
	if !a.ok || !b.ok {
		return false
	}
	for i := range a.seg {
		if a.seg[i] != b.seg[i] {
			return a.seg[i] > b.seg[i]
		}
	}
	rank := func(v ver) int {
		if v.pre == 0 {
			return 1000
		}
		return v.pre
	}
	return rank(a) > rank(b)
}

// ---- the server ----

type answer struct {
	kind, tag, etag string
	status          int
	body            string
	err             error
	location        string
}

type server struct {
	mu   sync.Mutex
	ans  answer
	seen []*http.Request
}

type cutBody struct{ b *bytes.Reader }

func (c *cutBody) Read(p []byte) (int, error) {
	n, err := c.b.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}
func (c *cutBody) Close() error { return nil }

func (s *server) RoundTrip(q *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen = append(s.seen, q)
	a := s.ans
	if a.err != nil {
		return nil, a.err
	}
	h := http.Header{}
	if a.etag != "" {
		h.Set("ETag", a.etag)
	}
	if a.location != "" {
		h.Set("Location", a.location)
	}
	var body io.ReadCloser = io.NopCloser(strings.NewReader(a.body))
	if a.kind == "cut" {
		body = &cutBody{bytes.NewReader([]byte(a.body))}
	}
	return &http.Response{StatusCode: a.status, Status: strconv.Itoa(a.status), Header: h, Body: body, Request: q, ProtoMajor: 1, ProtoMinor: 1}, nil
}

// reply picks an answer; ok: it is a successful, non-empty one.
func reply(r *verifh.R, v ver) (answer, bool) {
	good, _ := json.Marshal(map[string]any{"url": "u", "tag_name": v.text, "draft": false})
	et := []string{"", `"abc"`, `W/"x"`}[r.Intn(3)]
	switch r.Intn(14) {
	case 0:
		return answer{kind: "error", err: errors.New("no route to host")}, false
	case 1:
		return answer{kind: "500", status: 500, body: string(good), etag: et}, false
	case 2:
		return answer{kind: "404", status: 404, body: string(good), etag: et}, false
	case 3:
		return answer{kind: "403", status: 403, body: `{"message":"rate limit"}`}, false
	case 4:
		return answer{kind: "empty tag", status: 200, body: `{"tag_name":""}`, etag: et}, false
	case 5:
		return answer{kind: "no tag", status: 200, body: `{"name":"x"}`, etag: et}, false
	case 6:
		return answer{kind: "null", status: 200, body: `null`, etag: et}, false
	case 7:
		return answer{kind: "not json", status: 200, body: `<html>`, etag: et}, false
	case 8:
		return answer{kind: "cut", status: 200, body: string(good[:len(good)-1-r.Intn(len(good)-1)]), etag: et}, false
	case 9:
		return answer{kind: "empty body", status: 200}, false
	case 10:
		return answer{kind: "redirect", status: 302, body: string(good), location: "https://example.invalid/x"}, false
	case 11:
		return answer{kind: "304", status: 304, etag: et}, true
	}
	return answer{kind: "ok", status: 200, body: string(good), etag: et, tag: v.text}, true
}

type entry struct {
	CheckedAt     time.Time `json:"checked_at"`
	LatestVersion string    `json:"latest_version"`
	ETag          string    `json:"etag"`
}

// TestVerifNotice: random cache contents, server answers, environments and versions.
func TestVerifNotice(t *testing.T) {
	r := verifh.New("running version, cache content (complete, incomplete, unreadable, from the future, old, absent), environment switches, and server answer; distinct combinations")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	srv := &server{}
	http.DefaultTransport = srv
	http.DefaultClient.Transport = srv
	for i := 0; i < verifh.N(15000, 200000) && r.Violations() < 4; i++ {
		synctest.Test(t, func(t *testing.T) { one(t, r, root, i, srv) })
	}
}

func one(t *testing.T, r *verifh.R, root string, i int, srv *server) {
	time.Sleep(time.Duration(r.Intn(1000)) * time.Hour)
	now := time.Now()
	dir := filepath.Join(root, fmt.Sprintf("c%d", i))
	file := filepath.Join(dir, "bab", "update-check.json")
	defer os.RemoveAll(dir)
	os.Setenv("XDG_CACHE_HOME", dir)
	xdg.Reload()
	cur, lat, srvV := version(r), version(r), version(r)
	dev := false
	if r.Intn(12) == 0 {
		cur = ver{text: []string{"dev", ""}[r.Intn(2)]}
		dev = true
	}
	if cur.text == "" && !dev {
		dev = true
	}
	disabled := dev
	var envs []string
	set := func(k, v string, off bool) {
		if v == "<unset>" {
			os.Unsetenv(k)
			return
		}
		os.Setenv(k, v)
		envs = append(envs, k+"="+v)
		disabled = disabled || off
	}
	set("CI", "<unset>", false)
	set("BAB_NO_UPDATE_CHECK", "<unset>", false)
	if r.Intn(6) == 0 {
		v := []string{"true", "1", "false", "0", "", "yes"}[r.Intn(6)]
		set("CI", v, v == "true" || v == "1")
	}
	if r.Intn(6) == 0 {
		v := []string{"1", "0", "", "1", "1"}[r.Intn(5)]
		set("BAB_NO_UPDATE_CHECK", v, v == "1")
	}
	// the cache
	kind := ""
	var valid *entry
	put := func(s string) {
		os.MkdirAll(filepath.Dir(file), 0o755)
		os.WriteFile(file, []byte(s), 0o600)
	}
	e := entry{CheckedAt: now.Add(-time.Duration(r.Intn(60*3600)) * time.Second).UTC(), LatestVersion: lat.text, ETag: []string{"", `"e1"`}[r.Intn(2)]}
	js := func(e any) string { b, _ := json.Marshal(e); return string(b) }
	switch r.Intn(12) {
	case 0:
		kind = "absent"
	case 1:
		kind = "garbage"
		put([]string{"", "{", "null", "[]", `"v9.9.9"`, "\x00\x01", `{"latest_version":9}`, `{"checked_at":"yesterday","latest_version":"v9.9.9"}`}[r.Intn(8)])
	case 2:
		kind = "cut"
		s := js(e)
		put(s[:r.Intn(len(s))])
	case 3:
		kind = "directory"
		os.MkdirAll(file, 0o755)
	case 4:
		kind = "no version"
		put(js(map[string]any{"checked_at": e.CheckedAt, "etag": "x"}))
	case 5:
		kind = "empty version"
		put(js(entry{e.CheckedAt, "", "x"}))
	case 6:
		kind = "future"
		e.CheckedAt = now.Add(time.Duration(1+r.Intn(10000)) * time.Second)
		put(js(e))
	default:
		kind = "complete"
		if e.LatestVersion != "" {
			valid = &e
		}
		put(js(e))
	}
	before := snapshot(dir)
	ans, good := reply(r, srvV)
	srv.mu.Lock()
	srv.ans, srv.seen = ans, nil
	srv.mu.Unlock()
	op := []string{"check", "check", "refresh", "refresh", "force"}[r.Intn(5)]
	det := map[string]any{"operation": op, "running": cur.text, "cache": kind, "cacheEntry": js(e), "environment": envs, "answer": ans.kind, "answeredTag": srvV.text}
	r.Case(strings.Join([]string{op, cur.text, kind, lat.text, ans.kind, strings.Join(envs, " ")}, "|"))
	bad := func(k, what string) {
		r.Violation(k, what, det)
	}
	var got *update.Info
	wantInfo := false
	var latest string
	switch op {
	case "check":
		got = update.CheckCached(cur.text)
		synctest.Wait()
		wantInfo = !disabled && valid != nil && newer(lat, cur)
		latest = lat.text
		if len(srv.seen) > 0 {
			bad("net", "looking up the cached notice accessed the network")
		}
		if d := diff(before, snapshot(dir)); d != "" && !(d == "bab new") {
			bad("write", "looking up the cached notice changed the cache: "+d)
		}
	case "refresh":
		update.StartBackgroundRefresh(context.Background(), cur.text)
		synctest.Wait()
		time.Sleep(time.Minute)
		synctest.Wait()
	case "force":
		got = update.ForceCheck(cur.text)
		synctest.Wait()
		wantInfo = !disabled && good && ans.kind == "ok" && newer(srvV, cur)
		latest = srvV.text
	}
	if op == "check" || op == "force" {
		det["notice"] = got
		switch {
		case wantInfo && got == nil:
			bad("missing", "no notice although a newer release is known")
		case !wantInfo && got != nil:
			bad("false", "a notice although no newer release is known (or checks are disabled)")
		case got != nil && (got.CurrentVersion != cur.text || got.LatestVersion != latest):
			bad("names", "the notice does not name the two versions")
		}
	}
	after := snapshot(dir)
	d := diff(before, after)
	if disabled {
		if len(srv.seen) > 0 {
			bad("net", "network access although checks are disabled")
		}
		if d != "" {
			bad("access", "the cache was touched although checks are disabled: "+d)
		}
		return
	}
	if op == "check" {
		return
	}
	for _, q := range srv.seen {
		if q.Header.Get("If-None-Match") != "" && (op == "force" || valid == nil || q.Header.Get("If-None-Match") != valid.ETag) {
			bad("etag", "the request refers to a cache entry that counts as absent")
		}
		if q.URL.Scheme != "https" {
			bad("url", "request to "+q.URL.String())
		}
	}
	if len(srv.seen) > 1 {
		bad("requests", "more than one request")
	}
	// what the cache should hold now
	used := len(srv.seen) > 0
	if op == "refresh" && valid == nil && !used {
		bad("norefresh", "no refresh although there is no valid cache entry")
	}
	wantE := entry{}
	save := used && good
	if ans.kind == "304" {
		if op == "force" || valid == nil {
			save = false
		} else {
			wantE = entry{LatestVersion: valid.LatestVersion, ETag: valid.ETag}
		}
	} else {
		wantE = entry{LatestVersion: ans.tag, ETag: ans.etag}
	}
	if kind == "directory" {
		save = false
	}
	if !save {
		if d != "" && d != "bab new" {
			bad("overwritten", "the cache was changed although the server's answer failed or was empty: "+d)
		}
		return
	}
	b, _ := os.ReadFile(file)
	var ge entry
	if err := json.Unmarshal(b, &ge); err != nil || ge.LatestVersion != wantE.LatestVersion || ge.ETag != wantE.ETag || ge.CheckedAt.After(time.Now()) || ge.CheckedAt.Before(now) {
		det["cacheAfter"] = string(b)
		bad("saved", "the answer was not saved")
	}
}

func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if st.IsDir() {
			m[rel] = "<dir>"
		} else {
			b, _ := os.ReadFile(p)
			m[rel] = string(b) + st.ModTime().String()
		}
		return nil
	})
	return m
}

func diff(a, b map[string]string) string {
	var o []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			o = append(o, k+" gone")
		} else if v != w {
			o = append(o, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			o = append(o, k+" new")
		}
	}
	return strings.Join(o, ", ")
}
