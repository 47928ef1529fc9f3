package runner_test

import (
	"bytes"
	"fmt"
	"image/color"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/verifh"
)

var col = color.RGBA{1, 2, 3, 255}

// bad describes why a shown line could drive the terminal ("" = it cannot).
func bad(line string, colours bool) string {
	for i := 0; i < len(line); {
		c, n := utf8.DecodeRuneInString(line[i:])
		switch {
		case c == 0x1b:
			if !colours {
				return "an escape character with colours off"
			}
			j := i + 1
			if j >= len(line) || line[j] != '[' {
				return "an escape character that starts no SGR sequence"
			}
			for j++; j < len(line) && strings.IndexByte("0123456789;:", line[j]) >= 0; j++ {
			}
			if j >= len(line) || line[j] != 'm' {
				return "an escape character that starts no complete SGR sequence"
			}
			i = j + 1
			continue
		case c == '\t':
		case c < 0x20 || c == 0x7f || c >= 0x80 && c <= 0x9f:
			return fmt.Sprintf("the control character %#x", c)
		}
		i += n
	}
	return ""
}

// TestVerifSanitize: random bytes, with many fragments of escape sequences, through the writer.
func TestVerifSanitize(t *testing.T) {
	r := verifh.New("a random line of bytes with fragments of control sequences, colours on or off; distinct lines")
	defer r.Done()
	frag := []string{"\x1b", "\x1b[", "\x1b[31m", "\x1b[0m", "\x1b[1;38;5;10m", "\x1b[4:3m", "\x1b[2J", "\x1b[H", "\x1b]0;t\x07", "\x1b]8;;u\x1b\\", "\x1bP", "\x1bPq\x1b\\", "\x1b_x\x1b\\", "\x1b^y\x07", "\x1bX", "\x1b(B", "\x1bc", "\x1bM", "\x1b7", "\u009b31m", "\x9b31m", "\x9b2J", "\u009b2J", "\x9d0;x\x9c", "\x90", "\x18", "\x1a", "\x07", "\x08", "\x00", "\x7f", "\x0e", "\u0085", "\x85", "\t", "a", "é", "日", "m", "[", "31", ";", ":", "?25l", ">0;1m", "?1m", "\x1b[?1m", "\x1b[>4;2m", "\x1b[ m", "\x1b[31", "J", "text", "\x1b[38;2;1;2;3m", "\xc2", "\xe2\x82", "\xff", "\x1b\x1b[31m", "\x1b[3\x071m", "\x1b[\x1b[31mm", "\x1b[1$m", "\x1b[1!m", "😀", "\x1b[;m", "\x1b[m"}
	for i := 0; i < verifh.N(120000, 3000000); i++ {
		s := ""
		for k := r.Intn(7); k >= 0; k-- {
			if r.Intn(10) == 0 {
				s += string([]byte{byte(r.Intn(256))})
			} else {
				s += frag[r.Intn(len(frag))]
			}
		}
		s = strings.ReplaceAll(s, "\n", "")
		colours := r.Intn(2) == 0
		r.Case(s)
		out, err := show(s, colours)
		if err != "" {
			r.Violation("fail", fmt.Sprintf("line %q: %s", s, err), nil)
			return
		}
		if why := bad(out, colours); why != "" {
			r.Violation("control", fmt.Sprintf("line %q (colours %v) is shown as %q, which contains %s", s, colours, out, why), map[string]any{"line": s})
		}
		// printable text is not altered
		p := strings.Map(func(c rune) rune {
			if c < 0x20 && c != '\t' || c >= 0x7f && c <= 0x9f || c == utf8.RuneError {
				return -1
			}
			return c
		}, s)
		if o2, _ := show(p, colours); o2 != p {
			r.Violation("altered", fmt.Sprintf("printable line %q is shown as %q", p, o2), nil)
		}
		if colours {
			q := p + "\x1b[1;31m" + p + "\x1b[0m"
			if o2, _ := show(q, true); o2 != q {
				r.Violation("colour", fmt.Sprintf("coloured line %q is shown as %q", q, o2), nil)
			}
		}
		if r.Violations() > 3 {
			return
		}
	}
}

func show(s string, colours bool) (line string, fail string) {
	type res struct{ l, f string }
	ch := make(chan res, 1)
	go func() {
		var rr res
		defer func() {
			if e := recover(); e != nil {
				rr.f = fmt.Sprintf("panic: %v", e)
			}
			ch <- rr
		}()
		var out bytes.Buffer
		var mu sync.Mutex
		w := runner.NewPrefixWriter("L", 1, col, &out, &mu, !colours)
		if _, err := w.Write([]byte(s + "\n")); err != nil {
			rr.f = err.Error()
			return
		}
		o := out.String()
		i := strings.Index(o, "[L]")
		if i < 0 || !strings.HasSuffix(o, "\n") {
			rr.f = fmt.Sprintf("no labelled line: %q", o)
			return
		}
		o = o[i+3:]
		if strings.HasPrefix(o, "\x1b[m ") {
			o = o[4:]
		} else if strings.HasPrefix(o, "\x1b[0m ") {
			o = o[5:]
		} else {
			o = strings.TrimPrefix(o, " ")
		}
		rr.l = strings.TrimSuffix(o, "\n")
	}()
	select {
	case x := <-ch:
		return x.l, x.f
	case <-time.After(20 * time.Second):
		return "", "no answer"
	}
}
