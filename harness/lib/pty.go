package verifh

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Session is a bab process on a terminal of its own.
type Session struct {
	cmd  *exec.Cmd
	pty  *os.File
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	Code int
}

func ioctl(fd, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

// Terminal starts bab in dir on a new pseudo terminal (40 rows, 100 columns).
func Terminal(dir string, env []string, args ...string) (*Session, error) {
	exe, err := Bab()
	if err != nil {
		return nil, err
	}
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	var n uint32
	var unlock int32
	if err := ioctl(m.Fd(), 0x80045430 /* TIOCGPTN */, uintptr(unsafe.Pointer(&n))); err != nil {
		return nil, err
	}
	if err := ioctl(m.Fd(), 0x40045431 /* TIOCSPTLCK */, uintptr(unsafe.Pointer(&unlock))); err != nil {
		return nil, err
	}
	ws := [4]uint16{40, 100, 0, 0}
	ioctl(m.Fd(), 0x5414 /* TIOCSWINSZ */, uintptr(unsafe.Pointer(&ws)))
	t, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	s := &Session{pty: m, done: make(chan struct{}), Code: -1}
	s.cmd = exec.Command(exe, args...)
	s.cmd.Dir = dir
	s.cmd.Env = append(append([]string{}, env...), "TERM=xterm-256color")
	s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = t, t, t
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := s.cmd.Start(); err != nil {
		t.Close()
		m.Close()
		return nil, err
	}
	t.Close()
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			if n > 0 {
				s.mu.Lock()
				s.out.Write(b[:n])
				s.mu.Unlock()
				for _, q := range queryRe.FindAllString(string(b[:n]), -1) {
					m.Write([]byte(queries[q]))
				}
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		s.cmd.Wait()
		s.Code = s.cmd.ProcessState.ExitCode()
		close(s.done)
	}()
	return s, nil
}

// what a terminal answers when asked
var queries = map[string]string{
	"\x1b]10;?": "\x1b]10;rgb:ffff/ffff/ffff\x1b\\",
	"\x1b]11;?": "\x1b]11;rgb:0000/0000/0000\x1b\\",
	"\x1b[c":    "\x1b[?62;22c",
	"\x1b[6n":   "\x1b[1;1R",
}
var queryRe = regexp.MustCompile("\x1b\\]1[01];\\?|\x1b\\[c|\x1b\\[6n")

var escRe = regexp.MustCompile("\x1b\\[[0-9;:?<>=]*[ -/]*[@-~]|\x1b\\][^\x07\x1b]*(\x07|\x1b\\\\)|\x1b[=>]")

// Text is what was written so far, without escape sequences.
func (s *Session) Text() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return escRe.ReplaceAllString(s.out.String(), "")
}

func (s *Session) Len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.Len()
}

// After is what was written after the first n bytes.
func (s *Session) After(n int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return escRe.ReplaceAllString(s.out.String()[n:], "")
}

func (s *Session) Send(k string) { s.pty.Write([]byte(k)) }

// Expect waits until cond holds; false when bab ended or the time is over first.
func (s *Session) Expect(cond func() bool, d time.Duration) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		select {
		case <-s.done:
			return cond()
		default:
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// Settle waits until nothing was written for d.
func (s *Session) Settle(d time.Duration) {
	last, at := s.Len(), time.Now()
	for time.Since(at) < d {
		if s.Ended(3 * time.Millisecond) {
			return
		}
		if n := s.Len(); n != last {
			last, at = n, time.Now()
		}
	}
}

// Ended waits at most d for bab to end.
func (s *Session) Ended(d time.Duration) bool {
	select {
	case <-s.done:
		return true
	default:
	}
	select {
	case <-s.done:
		return true
	case <-time.After(d):
		return false
	}
}

// Close ends the session.
func (s *Session) Close() {
	if !s.Ended(0) {
		syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
		s.cmd.Process.Kill()
		s.Ended(5 * time.Second)
	}
	s.pty.Close()
}

// Raw is everything written so far.
func (s *Session) Raw() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.String()
}
