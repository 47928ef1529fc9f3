// Package verifh: helpers of the bounded harnesses (overlaid into /repo).
package verifh

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
)

type R struct {
	*rand.Rand
	mu      sync.Mutex
	n       int
	dist    map[string]bool
	samples []any
	viols   int
	rule    string
}

func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks the number of cases for the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

func New(rule string) *R {
	return &R{Rand: rand.New(rand.NewSource(Seed()*7919 + 11)), dist: map[string]bool{}, rule: rule}
}

// Case counts one evaluation; key identifies a distinct non-trivial case ("" = trivial).
func (r *R) Case(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	if key != "" && len(r.dist) < 2000000 {
		if !r.dist[key] && len(r.samples) < 4 {
			k := key
			if len(k) > 300 {
				k = k[:300]
			}
			r.samples = append(r.samples, k)
		}
		r.dist[key] = true
	}
}

func write(v any) {
	f := os.Getenv("VERIF_OUT")
	if f == "" {
		b, _ := json.Marshal(v)
		fmt.Println(string(b))
		return
	}
	h, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	defer h.Close()
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(map[string]any{"kind": "violation", "what": fmt.Sprintf("%#v", v)})
	}
	h.Write(append(b, '\n'))
}

// Violation reports a failing input.
func (r *R) Violation(key, what string, detail map[string]any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viols++
	if r.viols > 10 {
		return
	}
	write(map[string]any{"kind": "violation", "key": key, "what": what, "detail": detail})
}

func (r *R) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return r.viols }

// Done writes the summary.
func (r *R) Done() {
	write(map[string]any{"kind": "summary", "evaluations": r.n, "distinct": len(r.dist), "rule": r.rule, "samples": r.samples})
}

// Pick chooses one element.
func Pick[T any](r *R, xs ...T) T { return xs[r.Intn(len(xs))] }
