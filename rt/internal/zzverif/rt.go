// Package zzverif is the support library of the bounded runtime contract
// checks. It is placed in the repository by a build overlay only.
package zzverif

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

type R struct {
	T        *testing.T
	ID, Name string
	*rand.Rand
	Seed     int64
	Tier     string
	start    time.Time
	budget   time.Duration
	evals    int
	distinct map[uint64]bool
	samples  []string
	fails    int
	cur      string
}

type stop struct{}

// Run executes one bounded contract check.
func Run(t *testing.T, id, name string, f func(r *R)) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	h := fnv.New64a()
	h.Write([]byte(id + name))
	r := &R{T: t, ID: id, Name: name, Seed: seed, Tier: os.Getenv("VERIF_TIER"), start: time.Now(), distinct: map[uint64]bool{}}
	r.Rand = rand.New(rand.NewSource(seed ^ int64(h.Sum64()>>1)))
	r.budget = 20 * time.Second
	if r.Tier == "thorough" {
		r.budget = 300 * time.Second
	}
	if r.Tier == "deep" {
		r.budget = 90 * time.Second
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); !ok {
				r.record(fmt.Sprintf("panic: %v\n%s", e, trim(string(debug.Stack()))))
			}
		}
		b, _ := json.Marshal(map[string]interface{}{"name": name, "evaluations": r.evals, "distinct": len(r.distinct), "samples": r.samples, "wall_s": time.Since(r.start).Seconds()})
		fmt.Printf("\nVERIFSTAT %s\n", b)
	}()
	f(r)
}

func trim(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Case announces the next input; the description identifies it.
func (r *R) Case(format string, a ...interface{}) {
	r.cur = fmt.Sprintf(format, a...)
	r.evals++
	h := fnv.New64a()
	h.Write([]byte(r.cur))
	if k := h.Sum64(); !r.distinct[k] {
		r.distinct[k] = true
		if len(r.samples) < 4 {
			r.samples = append(r.samples, r.Name+": "+r.cur)
		}
	}
}

func (r *R) record(msg string) {
	r.fails++
	b, _ := json.Marshal(map[string]string{"property": r.ID, "check": r.Name, "case": r.cur, "failure": trim(msg), "seed": fmt.Sprint(r.Seed)})
	fmt.Printf("\nVERIFFAIL %s\n", b)
	r.T.Fail()
}

// Fail reports a violation for the current case.
func (r *R) Fail(format string, a ...interface{}) {
	r.record(fmt.Sprintf(format, a...))
	if r.fails >= 6 {
		panic(stop{})
	}
}

// Try runs f for the current case; a panic is a violation.
func (r *R) Try(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			r.Fail("panic: %v\n%s", e, trim(string(debug.Stack())))
		}
	}()
	f()
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			p = true
		}
	}()
	f()
	return
}

// More reports whether there is time left for further sampling.
func (r *R) More() bool { return time.Since(r.start) < r.budget }

// N scales an iteration count by the tier.
func (r *R) N(quick int) int {
	switch r.Tier {
	case "thorough":
		return quick * 20
	case "deep":
		return quick * 6
	}
	return quick
}

// Dict holds integer literals found in the current source.
var Dict = func() []int64 {
	var d []int64
	for _, s := range strings.Split(os.Getenv("VERIF_DICT"), ",") {
		if u, err := strconv.ParseUint(s, 0, 64); err == nil {
			d = append(d, int64(u))
		}
	}
	return d
}()

// Word draws a word, biased towards boundary values.
func (r *R) Word() uint64 {
	switch r.Intn(8) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return -uint64(r.Intn(4))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 3:
		return -(uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1)
	case 4:
		if len(Dict) > 0 {
			return uint64(Dict[r.Intn(len(Dict))]) + uint64(r.Intn(3)) - 1
		}
	case 5:
		return r.Uint64() & (uint64(1)<<uint(r.Intn(64)) - 1)
	case 6:
		// long runs of ones
		a, b := uint(r.Intn(64)), uint(r.Intn(64))
		return (^uint64(0) << a) & (^uint64(0) >> b)
	}
	return r.Uint64()
}

// DictInts returns the dictionary entries within [lo,hi].
func DictInts(lo, hi int) []int {
	m := map[int]bool{}
	for _, d := range Dict {
		for e := int64(-1); e <= 1; e++ {
			if v := d + e; v >= int64(lo) && v <= int64(hi) {
				m[int(v)] = true
			}
		}
	}
	var o []int
	for v := range m {
		o = append(o, v)
	}
	sort.Ints(o)
	return o
}
