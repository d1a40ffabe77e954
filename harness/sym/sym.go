// Package sym is the interface between harnesses and the checker. The checker gives these functions
// their symbolic meaning; the bodies below are used when a harness is replayed on the compiled code
// with concrete values.
package sym

import (
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"strings"
)

type Item struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	Val  string `json:"v"`
}

type State struct {
	Stream   []Item
	Pos      int
	Obs      []string
	Thorough bool
	SigLen   map[string]int
}

// Cur is the replay in progress.
var Cur *State

type (
	AssertFailed struct{ Label string }
	AssumeFailed struct{}
	Diverged     struct{ Msg string }
)

func next(kind, name string) string {
	if Cur.Pos >= len(Cur.Stream) {
		panic(Diverged{"no value left for " + kind + " " + name})
	}
	it := Cur.Stream[Cur.Pos]
	if it.Kind != kind || (kind == "var" && it.Name != name) {
		panic(Diverged{fmt.Sprintf("next value is %s %s, wanted %s %s", it.Kind, it.Name, kind, name)})
	}
	Cur.Pos++
	return it.Val
}

func num(kind, name string) uint64 {
	s := next(kind, name)
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return uint64(i)
	}
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return u
}

// Rand and SigLength feed the hooks of the runner.
func Rand(what string) uint64 { return num("rand", what) }
func SigLength() int          { return int(num("sig", "len")) }

func U64(name string) uint64                 { return num("var", name) }
func U64R(name string, lo, hi uint64) uint64 { return num("var", name) }
func I64R(name string, lo, hi int64) int64   { return int64(num("var", name)) }
func IntR(name string, lo, hi int) int       { return int(num("var", name)) }
func U32(name string) uint32                 { return uint32(num("var", name)) }
func I32(name string) int32                  { return int32(num("var", name)) }
func Byte(name string) byte                  { return byte(num("var", name)) }
func Bool(name string) bool                  { return num("var", name) == 1 }
func Choose(name string, n int) int          { return int(num("var", name)) }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Conc(v uint64) uint64 { return v }

func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(num("var", fmt.Sprintf("%s.%d", name, i)))
	}
	return r
}

// F32 is m * 2^exp with lo <= m <= hi.
func F32(name string, lo, hi int, exp int) float32 {
	return float32(math.Ldexp(float64(num("var", name)), exp))
}

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, label string) {
	if !c {
		panic(AssertFailed{label})
	}
}

// Reach marks a point that some path must get to.
func Reach(label string) {}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Symbolic() bool       { return false }
func Thorough() bool       { return Cur.Thorough }
func ShuffleMode(mode int) {}
func SigLens(lens ...int)  {}

// Observe records values for the comparison between the encoding and the compiled code.
func Observe(label string, vals ...interface{}) {
	s := label
	for _, v := range vals {
		switch v := v.(type) {
		case []byte:
			s += " " + hex.EncodeToString(v)
		case string:
			s += " " + hex.EncodeToString([]byte(v))
		default:
			s += fmt.Sprintf(" %v", v)
		}
	}
	Cur.Obs = append(Cur.Obs, s)
}

// ParseNum reads a decimal number out of formatted text.
func ParseNum(s string) (uint64, bool) {
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		i, err := strconv.ParseInt(s, 10, 64)
		return uint64(i), err == nil
	}
	return u, true
}

// ParseFixed reads the digits of a number formatted with the given count of decimals.
func ParseFixed(s string, decimals int) (uint64, bool) {
	i := strings.IndexByte(s, '.')
	if i < 0 || len(s)-i-1 != decimals {
		return 0, false
	}
	u, err := strconv.ParseUint(s[:i]+s[i+1:], 10, 64)
	return u, err == nil
}

// Capture runs f and gives what it printed.
func Capture(f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	text := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		text <- string(b)
	}()
	os.Stdout = w
	defer func() {
		os.Stdout = old
	}()
	defer w.Close()
	f()
	w.Close()
	return <-text
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	p = true
	defer func() {
		if p {
			r := recover()
			switch r.(type) {
			case AssertFailed, AssumeFailed, Diverged:
				panic(r)
			}
		}
	}()
	f()
	p = false
	return
}
