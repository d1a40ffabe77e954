// The runner replays harnesses on the compiled code with recorded values.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/tokenized/pkg/bitcoin"

	"verifharness/sym"
)

type req struct {
	ID      int        `json:"id"`
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Stream  []sym.Item `json:"stream"`
}

type res struct {
	ID     int      `json:"id"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func main() {
	debug.SetMaxStack(256 << 20)
	rand.VerifHook = sym.Rand
	randv2.VerifHook = sym.Rand
	bitcoin.VerifSigned = func(b []byte) {
		if _, ok := sym.Cur.SigLen[string(b)]; !ok {
			sym.Cur.SigLen[string(b)] = sym.SigLength()
		}
	}
	bitcoin.VerifSigBytes = func(b []byte) []byte {
		n, ok := sym.Cur.SigLen[string(b)]
		if !ok {
			return b
		}
		r := make([]byte, n)
		copy(r, b)
		return r
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	dec := json.NewDecoder(in)
	for {
		var r req
		if err := dec.Decode(&r); err != nil {
			return
		}
		done := make(chan res, 1)
		go func() { done <- one(r) }()
		select {
		case x := <-done:
			out.Encode(x)
		case <-time.After(20 * time.Second):
			out.Encode(res{ID: r.ID, Status: "timeout"})
			os.Exit(3)
		}
	}
}

func one(r req) (x res) {
	sym.Cur = &sym.State{Stream: r.Stream, Thorough: r.Tier == "thorough", SigLen: map[string]int{}}
	x.ID = r.ID
	defer func() {
		x.Obs = sym.Cur.Obs
		if e := recover(); e != nil {
			switch e := e.(type) {
			case sym.AssertFailed:
				x.Status, x.Msg = "assert", e.Label
			case sym.AssumeFailed:
				x.Status = "assume"
			case sym.Diverged:
				x.Status, x.Msg = "diverge", e.Msg
			default:
				x.Status, x.Msg = "panic", fmt.Sprint(e)
				st := strings.Split(string(debug.Stack()), "\n")
				for _, l := range st {
					if strings.Contains(l, "txbuilder") && strings.Contains(l, ".go:") {
						x.Msg += " at " + strings.TrimSpace(l)
						break
					}
				}
			}
		}
	}()
	f := table[r.Harness]
	if f == nil {
		x.Status = "diverge"
		x.Msg = "unknown harness"
		return
	}
	f()
	x.Status = "ok"
	return
}
