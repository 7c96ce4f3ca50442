// Command run replays solver models natively: one JSON request per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/mewmew/float/zzverif/vsym"
)

var registry = map[string]func(){}

type request struct {
	H    string            `json:"h"`
	Tier int               `json:"tier"`
	In   map[string]string `json:"in"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func run(r request) (res result) {
	f, ok := registry[r.H]
	if !ok {
		return result{Status: "missing", Msg: "no harness " + r.H}
	}
	vsym.Start(r.In, r.Tier)
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(vsym.Stop); ok {
				res = result{Status: s.Status, Msg: s.Msg}
			} else {
				res = result{Status: "panic", Msg: fmt.Sprint(p)}
			}
		}
		res.Obs = vsym.Observed()
	}()
	f()
	return result{Status: "ok"}
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var r request
		if err := json.Unmarshal(in.Bytes(), &r); err != nil {
			out.Encode(result{Status: "missing", Msg: err.Error()})
			continue
		}
		out.Encode(run(r))
	}
}
