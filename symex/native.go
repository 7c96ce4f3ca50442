package main

// Native replay: a binary built from the same harness sources and /repo.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type Result1 struct {
	Status string   `json:"status"` // ok, fail, panic, assume, missing
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type Runner struct {
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (r *Runner) start() error {
	r.cmd = exec.Command(r.bin)
	r.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1GiB")
	var err error
	if r.in, err = r.cmd.StdinPipe(); err != nil {
		return err
	}
	out, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.cmd.Stderr = nil
	r.out = bufio.NewReaderSize(out, 1<<20)
	return r.cmd.Start()
}

func (r *Runner) Close() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

const hangAfter = 30 * time.Second

// Run replays one input vector. A crash of the process counts as a panic, no
// answer within hangAfter (twice) as a hang.
func (r *Runner) Run(h string, tier int, in map[string]string) *Result1 {
	res := r.run1(h, tier, in)
	if res.Status == "hang" || res.Status == "crash" {
		res = r.run1(h, tier, in)
	}
	if res.Status == "crash" {
		res.Status = "panic"
	}
	return res
}

func (r *Runner) run1(h string, tier int, in map[string]string) *Result1 {
	if r.cmd == nil {
		if err := r.start(); err != nil {
			r.cmd = nil
			return &Result1{Status: "norunner", Msg: err.Error()}
		}
	}
	req, _ := json.Marshal(map[string]interface{}{"h": h, "tier": tier, "in": in})
	proc := r.cmd.Process
	hung := false
	timer := time.AfterFunc(hangAfter, func() { hung = true; proc.Kill() })
	defer timer.Stop()
	if _, err := r.in.Write(append(req, '\n')); err != nil {
		r.Close()
		return &Result1{Status: "crash", Msg: "the process died"}
	}
	line, err := r.out.ReadString('\n')
	if err != nil {
		r.Close()
		if hung {
			return &Result1{Status: "hang", Msg: fmt.Sprintf("no answer within %v", hangAfter)}
		}
		return &Result1{Status: "crash", Msg: "the process died"}
	}
	var res Result1
	if err := json.Unmarshal([]byte(line), &res); err != nil {
		return &Result1{Status: "norunner", Msg: "bad answer: " + line}
	}
	return &res
}

// overlayFiles gives the virtual files of the harness inside the repository.
func overlayFiles(verif, repo string, funcs []string) (map[string]string, error) {
	ov := map[string]string{}
	for _, d := range []string{"vsym", "h", "run"} {
		fs, err := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			ov[filepath.Join(repo, "zzverif", d, filepath.Base(f))] = f
		}
	}
	if len(ov) == 0 {
		return nil, fmt.Errorf("no harness files under %s", verif)
	}
	return ov, nil
}

func registrySource(mod string, funcs []string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport %q\n\nfunc init() {\n", mod+"/zzverif/h")
	for _, f := range funcs {
		fmt.Fprintf(&sb, "\tregistry[%q] = h.%s\n", f, f)
	}
	sb.WriteString("}\n")
	return sb.String()
}

func buildRunner(work, repo, mod string, ov map[string]string, funcs []string) (string, error) {
	reg := filepath.Join(work, "registry.go")
	if err := os.WriteFile(reg, []byte(registrySource(mod, funcs)), 0o644); err != nil {
		return "", err
	}
	m := map[string]string{filepath.Join(repo, "zzverif", "run", "registry.go"): reg}
	for k, v := range ov {
		m[k] = v
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": m})
	ovf := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(ovf, js, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "runner")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zzverif/run")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the native runner: %v\n%s", err, out)
	}
	return bin, nil
}
