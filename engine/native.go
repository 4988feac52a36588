package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type NativeResult struct {
	Outcome string   `json:"outcome"` // ok, assert, panic, deadlock, skip, crash, error
	Msg     string   `json:"msg,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Runs    int      `json:"runs"`
}

type nativeReq struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
	Params  map[string]int `json:"params"`
	Steps   []string       `json:"steps"`
	Reps    int            `json:"reps"`
	Seed    int64          `json:"seed"`
	Timeout int            `json:"timeout_ms"`
	Stop    bool           `json:"stop"` // stop at the first repetition that is not ok
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

%s
)

var table = map[string]func(){
%s}

type req struct {
	Harness string                 ` + "`json:\"harness\"`" + `
	Inputs  map[string]interface{} ` + "`json:\"inputs\"`" + `
	Params  map[string]int         ` + "`json:\"params\"`" + `
	Steps   []string               ` + "`json:\"steps\"`" + `
	Reps    int                    ` + "`json:\"reps\"`" + `
	Seed    int64                  ` + "`json:\"seed\"`" + `
	Timeout int                    ` + "`json:\"timeout_ms\"`" + `
	Stop    bool                   ` + "`json:\"stop\"`" + `
}

type res struct {
	Outcome string   ` + "`json:\"outcome\"`" + `
	Msg     string   ` + "`json:\"msg\"`" + `
	Obs     []string ` + "`json:\"obs\"`" + `
	Runs    int      ` + "`json:\"runs\"`" + `
}

func once(r *req, rep int) res {
	steps := r.Steps
	if rep%%3 == 2 {
		steps = nil
	}
	sym.Begin(r.Inputs, r.Params, steps, r.Seed+int64(rep))
	done := make(chan res, 1)
	go func() {
		out := res{Outcome: "ok"}
		defer func() {
			if e := recover(); e != nil {
				if sym.IsSkip(e) {
					out.Outcome = "skip"
				} else if f, ok := e.(sym.Failure); ok {
					out.Outcome, out.Msg = "assert", f.Msg
				} else {
					out.Outcome, out.Msg = "panic", fmt.Sprint(e)+"\n"+string(debug.Stack())
				}
			}
			f, obs, _ := sym.Result()
			out.Obs = obs
			if f != "" {
				out.Outcome, out.Msg = "assert", f
			}
			done <- out
		}()
		table[r.Harness]()
	}()
	select {
	case o := <-done:
		return o
	case <-time.After(time.Duration(r.Timeout) * time.Millisecond):
		return res{Outcome: "deadlock", Msg: "did not end"}
	}
}

func main() {
	out := os.NewFile(3, "results")
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r req
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var o res
		for i := 0; i < r.Reps; i++ {
			o = once(&r, i)
			o.Runs = i + 1
			if o.Outcome != "ok" && o.Outcome != "skip" {
				break
			}
		}
		b, _ := json.Marshal(o)
		out.Write(append(b, '\n'))
		if o.Outcome == "deadlock" {
			os.Exit(0)
		}
	}
}
`

type Native struct {
	race  *Native // built with the race detector when first needed
	env   []string
	ovf   string
	repo  string
	flags string
	bin   string
	err   error
	ch    chan struct{}
	dir   string
}

// startNative builds the replay binary in the background.
func startNative(repo, work string, overlay map[string]string, hs []*Harness, goflags string, modfile string) *Native {
	n := &Native{ch: make(chan struct{}), dir: work}
	imports := map[string]string{symPkg: "sym"}
	var tbl strings.Builder
	for i, h := range hs {
		if _, ok := imports[h.Pkg]; !ok {
			imports[h.Pkg] = fmt.Sprintf("h%d", i)
		}
		fmt.Fprintf(&tbl, "\t%q: %s.%s,\n", h.Name, imports[h.Pkg], h.FnName)
	}
	var imp strings.Builder
	for _, p := range sortedKeys(imports) {
		fmt.Fprintf(&imp, "\t%s %q\n", imports[p], p)
	}
	src := fmt.Sprintf(nativeMain, imp.String(), tbl.String())
	mainFile := filepath.Join(work, "native_main.go")
	os.WriteFile(mainFile, []byte(src), 0o644)
	rep := map[string]string{filepath.Join(repo, "internal/zzverif/zzmain/main.go"): mainFile}
	for k, v := range overlay {
		rep[k] = v
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(work, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	n.bin, n.ovf, n.repo, n.flags = filepath.Join(work, "native"), ovf, repo, goflags
	go func() {
		defer close(n.ch)
		cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./internal/zzverif/zzmain")
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS="+goflags, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

// racing is the replay binary with Go's race detector.
func (n *Native) racing() *Native {
	if n.race == nil {
		r := &Native{bin: n.bin + "-race", dir: n.dir, ch: make(chan struct{}), env: []string{"GORACE=halt_on_error=1 exitcode=66"}}
		cmd := exec.Command("go", "build", "-race", "-overlay", n.ovf, "-o", r.bin, "./internal/zzverif/zzmain")
		cmd.Dir = n.repo
		cmd.Env = append(os.Environ(), "GOFLAGS="+n.flags, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			r.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
		close(r.ch)
		n.race = r
	}
	return n.race
}

func (n *Native) wait() error {
	<-n.ch
	return n.err
}

// run executes requests; a crash of the process is attributed to the request being executed.
func (n *Native) run(reqs []nativeReq, limit time.Duration) []NativeResult {
	out := make([]NativeResult, len(reqs))
	if err := n.wait(); err != nil {
		for i := range out {
			out[i] = NativeResult{Outcome: "error", Msg: err.Error()}
		}
		return out
	}
	end := time.Now().Add(limit)
	i := 0
	for i < len(reqs) {
		if time.Now().After(end) {
			for ; i < len(reqs); i++ {
				out[i] = NativeResult{Outcome: "error", Msg: "out of time"}
			}
			break
		}
		scratch, _ := os.MkdirTemp(n.dir, "run")
		cmd := exec.Command(n.bin)
		cmd.Dir = scratch
		cmd.Env = append(os.Environ(), "TMPDIR="+scratch)
		cmd.Env = append(cmd.Env, n.env...)
		var in bytes.Buffer
		for _, r := range reqs[i:] {
			b, _ := json.Marshal(r)
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd.Stdin = &in
		var errb bytes.Buffer
		cmd.Stderr = &limitWriter{&errb, 1 << 16}
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		cmd.ExtraFiles = []*os.File{pw}
		if err := cmd.Start(); err != nil {
			out[i] = NativeResult{Outcome: "error", Msg: err.Error()}
			i++
			pw.Close()
			pr.Close()
			continue
		}
		pw.Close()
		timer := time.AfterFunc(time.Until(end)+10*time.Second, func() { cmd.Process.Kill() })
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		last := ""
		for sc.Scan() {
			var r NativeResult
			if json.Unmarshal(sc.Bytes(), &r) == nil && i < len(out) {
				out[i] = r
				last = r.Outcome
				i++
			}
		}
		err = cmd.Wait()
		timer.Stop()
		pr.Close()
		os.RemoveAll(scratch)
		if i < len(reqs) && last != "deadlock" {
			msg := errb.String()
			oc := "crash"
			if strings.Contains(msg, "panic: ") || strings.Contains(msg, "fatal error: ") {
				oc = "panic"
			}
			if strings.Contains(msg, "WARNING: DATA RACE") {
				oc = "race"
			}
			if strings.Contains(msg, "all goroutines are asleep") {
				oc = "deadlock"
			}
			if strings.Contains(msg, "sym.Failure") {
				oc = "assert"
			}
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
			out[i] = NativeResult{Outcome: oc, Msg: fmt.Sprintf("%v\n%s", err, msg), Runs: 1}
			i++
		}
	}
	return out
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		q := p
		if len(q) > l.n-l.b.Len() {
			q = q[:l.n-l.b.Len()]
		}
		l.b.Write(q)
	}
	return len(p), nil
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortViol(vs []*Violation) {
	sort.SliceStable(vs, func(i, j int) bool {
		a, b := vs[i], vs[j]
		if a.MapDevs+a.Sched != b.MapDevs+b.Sched {
			return a.MapDevs+a.Sched < b.MapDevs+b.Sched
		}
		return len(a.Inputs) < len(b.Inputs)
	})
}
