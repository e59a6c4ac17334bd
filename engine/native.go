package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// NatVal is one nondeterministic value of a native replay.
type NatVal struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	V    string `json:"v"`
}

type NatReq struct {
	Harness string   `json:"harness"`
	Tier    int      `json:"tier"`
	Inputs  []NatVal `json:"inputs"`
	Repeat  int      `json:"repeat"`
}

type NatRes struct {
	Status string   `json:"status"` // ok assert panic assume mismatch timeout
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// Native is the harness package compiled against the real repository.
type Native struct {
	bin  string
	runs int
	mu   sync.Mutex
}

func (n *Native) Run(h string, in []NatVal, tier int, repeat int) NatRes {
	n.mu.Lock()
	n.runs++
	n.mu.Unlock()
	// map iteration order differs between runs of the same process, so a
	// replay is repeated inside one process
	req, _ := json.Marshal(NatReq{h, tier, in, repeat})
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Stdin = bytes.NewReader(req)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return NatRes{Status: "timeout"}
	}
	var res NatRes
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	if e := json.Unmarshal([]byte(lines[len(lines)-1]), &res); e != nil {
		return NatRes{Status: "error", Msg: fmt.Sprint(err, " ", firstLine(errb.String()))}
	}
	return res
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// buildNative compiles the harness package through an overlay.
func buildNative(repo, go123 string, files map[string]string, scratch string) (*Native, error) {
	rep := map[string]string{}
	for name, path := range files {
		rep[filepath.Join(repo, "zzverif", name)] = path
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(scratch, "native")
	cmd := exec.Command(filepath.Join(go123, "go"), "build", "-overlay", ovf, "-o", bin, "./zzverif")
	cmd.Dir = repo
	cmd.Env = goEnv(go123)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("native build: %v\n%s", err, errb.String())
	}
	return &Native{bin: bin}, nil
}

func goEnv(go123 string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOSUMDB", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	has := func(k string) bool { return os.Getenv(k) != "" }
	env = append(env, "PATH="+go123+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	if !has("HOME") {
		env = append(env, "HOME=/root")
	}
	return env
}
