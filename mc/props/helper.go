package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// A helper is a fresh process of the checker that runs operations of the library and reports through file
// descriptor 3, so that what the library prints does not matter.

var helpers = map[string]func(args []string) any{}

// Helper runs the helper named in the environment, if any.
func Helper() {
	k := os.Getenv("VERIF_HELPER")
	if k == "" {
		return
	}
	f := helpers[k]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no helper", k)
		os.Exit(2)
	}
	b, err := json.Marshal(f(os.Args[1:]))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := os.NewFile(3, "result")
	out.Write(b)
	out.Close()
	os.Exit(0)
}

type helperRun struct {
	stdout, stderr bytes.Buffer
}

// runHelper runs a helper in a directory with extra environment and decodes its result. A process that dies is started
// again: what the library does to it happens each time.
func runHelper(kind, dir string, env []string, res any, args ...string) (h helperRun, err error) {
	for k := 0; k < 3; k++ {
		if h, err = startHelper(kind, dir, env, res, args...); err == nil {
			break
		}
	}
	return
}

func startHelper(kind, dir string, env []string, res any, args ...string) (h helperRun, err error) {
	exe, err := os.Executable()
	if err != nil {
		return h, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return h, err
	}
	defer r.Close()
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_HELPER="+kind)
	cmd.Env = append(cmd.Env, env...)
	cmd.ExtraFiles = []*os.File{w}
	cmd.Stdout, cmd.Stderr = &h.stdout, &h.stderr
	if err := cmd.Start(); err != nil {
		w.Close()
		return h, err
	}
	w.Close()
	var buf bytes.Buffer
	done := make(chan error, 1)
	go func() { _, e := buf.ReadFrom(r); done <- e }()
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	<-done
	if err != nil {
		return h, fmt.Errorf("process: %v: %s", err, tail(h.stderr.String(), 1500))
	}
	if err := json.Unmarshal(buf.Bytes(), res); err != nil {
		return h, fmt.Errorf("process result: %v: %s", err, tail(h.stderr.String(), 1500))
	}
	return h, nil
}

// tail is the two ends of a long text.
func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "..." + s[len(s)-n/2:]
	}
	return s
}

func intArgs(s string) (out []int) {
	if s == "" {
		return
	}
	for _, f := range strings.Split(s, ",") {
		n, err := strconv.Atoi(f)
		if err != nil {
			panic(err)
		}
		out = append(out, n)
	}
	return
}

func argInts(l []int) string {
	s := make([]string, len(l))
	for i, v := range l {
		s[i] = strconv.Itoa(v)
	}
	return strings.Join(s, ",")
}
