package eng

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 { // keep the end
		t.b = append([]byte(nil), t.b[len(t.b)-1<<16:]...)
	}
	return len(p), nil
}

type proc struct {
	cmd  *exec.Cmd
	err  *tail
	done chan error
	dead bool
	bin  int
}

func selfCmd(bin string, procs int, args ...string) *exec.Cmd {
	exe := os.Args[0]
	if bin != "" {
		exe += "." + bin
	}
	if procs == 0 {
		procs = 1
	}
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=all", "QRCODE_DEBUG=", "VERIF_WHICH="+bin,
		"GORACE=halt_on_error=1 exitcode=66")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	return c
}

// parent runs all spaces of a property; returns the exit code.
func parent(id, tier string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", id)
		return 2
	}
	start := time.Now()
	deadline := 560
	if tier == "thorough" {
		deadline = 3 * 3600
	}
	deadline = envInt("VERIF_DEADLINE", deadline)
	nw := envInt("VERIF_JOBS", 8)
	dir, err := os.MkdirTemp("", "mc."+id+".")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	wd := dir + "/cwd"
	os.Mkdir(wd, 0o755)
	sp := p.Spaces(tier)
	sh := openShared(dir + "/shared")
	// the spaces are run in one pass per build of the checker
	type build struct {
		bin   string
		procs int
	}
	var bins []build
	for _, s := range sp {
		k := -1
		for i, b := range bins {
			if b.bin == s.Bin {
				k = i
			}
		}
		if k < 0 {
			bins = append(bins, build{s.Bin, s.Procs})
		}
	}
	procs := make([]*proc, nw)
	spawn := func(w int, b int) {
		c := selfCmd(bins[b].bin, bins[b].procs, "worker", id, tier, dir+"/shared", dir, strconv.Itoa(w))
		c.Dir = wd
		c.Env = append(c.Env, "VERIF_BUILD="+strconv.Itoa(b))
		t := &tail{}
		c.Stdout, c.Stderr = nil, t
		pr := &proc{cmd: c, err: t, done: make(chan error, 1), bin: b}
		if err := c.Start(); err != nil {
			panic(err)
		}
		go func() { pr.done <- c.Wait() }()
		procs[w] = pr
	}
	for w := 0; w < nw; w++ {
		spawn(w, 0)
	}
	var viols []violRec
	timedOut := false
	respawns := 0
	type single struct {
		code int // 0 pass, 3 violation, -1 hang, other crash
		text string
	}
	runOne := func(s *Space, i int64, limit int, hist string) single {
		args := []string{"one", id, tier, s.Name, strconv.FormatInt(i, 10)}
		if hist != "" {
			args = append(args, hist)
		}
		c := selfCmd(s.Bin, s.Procs, args...)
		c.Dir = wd
		var so bytes.Buffer
		se := &tail{}
		c.Stdout, c.Stderr = &so, se
		if err := c.Start(); err != nil {
			return single{0, ""}
		}
		ch := make(chan error, 1)
		go func() { ch <- c.Wait() }()
		select {
		case err := <-ch:
			if err == nil {
				return single{0, ""}
			}
			ec := c.ProcessState.ExitCode()
			if ec == 3 {
				return single{3, so.String()}
			}
			if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				return single{0, "killed"}
			}
			return single{2, "process crashed: " + head(string(se.b))}
		case <-time.After(time.Duration(limit) * time.Second):
			syscall.Kill(-c.Process.Pid, syscall.SIGQUIT)
			time.Sleep(300 * time.Millisecond)
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			<-ch
			return single{-1, fmt.Sprintf("no answer after %d s: %s", limit, head(string(se.b)))}
		}
	}
	limitOf := func(s *Space) int {
		if s.Limit > 0 {
			return s.Limit
		}
		return 60
	}
	crashed := func(stderr string) bool {
		return (strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "DATA RACE")) &&
			!strings.Contains(stderr, "out of memory") && !strings.Contains(stderr, "cannot allocate")
	}
	outside := 0 // workers that crashed while they were not busy with a case
	halt := false
	// attribute handles a worker that died or hung in a case; true = go on.
	attribute := func(si int, i int64, how string, stderr string) {
		s := sp[si]
		bad, hung, txt := 0, 0, ""
		res := make(chan single, 3)
		for k := 0; k < 3; k++ {
			go func() { res <- runOne(s, i, limitOf(s), "") }()
		}
		for k := 0; k < 3; k++ {
			r := <-res
			if r.code != 0 {
				bad++
				txt = r.text
			}
			if r.code == -1 {
				hung++
			}
		}
		if hung > 0 && hung < 3 && bad == hung {
			bad = 0 // slow, not hung
		}
		if bad == 0 {
			if how == "crash" && !s.Env && crashed(stderr) {
				txt = "process crashed (not again when run alone): " + head(stderr)
			} else {
				fmt.Fprintf(os.Stderr, "note: worker %s in %s[%d] did not repeat; going on\n", how, s.Name, i)
				return
			}
		}
		viols = append(viols, violRec{Space: si, Name: s.Name, Index: i, Case: s.Desc(i), What: txt, repro: fmt.Sprintf("%d of 3 runs of the case alone in a fresh process", bad)})
		atomic.StoreUint64(sh.stop(), 1)
		if hung == 3 { // others may hang as well
			halt = true
		}
	}
	for {
		if halt {
			for _, pr := range procs {
				if !pr.dead {
					syscall.Kill(-pr.cmd.Process.Pid, syscall.SIGKILL)
				}
			}
			break
		}
		alive := 0
		for w, pr := range procs {
			if pr.dead || halt {
				continue
			}
			select {
			case err := <-pr.done:
				slot := sh.slot(w)
				if err != nil {
					busy := atomic.LoadUint64(&slot[2]) != 0
					si, i := int(slot[0]), int64(slot[1])
					if busy {
						atomic.StoreUint64(&slot[2], 0)
						ws, ok := pr.cmd.ProcessState.Sys().(syscall.WaitStatus)
						how := "crash"
						if ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
							how = "kill"
						}
						attribute(si, i, how, string(pr.err.b))
					} else {
						txt := strings.TrimSpace(string(pr.err.b))
						fmt.Fprintf(os.Stderr, "note: worker %d ended: %v %s\n", w, err, clip(txt, 300))
						if crashed(txt) {
							outside++
							if outside == 3 { // the code fails even while cases are prepared
								for si, s := range sp {
									if s.Bin == bins[pr.bin].bin && !s.Env {
										viols = append(viols, violRec{Space: si, Name: s.Name, Index: 0, Case: "preparing the cases of " + s.Name,
											What: "process crashed: " + head(txt), repro: "3 of 3 processes preparing the cases"})
										atomic.StoreUint64(sh.stop(), 1)
										break
									}
								}
							}
						}
					}
					respawns++
					if respawns < 20 && !sh.stopped() {
						spawn(w, pr.bin)
						alive++
						continue
					}
				}
				if err == nil && pr.bin+1 < len(bins) && !sh.stopped() {
					spawn(w, pr.bin+1)
					alive++
					continue
				}
				pr.dead = true
			default:
				alive++
				slot := sh.slot(w)
				t0 := int64(atomic.LoadUint64(&slot[2]))
				if t0 != 0 {
					si, i := int(slot[0]), int64(slot[1])
					if time.Now().Unix()-t0 > int64(limitOf(sp[si])) {
						syscall.Kill(-pr.cmd.Process.Pid, syscall.SIGKILL)
						<-pr.done
						atomic.StoreUint64(&slot[2], 0)
						attribute(si, i, "hang", "")
						respawns++
						if respawns < 20 && !sh.stopped() {
							spawn(w, pr.bin)
						} else {
							pr.dead = true
						}
					}
				}
			}
		}
		if alive == 0 {
			break
		}
		// every build but the last has its share of the time
		sec := int(time.Since(start).Seconds())
		for b := 1; b < len(bins); b++ {
			if sec > deadline*b/len(bins) && atomic.LoadUint64(sh.skip()) < uint64(b) {
				atomic.StoreUint64(sh.skip(), uint64(b))
			}
		}
		if sec > deadline && !timedOut {
			timedOut = true
			atomic.StoreUint64(sh.stop(), 1)
		}
		time.Sleep(15 * time.Millisecond)
	}
	// collect
	var knownSeen = map[int]violRec{}
	files, _ := filepath.Glob(dir + "/viol.*")
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var r violRec
			if l == "" || json.Unmarshal([]byte(l), &r) != nil {
				continue
			}
			if r.Known != 0 {
				knownSeen[r.Known] = r
				continue
			}
			viols = append(viols, r)
		}
	}
	done := map[string]int64{}
	extra := map[string]int64{}
	var nontriv int64
	samples := map[string][]string{}
	files, _ = filepath.Glob(dir + "/res.*")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var r workerRes
			if json.Unmarshal([]byte(l), &r) != nil {
				continue
			}
			for _, s := range r.Stats {
				done[s.Name] += s.Done
				nontriv += s.Nontriv
				for k, v := range s.Extra {
					extra[k] += v
				}
			}
			for k, v := range r.Samples {
				samples[k] = append(samples[k], v...)
			}
		}
	}
	distinct := map[string]struct{}{}
	files, _ = filepath.Glob(dir + "/keys.*")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(b); i += 8 {
			distinct[string(b[i:i+8])] = struct{}{}
		}
	}
	var evals int64
	exhaustive := !timedOut
	var spaces []map[string]any
	var smp []string
	for _, s := range sp {
		evals += done[s.Name]
		if done[s.Name] < s.N {
			exhaustive = false
		}
		spaces = append(spaces, map[string]any{"space": s.Name, "size": s.N, "explored": done[s.Name]})
		sort.Strings(samples[s.Name])
		for _, x := range samples[s.Name] {
			smp = append(smp, s.Name+": "+x)
		}
	}
	if len(smp) == 0 {
		for _, v := range viols {
			smp = append(smp, v.Name+": "+v.Case)
		}
	}
	// confirm
	ret := 0
	reported := 0
	for _, v := range viols {
		if reported >= 3 {
			break
		}
		s := sp[v.Space]
		n := 0
		for k := 0; k < 5 && v.repro == ""; k++ {
			if r := runOne(s, v.Index, limitOf(s), ""); r.code != 0 {
				n++
			} else if r.text == "killed" {
				k = 5
			}
		}
		repro := fmt.Sprintf("%d of 5 runs of the case alone in a fresh process", n)
		hist := v.History
		if v.repro != "" {
			n, hist, repro = 1, nil, v.repro
		} else if n == 0 && len(v.History) > 0 {
			hb, _ := json.Marshal(v.History)
			hf := dir + "/hist.json"
			os.WriteFile(hf, hb, 0o644)
			if r := runOne(s, v.Index, 240, hf); r.code != 0 {
				n = 1
				repro = "only after the listed history in the same process"
			} else {
				repro = "not reproduced alone or after the listed history"
			}
		} else {
			hist = nil
		}
		if n == 0 && s.Env {
			fmt.Fprintf(os.Stderr, "note: %s[%d] %s failed once and did not repeat: %s\n", v.Name, v.Index, v.Case, v.What)
			exhaustive = false
			continue
		}
		os.MkdirAll(root()+"/replays", 0o755)
		path := fmt.Sprintf("%s/replays/%s-%s-%d.json", root(), id, sanitize(v.Name), v.Index)
		rb, _ := json.MarshalIndent(Replay{id, tier, v.Name, v.Index, v.Case, v.What, repro, hist,
			"cd /verif && bin/check --replay " + path}, "", " ")
		os.WriteFile(path, rb, 0o644)
		fmt.Printf("%s\n  case %s[%d]: %s\n  (%s)\n", head(v.What), v.Name, v.Index, clip(v.Case, 600), repro)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		ret = 1
		reported++
	}
	fnd := loadFindings()
	var kl []int
	for k := range knownSeen {
		kl = append(kl, k)
	}
	sort.Ints(kl)
	for _, k := range kl {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, fnd[k-1].What)
	}
	if extra["capped"] > 0 {
		exhaustive = false
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             smp,
		"exhaustive":          exhaustive,
		"nontrivial":          nontriv,
		"spaces":              spaces,
		"known_findings_seen": len(knownSeen),
		"workers":             nw,
	}
	if b := p.Bounds[tier]; b != "" {
		cov["bounds"] = b
	}
	for k, v := range extra {
		cov[k] = v
	}
	if p.Final != nil {
		p.Final(cov, extra)
	}
	seed := envInt("VERIF_SEED", 1)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": reported,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(root()+"/evidence", 0o755)
	if err := os.WriteFile(root()+"/evidence/"+id+".json", append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: %d cases, %d distinct outcomes, exhaustive=%v, %.1f s\n", id, tier, evals, len(distinct), exhaustive, time.Since(start).Seconds())
	return ret
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	a := []string{r.Property, r.Tier, r.Space, strconv.FormatInt(r.Index, 10)}
	if len(r.History) > 0 {
		hb, _ := json.Marshal(r.History)
		f := os.TempDir() + "/mc.replay.hist." + strconv.Itoa(os.Getpid())
		os.WriteFile(f, hb, 0o644)
		a = append(a, f)
	}
	_, s := find(r.Property, r.Tier, r.Space)
	if s != nil {
		fmt.Println("case:", s.Desc(r.Index))
		if s.Bin != "" {
			c := selfCmd(s.Bin, s.Procs, append([]string{"one"}, a...)...)
			c.Stdout, c.Stderr = os.Stdout, os.Stderr
			if c.Run() != nil {
				os.Exit(3)
			}
			os.Exit(0)
		}
	}
	one(a)
}

func head(s string) string { return clip(strings.TrimSpace(s), 3000) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '-'
	}, s)
}
