package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|worker|list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "variants":
		initChecks()
		seen := map[string]bool{}
		for _, ph := range checks[os.Args[2]].Phases {
			if !seen[ph.Variant] {
				seen[ph.Variant] = true
				fmt.Println(ph.Variant)
			}
		}
	case "variant":
		initChecks()
		for _, ph := range checks[os.Args[2]].Phases {
			if ph.Name == os.Args[3] {
				fmt.Println(ph.Variant)
			}
		}
	case "list":
		initChecks()
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, ph := range checks[id].Phases {
				fmt.Println(id, ph.Name, ph.Variant, ph.Quick, ph.Thor)
			}
		}
	default:
		os.Exit(3)
	}
}

var checks = map[string]*Check{}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	phase := fs.String("phase", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	dir := fs.String("dir", "", "")
	only := fs.Int64("only", -1, "")
	upto := fs.Int64("upto", -1, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	initChecks()
	c := checks[*prop]
	for i := range c.Phases {
		ph := &c.Phases[i]
		if ph.Name != *phase {
			continue
		}
		w := newW(*prop, *phase, *tier, *seed, *dir, *shard)
		w.verbose = *verbose
		w.shrinking = *verbose && *only >= 0
		if *dir != "" {
			w.openProgress(fmt.Sprintf("%s/progress.%s.%d", *dir, *phase, *shard))
		}
		n := ph.Quick
		if *tier == "thorough" {
			n = ph.Thor
		}
		to := uint64(n)
		if *upto >= 0 {
			to = uint64(*upto) + 1
		}
		debug.SetMaxStack(256 << 20)
		w.runPhase(ph, *only, uint64(*shard), to, uint64(*shards))
		if *dir != "" {
			w.writeStats()
		} else {
			b, _ := json.MarshalIndent(w.Obs, "", " ")
			fmt.Println(w.Evals, len(w.hashes), string(b))
		}
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "no such phase")
	os.Exit(3)
}

type workerProc struct {
	ph     *Phase
	shard  int
	shards int
	cmd    *exec.Cmd
	stderr bytes.Buffer
	killed string // why the parent killed it
	status error
}

const (
	maxRSS     = 3 << 30 // bytes
	maxCaseCPU = 60.0    // CPU seconds without progress
	wallLimit  = 13 * time.Minute
)

func parent(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	evDir := fs.String("evidence", "", "")
	binDir := fs.String("bins", "", "")
	scratch := fs.String("scratch", "", "")
	fs.Parse(args)
	initChecks()
	c := checks[*prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 3
	}
	start := time.Now()
	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	// The number of shards is fixed because decoders are shared by the cases of a shard.
	const shardsDefault = 8

	var jobs []*workerProc
	for i := range c.Phases {
		ph := &c.Phases[i]
		n := ph.Quick
		if *tier == "thorough" {
			n = ph.Thor
		}
		if n == 0 {
			continue
		}
		sh := ph.Shards
		if sh == 0 {
			sh = shardsDefault
		}
		if sh > n {
			sh = n
		}
		for s := 0; s < sh; s++ {
			jobs = append(jobs, &workerProc{ph: ph, shard: s, shards: sh})
		}
	}
	var (
		mu      sync.Mutex
		wg      sync.WaitGroup
		next    int
		stop    bool
		running = map[*workerProc]bool{}
	)
	for k := 0; k < ncpu; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				bin := filepath.Join(*binDir, "vh-"+j.ph.Variant)
				j.cmd = exec.Command(bin, "worker", "-prop", *prop, "-phase", j.ph.Name,
					"-tier", *tier, "-seed", strconv.FormatUint(*seed, 10),
					"-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(j.shards),
					"-dir", *scratch)
				j.cmd.Env = append(os.Environ(), j.ph.Env...)
				j.cmd.Stderr = &limitedWriter{b: &j.stderr, max: 1 << 20}
				j.cmd.Stdout = nil
				j.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				err := j.cmd.Start()
				if err == nil {
					running[j] = true
				}
				mu.Unlock()
				if err == nil {
					err = watch(j, *scratch, start)
				} else {
					err = fmt.Errorf("start: %w", err)
				}
				mu.Lock()
				delete(running, j)
				j.status = err
				if err != nil && !stop {
					stop = true
					for o := range running {
						if o.killed == "" {
							o.killed = "other"
						}
						_ = o.cmd.Process.Kill()
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	// Verdict
	var viol *ViolationRec
	var violJob *workerProc
	inconclusive := ""
	for _, j := range jobs {
		if j.status == nil {
			continue
		}
		code := -1
		if ee, ok := j.status.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		idx := progressIdx(*scratch, j)
		switch {
		case j.killed == "other":
		case j.killed == "hang", j.killed == "memory":
			if viol == nil {
				viol = &ViolationRec{Prop: *prop, Phase: j.ph.Name, Tier: *tier, Seed: *seed, Idx: idx, Shard: j.shard,
					Message: map[string]string{
						"hang":   "the call doesn't terminate (no progress within " + fmt.Sprint(maxCaseCPU) + "s of CPU time)",
						"memory": "the call exhausts the memory (more than " + fmt.Sprint(maxRSS>>20) + " MiB)",
					}[j.killed]}
				violJob = j
			}
		case j.killed == "wall":
			inconclusive = fmt.Sprintf("phase %s shard %d exceeded the time limit", j.ph.Name, j.shard)
		case code == exitViolation:
			b, err := os.ReadFile(fmt.Sprintf("%s/violation.%s.%d", *scratch, j.ph.Name, j.shard))
			v := &ViolationRec{}
			if err != nil || json.Unmarshal(b, v) != nil {
				inconclusive = "unreadable violation record"
				continue
			}
			viol, violJob = v, j
		case code == exitOracle:
			inconclusive = "the reference decoder disagrees with encoding/json: " + tail(j.stderr.String(), 2000)
		case code == 2 || code == 66 || code == 1 && strings.Contains(j.stderr.String(), "AddressSanitizer") ||
			code < 0 && signalOf(j.status) != syscall.SIGKILL && signalOf(j.status) != 0:
			if viol == nil {
				viol = &ViolationRec{Prop: *prop, Phase: j.ph.Name, Tier: *tier, Seed: *seed, Idx: idx, Shard: j.shard,
					Message: fmt.Sprintf("the process crashed (%v):\n%s", j.status, head(j.stderr.String(), 12000))}
				violJob = j
			}
		default:
			inconclusive = fmt.Sprintf("phase %s shard %d: %v\n%s", j.ph.Name, j.shard, j.status, tail(j.stderr.String(), 3000))
		}
	}

	// Aggregate
	total := Stats{Obs: map[string]uint64{}}
	distinct := map[uint64]struct{}{}
	perPhase := map[string]uint64{}
	for _, j := range jobs {
		b, err := os.ReadFile(fmt.Sprintf("%s/stats.%s.%d", *scratch, j.ph.Name, j.shard))
		if err != nil {
			continue
		}
		var st Stats
		if json.Unmarshal(b, &st) != nil {
			continue
		}
		total.Evals += st.Evals
		perPhase[j.ph.Name+"/"+j.ph.Variant] += st.Evals
		for k, v := range st.Obs {
			total.Obs[k] += v
		}
		if j.shard < 2 {
			total.Samples = append(total.Samples, st.Samples...)
		}
		hb, _ := os.ReadFile(fmt.Sprintf("%s/hashes.%s.%d", *scratch, j.ph.Name, j.shard))
		for ; len(hb) >= 8; hb = hb[8:] {
			distinct[binary.LittleEndian.Uint64(hb)] = struct{}{}
		}
	}
	if len(total.Samples) > 12 {
		total.Samples = total.Samples[:12]
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"none: the run ended before a sample was taken"}
	}
	if viol == nil && inconclusive == "" {
		for _, n := range c.Need {
			if total.Obs[n] == 0 {
				inconclusive = "nothing observed for " + n
			}
		}
	}

	nviol := 0
	code := 0
	if viol != nil {
		nviol, code = 1, 1
		rd := filepath.Join(*evDir, "replay")
		_ = os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.txt", *prop, viol.Phase, viol.Idx))
		var b strings.Builder
		fmt.Fprintf(&b, "property: %s\nphase: %s\ntier: %s\nseed: %d\ncase: %d\nshard: %d of %d\n\n%s\n\n%s\n\n",
			*prop, viol.Phase, viol.Tier, viol.Seed, viol.Idx, viol.Shard, violJob.shards, viol.Message, viol.Desc)
		fmt.Fprintf(&b, "replay the case alone: cd /verif && bash check.sh %s --replay %s %d\n", *prop, viol.Phase, viol.Idx)
		fmt.Fprintf(&b, "replay with its history: cd /verif && bash check.sh %s --replay-history %s %d %d %d\n",
			*prop, viol.Phase, viol.Idx, viol.Shard, violJob.shards)
		_ = os.WriteFile(path, []byte(b.String()), 0o644)
		fmt.Printf("%s\n%s\n", head(viol.Message, 3000), head(viol.Desc, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	} else if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", *prop, inconclusive)
		code = 3
	}

	ev := map[string]any{
		"property": *prop,
		"tier":     *tier,
		"seed":     *seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":          total.Evals,
			"distinct_nontrivial":  len(distinct),
			"rule":                 c.Rule,
			"samples":              total.Samples,
			"evaluations_by_phase": perPhase,
			"observed":             total.Obs,
			"types":                len(allTypes),
		},
		"assumptions": append([]string{
			"encoding/json of Go 1.21 and strconv are correct; the reference decoder was validated against encoding/json on the number of cases given as observed.oracle-validated",
		}, c.Note...),
		"wall_s":     time.Since(start).Seconds(),
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*evDir, *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if code == 0 {
		fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n",
			*prop, total.Evals, len(distinct), time.Since(start).Seconds())
	}
	return code
}

func signalOf(err error) syscall.Signal {
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return ws.Signal()
		}
	}
	return 0
}

// watch waits for the worker and kills it if a case doesn't end or
// uses too much memory.
func watch(j *workerProc, scratch string, start time.Time) error {
	done := make(chan error, 1)
	go func() { done <- j.cmd.Wait() }()
	path := fmt.Sprintf("%s/progress.%s.%d", scratch, j.ph.Name, j.shard)
	var lastStep uint64
	var cpuAtStep float64
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	n := 0
	for {
		select {
		case err := <-done:
			return err
		case <-tick.C:
			n++
			rss, cpu := procUsage(j.cmd.Process.Pid)
			if rss > maxRSS {
				j.killed = "memory"
				_ = j.cmd.Process.Kill()
				return <-done
			}
			if n%10 == 0 {
				st := readProgress(path, 1)
				if st != lastStep {
					lastStep, cpuAtStep = st, cpu
				} else if st != 0 && cpu-cpuAtStep > maxCaseCPU {
					j.killed = "hang"
					_ = j.cmd.Process.Kill()
					return <-done
				}
				limit := wallLimit
				if os.Getenv("VERIF_TIER") == "thorough" {
					limit = 3 * time.Hour
				}
				if time.Since(start) > limit {
					j.killed = "wall"
					_ = j.cmd.Process.Kill()
					return <-done
				}
			}
		}
	}
}

func readProgress(path string, i int) uint64 {
	f, err := os.Open(path)
	if err != nil {
		return 0
	}
	defer f.Close()
	var b [16]byte
	if _, err := f.ReadAt(b[:], 0); err != nil {
		return 0
	}
	return binary.LittleEndian.Uint64(b[i*8:])
}

func progressIdx(scratch string, j *workerProc) uint64 {
	x := readProgress(fmt.Sprintf("%s/progress.%s.%d", scratch, j.ph.Name, j.shard), 0)
	if x == 0 {
		return 0
	}
	return x - 1
}

// procUsage returns the resident memory and CPU seconds of a child process.
func procUsage(pid int) (rss int64, cpu float64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	stt, _ := strconv.ParseFloat(f[12], 64)
	pages, _ := strconv.ParseInt(f[21], 10, 64)
	return pages * int64(os.Getpagesize()), (ut + stt) / 100
}

type limitedWriter struct {
	b   *bytes.Buffer
	max int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room > 0 {
		if len(p) > room {
			l.b.Write(p[:room])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
