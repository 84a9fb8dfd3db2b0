package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// verifDir is where evidence, replays and the known-findings list live.
var verifDir = "/verif"

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // "known" or "fixed"
	What     string `json:"what"`
}

var knownList []knownFinding

// loadKnown reads known-findings.txt: lines "known: property=<id> key=<key> <what>"
// count, lines "fixed: ..." only document repairs.
func loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			knownList = append(knownList, knownFinding{m[1], m[2], "known", m[3]})
		}
	}
}

func isKnown(prop, key string) bool {
	for _, k := range knownList {
		if k.Property == prop && k.Key == key {
			return true
		}
	}
	return false
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	scratch := flag.String("scratch", "", "scratch directory")
	worker := flag.Bool("worker", false, "internal")
	report := flag.String("report", "", "internal")
	group := flag.String("group", "", "run only this group")
	index := flag.Int("index", -1, "run only this case")
	replay := flag.String("replay", "", "replay file")
	child := flag.String("child", "", "internal: child process role")
	list := flag.Bool("list", false, "list properties")
	flag.StringVar(&verifDir, "verif", "/verif", "framework directory")
	flag.Parse()
	loadKnown()
	if *child != "" {
		childMain(*child, flag.Args())
		return
	}
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			race := ""
			if props[id].Race {
				race = " race"
			}
			fmt.Println(id + race)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		die(err)
		var rp replayFile
		die(json.Unmarshal(b, &rp))
		*prop, *tier, *seed, *group, *index = rp.Property, rp.Tier, rp.Seed, rp.Group, rp.Index
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "vmon: no property %q\n", *prop)
		os.Exit(2)
	}
	if *worker {
		workerMain(p, *tier, *seed, *scratch, *report, *group, *index)
		return
	}
	os.Exit(supervise(p, *tier, *seed, *scratch, *group, *index))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vmon:", err)
		os.Exit(2)
	}
}

type replayFile struct {
	Property string      `json:"property"`
	Tier     string      `json:"tier"`
	Seed     int64       `json:"seed"`
	Group    string      `json:"group"`
	Index    int         `json:"index"`
	What     string      `json:"what"`
	Case     string      `json:"case"`
	Stderr   string      `json:"stderr,omitempty"`
	Lanes    []laneState `json:"lanes,omitempty"`
	Command  string      `json:"command"`
}

func supervise(p *Prop, tier string, seed int64, scratch, group string, index int) int {
	start := time.Now()
	if scratch == "" {
		var err error
		scratch, err = os.MkdirTemp("", "vmon")
		die(err)
		defer os.RemoveAll(scratch)
	}
	work := filepath.Join(scratch, "w")
	die(os.MkdirAll(work, 0755))
	rep := filepath.Join(scratch, "report.json")
	self, err := os.Executable()
	die(err)
	args := []string{"-worker", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
		"-scratch", work, "-report", rep, "-verif", verifDir}
	if group != "" {
		args = append(args, "-group", group, "-index", strconv.Itoa(index))
	}
	cmd := exec.Command(self, args...)
	cmd.Dir = work
	var errb limited
	cmd.Stderr = &errb
	cmd.Stdout = nil
	racelog := filepath.Join(scratch, "race")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=7 log_path="+racelog, "VMON_RACELOG="+racelog)
	runErr := cmd.Run()

	var r Report
	b, err := os.ReadFile(rep)
	ok := err == nil && json.Unmarshal(b, &r) == nil && r.Complete
	var crash *replayFile
	if !ok || runErr != nil {
		lanes := readJournal(filepath.Join(work, "journal"))
		st := errb.String()
		crash = &replayFile{Property: p.ID, Tier: tier, Seed: seed, Index: -1, Stderr: st, Lanes: lanes}
		var ee *exec.ExitError
		what := "the monitored process ended"
		if errors.As(runErr, &ee) {
			what = "the monitored process ended: " + ee.String()
		}
		if ee != nil && p.ID != "C13" && !strings.Contains(st, "goroutine ") {
			if ws, k := ee.Sys().(syscall.WaitStatus); k && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				fmt.Fprintln(os.Stderr, "vmon: the worker was killed from outside (memory?), no verdict")
				return 2
			}
		}
		if strings.Contains(st, "VMON-HANG") {
			what = fmt.Sprintf("a case did not finish within %v", hangAfter)
		} else if i := strings.Index(st, "panic: "); i >= 0 {
			what = "crash: " + firstLine(st[i:])
		} else if i := strings.Index(st, "fatal error: "); i >= 0 {
			what = "crash: " + firstLine(st[i:])
		}
		crash.What = what
		if len(lanes) > 0 {
			crash.Group, crash.Index, crash.Case = lanes[0].Group, lanes[0].Index, lanes[0].Desc
		}
		if strings.Contains(st, "vmon: ") && !strings.Contains(st, "goroutine ") {
			fmt.Fprintln(os.Stderr, st)
			fmt.Fprintln(os.Stderr, "vmon: harness error, no verdict")
			return 2
		}
	}

	var viol []Failure
	known := map[string]Failure{}
	for _, f := range r.Failures {
		if f.Known != "" {
			known[f.Known] = f
		} else {
			viol = append(viol, f)
		}
	}
	if races := raceReports(racelog); len(races) > 0 {
		for _, s := range races {
			viol = append(viol, Failure{Group: "race-detector", Index: -1, What: s})
		}
		r.Counters["race_reports"] = int64(len(races))
	} else if p.Race && r.Counters != nil {
		r.Counters["race_reports"] = 0
	}

	if group == "" {
		writeEvidence(p, tier, seed, &r, len(viol), crash != nil, time.Since(start))
	}
	var keys []string
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		what := known[k].What
		for _, kl := range knownList {
			if kl.Property == p.ID && kl.Key == k {
				what = kl.What
			}
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
	}
	if crash != nil {
		fmt.Printf("%s: %s\n%s\n", p.ID, crash.What, clip(crash.Stderr, 3000))
		path := writeReplay(crash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if len(viol) > 0 {
		for i, f := range viol {
			if i >= 5 {
				fmt.Printf("... %d more\n", len(viol)-i)
				break
			}
			fmt.Printf("%s %s[%d]: %s\n  case: %s\n", p.ID, f.Group, f.Index, f.What, clip(f.Case, 600))
		}
		f := viol[0]
		path := writeReplay(&replayFile{Property: p.ID, Tier: tier, Seed: seed, Group: f.Group, Index: f.Index, What: f.What, Case: f.Case})
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if r.Evaluations == 0 {
		fmt.Fprintln(os.Stderr, "vmon: nothing was observed, no verdict")
		return 2
	}
	var cs []string
	for k, v := range r.Counters {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf("%s held on %d cases, %d distinct non-trivial (%s tier, seed %d, %.1fs) %s\n", p.ID, r.Evaluations, r.Distinct, tier, seed, time.Since(start).Seconds(), strings.Join(cs, " "))
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type limited struct{ b bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if room := 1<<20 - l.b.Len(); room > 0 {
		if len(p) > room {
			l.b.Write(p[:room])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}
func (l *limited) String() string { return l.b.String() }

// raceReports reads the race detector's log and returns the distinct reports
// that have a frame in the repository's code.
func raceReports(prefix string) []string {
	m, _ := filepath.Glob(prefix + ".*")
	seen := map[string]bool{}
	var out []string
	num := regexp.MustCompile(`(:\d+|0x[0-9a-f]+|\+0x[0-9a-f]+|goroutine \d+|Goroutine \d+)`)
	for _, f := range m {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") || !strings.Contains(blk, "yeqown/go-qrcode") {
				continue
			}
			k := num.ReplaceAllString(blk, "")
			if i := strings.Index(k, "created at"); i > 0 {
				k = k[:i]
			}
			if !seen[k] {
				seen[k] = true
				out = append(out, clip(strings.TrimSpace(blk), 2500))
			}
		}
	}
	return out
}

func writeReplay(rp *replayFile) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", rp.Property, rp.Tier, rp.Seed))
	rp.Command = fmt.Sprintf("bash %s/run.sh %s --replay %s", verifDir, rp.Property, path)
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
	return path
}

func writeEvidence(p *Prop, tier string, seed int64, r *Report, viol int, crashed bool, wall time.Duration) {
	cov := map[string]interface{}{
		"evaluations":         r.Evaluations,
		"distinct_nontrivial": r.Distinct,
		"rule":                p.Rule,
		"samples":             r.Samples,
	}
	for k, v := range r.Counters {
		cov["observed_"+k] = v
	}
	if r.Exhaustive {
		cov["exhaustive"] = true
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	if crashed {
		viol++
		cov["crashed"] = true
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assume, "wall_s": wall.Seconds(), "violations": viol,
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	if r.Samples == nil {
		cov["samples"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "vmon: cannot write evidence:", err)
	}
}
