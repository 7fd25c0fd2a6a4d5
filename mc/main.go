package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

var verifDir string

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.String("shard", "", "i/n (internal)")
	out := flag.String("out", "", "result file (internal)")
	scratch := flag.String("scratch", "", "scratch dir (internal)")
	only := flag.Int64("only", -1, "run this case only")
	verif := flag.String("verif", "/verif", "verification directory")
	sides := flag.Int("sides", -1, "race-detector part of C24 (internal)")
	flag.Parse()
	verifDir = *verif
	if *sides >= 0 {
		os.Exit(sidesMain(*sides))
	}
	ch := checks[*prop]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *shard != "" {
		var i, n int
		fmt.Sscanf(*shard, "%d/%d", &i, &n)
		sec := ch.QuickSec
		if sec == 0 {
			sec = 240
		}
		if *tier == "thorough" {
			sec = ch.ThoroughSec
			if sec == 0 {
				sec = 700
			}
		}
		c := &Ctx{ID: ch.ID, Tier: *tier, Seed: seed, shard: i, nshards: n, only: *only, scratch: *scratch,
			deadline: time.Now().Add(time.Duration(sec) * time.Second),
			res:      &Result{Outcomes: map[string]int64{}, Findings: map[string]string{}},
			states:   map[uint64]struct{}{}, known: loadKnown(filepath.Join(*verif, "known_findings.json"), ch.ID)}
		runShard(ch, c, *out)
		return
	}
	os.Exit(parent(ch, *tier, seed, *only, *verif))
}

func scratchRoot() string {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		if d, err := os.MkdirTemp(base, "mc-"); err == nil {
			_ = os.Chmod(d, 0o755)
			return d
		}
	}
	fmt.Fprintln(os.Stderr, "no scratch directory")
	os.Exit(2)
	return ""
}

type shardEnd struct {
	i      int
	err    error
	stderr string
}

func parent(ch *Check, tier string, seed, only int64, verif string) int {
	start := time.Now()
	root := scratchRoot()
	defer os.RemoveAll(root)
	if ch.Setup != nil {
		d := filepath.Join(root, "setup")
		_ = os.MkdirAll(d, 0o755)
		if err := ch.Setup(d); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 2
		}
		os.Setenv("MC_SETUP", d)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if ch.Shards > 0 {
		n = ch.Shards
	}
	if ch.Serial || only >= 0 {
		n = 1
	}
	launch := func(i, n int, only int64, tag string) (shardEnd, string) {
		out := filepath.Join(root, fmt.Sprintf("out-%d%s", i, tag))
		sc := filepath.Join(root, fmt.Sprintf("s%d%s", i, tag))
		_ = os.MkdirAll(sc, 0o755)
		cmd := exec.Command(os.Args[0], "-prop", ch.ID, "-tier", tier, "-shard", fmt.Sprintf("%d/%d", i, n),
			"-out", out, "-scratch", sc, "-only", fmt.Sprint(only), "-verif", verif)
		cmd.Dir = sc
		var eb tailBuf
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		env := []string{"GOTRACEBACK=all", "GOMEMLIMIT=3GiB", "TMPDIR=" + sc}
		if ch.Serial {
			env = append(env, "GOMAXPROCS=8")
		} else {
			env = append(env, "GOMAXPROCS=2")
		}
		cmd.Env = append(os.Environ(), env...)
		err := cmd.Run()
		return shardEnd{i, err, eb.String()}, out
	}
	ends := make(chan shardEnd, n)
	outs := make([]string, n)
	for i := 0; i < n; i++ {
		outs[i] = filepath.Join(root, fmt.Sprintf("out-%d", i))
		go func(i int) { e, _ := launch(i, n, only, ""); ends <- e }(i)
	}
	var tot Result
	tot.Outcomes, tot.Findings = map[string]int64{}, map[string]string{}
	states := map[uint64]struct{}{}
	failed := false
	for k := 0; k < n; k++ {
		e := <-ends
		if e.err != nil {
			// the child died: attribute it to the case it was running
			b, _ := os.ReadFile(outs[e.i] + ".mark")
			idx := int64(-1)
			if len(b) >= 8 {
				idx = int64(binary.LittleEndian.Uint64(b)) - 1
			}
			// a step outside the cases that has to succeed failed: none of them could be run
			if m := strings.Index(e.stderr, "main.stepFailed"); m >= 0 {
				rep, tries := 0, 2
				if len(tot.Violations) > 0 {
					tries = 0
				}
				for r := 0; r < tries; r++ {
					if g, _ := launch(0, 1, math.MaxInt64, fmt.Sprintf("-p%d-%d", e.i, r)); strings.Contains(g.stderr, "main.stepFailed") {
						rep++
					}
				}
				if rep > 0 {
					tot.Violations = append(tot.Violations, Violation{Case: 0, Name: "preparing the cases", Key: "setup",
						Msg: "a step that has to succeed failed", History: strings.Split(e.stderr, "\n"), Repro: fmt.Sprintf("%d/%d", rep, tries)})
				} else if tries > 0 {
					failed = true
				}
				continue
			}
			if strings.Contains(e.stderr, "harnessError") || idx < 0 {
				fmt.Fprintf(os.Stderr, "harness error in shard %d: %v\n%s\n", e.i, e.err, e.stderr)
				failed = true
				continue
			}
			if strings.Contains(e.err.Error(), "signal: killed") {
				tot.Capped = true
				tot.Notes = append(tot.Notes, fmt.Sprintf("shard %d was killed (memory) at case %d", e.i, idx))
				continue
			}
			rep := 0
			tries := 3
			if strings.Contains(e.stderr, "HANG case") {
				tries = 1
			}
			if len(tot.Violations) > 0 {
				tries = 0 // one confirmed failure decides; do not spend the time on further ones
			}
			for r := 0; r < tries; r++ {
				g, _ := launch(0, 1, idx, fmt.Sprintf("-r%d-%d", e.i, r))
				if g.err != nil {
					rep++
				}
			}
			v := Violation{Case: idx, Name: fmt.Sprintf("case %d", idx), Key: "crash",
				Msg:     fmt.Sprintf("the process running the code under test died (%v)", e.err),
				History: strings.Split(e.stderr, "\n"), Repro: fmt.Sprintf("%d/%d", rep, tries)}
			if rep > 0 {
				tot.Violations = append(tot.Violations, v)
			} else {
				if tries > 0 {
					tot.Unreproduced = append(tot.Unreproduced, v)
				}
				tot.Capped = true
			}
			continue
		}
		var r Result
		b, err := os.ReadFile(outs[e.i])
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil || !r.Done {
			fmt.Fprintf(os.Stderr, "shard %d left no result: %v %s\n", e.i, err, e.stderr)
			failed = true
			continue
		}
		tot.Cases += r.Cases
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Capped = tot.Capped || r.Capped
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Findings {
			tot.Findings[k] = v
		}
		if len(tot.Samples) < 5 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		tot.Violations = append(tot.Violations, r.Violations...)
		tot.Unreproduced = append(tot.Unreproduced, r.Unreproduced...)
		tot.Notes = append(tot.Notes, r.Notes...)
		sb, _ := os.ReadFile(outs[e.i] + ".states")
		for len(sb) >= 8 {
			states[binary.LittleEndian.Uint64(sb)] = struct{}{}
			sb = sb[8:]
		}
	}
	// evidence
	if len(tot.Samples) > 5 {
		tot.Samples = tot.Samples[:5]
	}
	if only < 0 {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		cov := map[string]any{
			"states": len(states), "transitions": tot.Transitions, "traces_validated_against_impl": tot.Traces,
			"samples": tot.Samples, "exhaustive": !tot.Capped && len(tot.Violations) == 0 && !failed,
			"rule": ch.Rule, "distinct_outcomes": len(tot.Outcomes), "outcomes": topOutcomes(tot.Outcomes),
		}
		if len(tot.Notes) > 0 {
			cov["notes"] = tot.Notes
		}
		if len(tot.Unreproduced) > 0 {
			cov["unreproduced"] = tot.Unreproduced
		}
		if len(tot.Findings) > 0 {
			cov["known_findings"] = tot.Findings
		}
		ev := map[string]any{"property": ch.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
			"assumptions": append([]string{}, ch.Assumptions...), "wall_s": time.Since(start).Seconds(), "violations": len(tot.Violations)}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", ch.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			failed = true
		}
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d outcomes=%d exhaustive=%v wall=%.1fs\n", ch.ID, tier, tot.Cases, len(states),
		tot.Transitions, len(tot.Outcomes), !tot.Capped, time.Since(start).Seconds())
	for _, k := range sortedKeys(tot.Findings) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ch.ID, k, oneLine(tot.Findings[k]))
	}
	if len(tot.Unreproduced) > 0 {
		fmt.Printf("note: %d failing executions did not reproduce: %s\n", len(tot.Unreproduced), oneLine(tot.Unreproduced[0].Msg))
	}
	if len(tot.Violations) > 0 {
		best := tot.Violations[0]
		for _, v := range tot.Violations {
			if v.Case < best.Case {
				best = v
			}
		}
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.txt", ch.ID, tier, best.Case))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property: %s\ncase: %d (tier %s)\nname: %s\nkey: %s\nreproduced: %s\nreplay: cd %s && bin/check %s %s -only %d\n\n%s\n\nhistory:\n  %s\n",
			ch.ID, best.Case, tier, best.Name, best.Key, best.Repro, verif, ch.ID, tier, best.Case, best.Msg, strings.Join(best.History, "\n  "))
		os.WriteFile(p, []byte(sb.String()), 0o644)
		h := best.History
		if len(h) > 40 {
			h = h[len(h)-40:]
		}
		fmt.Printf("case %d: %s\n  %s\n%s\n", best.Case, best.Name, strings.Join(h, "\n  "), best.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, p)
		return 1
	}
	if failed {
		return 2
	}
	return 0
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func topOutcomes(m map[string]int64) map[string]int64 {
	if len(m) <= 40 {
		return m
	}
	r := map[string]int64{}
	for i, k := range sortedKeys(m) {
		if i == 40 {
			break
		}
		r[k] = m[k]
	}
	return r
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep the head (the reason) and the tail
		t.b = append(t.b[:1<<15], t.b[len(t.b)-(1<<14):]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }
