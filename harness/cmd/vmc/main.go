// Command vmc runs the exploration which decides one property.
//
//	vmc run PROP TIER      explore, write evidence, report
//	vmc replay FILE        run the execution a replay file describes
//	vmc child ...          (internal)
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/checks"
	"verif/harness/explore"
)

const slot = 4096

type result struct {
	Property   string               `json:"property"`
	Tier       string               `json:"tier"`
	Seed       int64                `json:"seed"`
	Violations []explore.Violation  `json:"violations"`
	Stats      []explore.SpaceStats `json:"stats"`
	Samples    []explore.Sample     `json:"samples"`
	Execs      int64                `json:"execs"`
	Evals      int64                `json:"evals"`
	Trans      int64                `json:"trans"`
	States     int                  `json:"states"`
	Keys       int                  `json:"keys"`
	Incomplete bool                 `json:"incomplete"`
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Space    string   `json:"space"`
	Choices  []int    `json:"choices"`
	Labels   []string `json:"labels,omitempty"`
	Sig      string   `json:"signature"`
	Message  string   `json:"message"`
	Notes    []string `json:"notes,omitempty"`
	Repro    string   `json:"reproduction,omitempty"`
	HowTo    string   `json:"how_to_replay"`
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func envSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func env(tier string, seed int64) checks.Env {
	return checks.Env{Thorough: tier == "thorough", Seed: seed}
}

func seconds(name string, def int) time.Duration {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return time.Duration(n) * time.Second
	}
	return time.Duration(def) * time.Second
}

func budget(tier string) time.Duration {
	if tier == "thorough" {
		return seconds("VERIF_BUDGET", 5400)
	}
	return seconds("VERIF_BUDGET", 420)
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vmc run PROP [quick|thorough] | vmc replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(parent(os.Args[2], tier))
	case "child":
		child(os.Args[2], os.Args[3], os.Args[4])
	case "alone":
		n, _ := strconv.ParseInt(os.Args[2], 10, 64)
		checks.Alone(n, os.Args[3])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "spaces":
		for _, s := range checks.All[os.Args[2]].Spaces(env("quick", envSeed())) {
			fmt.Println(s.Name, "|", s.Bound)
		}
	}
}

func child(prop, tier, dir string) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	ck := checks.All[prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	ex := &explore.Explorer{Deadline: time.Now().Add(budget(tier))}
	f, err := os.OpenFile(filepath.Join(dir, "inflight"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	ex.Inflight = func(w int, space string, choices []int) {
		b := make([]byte, 0, slot)
		b = append(b, space...)
		b = append(b, '|')
		for _, v := range choices {
			b = strconv.AppendInt(b, int64(v), 10)
			b = append(b, ' ')
		}
		if len(b) > slot-1 {
			b = b[:slot-1]
		}
		b = append(b, '\n')
		f.WriteAt(b, int64(w*slot))
	}
	go func() { // a single execution which runs this long is hanging
		limit := seconds("VERIF_HANG", 100)
		for {
			time.Sleep(2 * time.Second)
			for w := 0; w < 64; w++ {
				if t := ex.Start(w); t != 0 && time.Since(time.Unix(0, t)) > limit {
					os.WriteFile(filepath.Join(dir, "hang"), []byte(strconv.Itoa(w)), 0o644)
					os.Exit(3)
				}
			}
		}
	}()
	only := os.Getenv("VERIF_SPACE")
	for _, sp := range ck.Spaces(env(tier, envSeed())) {
		if sp.Variant != os.Getenv("VERIF_VARIANT") || only != "" && !strings.Contains(sp.Name, only) {
			continue
		}
		ex.Explore(sp)
		if len(ex.Violations) >= 4 {
			break
		}
	}
	r := result{prop, tier, envSeed(), ex.Violations, ex.Stats, ex.Samples, ex.Execs, ex.Evals, ex.Trans, len(ex.States), len(ex.Keys), ex.Incomplete}
	out, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "result.json"), out, 0o644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

type known struct{ property, space, choices, text string }

func knownFindings() []known {
	var out []known
	f, err := os.Open(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := known{text: l}
		for _, w := range strings.Fields(l) {
			switch {
			case strings.HasPrefix(w, "property="):
				k.property = w[9:]
			case strings.HasPrefix(w, "space="):
				k.space = w[6:]
			case strings.HasPrefix(w, "choices="):
				k.choices = w[8:]
			}
		}
		out = append(out, k)
	}
	return out
}

func vecString(v []int) string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = strconv.Itoa(x)
	}
	return strings.Join(s, ",")
}

func parent(prop, tier string) int {
	start := time.Now()
	ck := checks.All[prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	variants := ck.Variants
	if variants == nil {
		variants = []string{""}
	}
	shared, err := os.MkdirTemp("", "vmc-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(shared)
	os.Setenv("VERIF_ALONE", shared)
	res := result{Property: prop, Tier: tier, Seed: envSeed()}
	for _, v := range variants {
		n := max(ck.Shards, 1)
		rs := make([]*result, n)
		var wg sync.WaitGroup
		for k := range rs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs[k] = exploreVariant(prop, tier, v, k, n)
			}()
		}
		wg.Wait()
		for _, r := range rs {
			if r == nil {
				return 2
			}
			for _, x := range r.Violations {
				if !slices.ContainsFunc(res.Violations, func(y explore.Violation) bool { return x.Space == y.Space && x.Sig == y.Sig }) {
					res.Violations = append(res.Violations, x)
				}
			}
			for _, x := range r.Stats {
				i := slices.IndexFunc(res.Stats, func(y explore.SpaceStats) bool { return x.Name == y.Name })
				if i < 0 {
					res.Stats = append(res.Stats, x)
					continue
				}
				y := &res.Stats[i]
				y.Executions += x.Executions
				y.Skipped += x.Skipped
				y.Complete = y.Complete && x.Complete
				y.Seconds = max(y.Seconds, x.Seconds)
				y.Outcomes = max(y.Outcomes, x.Outcomes)
			}
			res.Samples = append(res.Samples, r.Samples...)
			res.Execs += r.Execs
			res.Evals += r.Evals
			res.Trans += r.Trans
			res.States += r.States
			res.Keys += r.Keys
			res.Incomplete = res.Incomplete || r.Incomplete
		}
	}
	return report(ck, &res, time.Since(start))
}

// executable is the build of the harness for a variant.
func executable(variant string) string {
	exe, _ := os.Executable()
	name := "vmc"
	if variant != "" {
		name += "-" + variant
	}
	return filepath.Join(filepath.Dir(exe), name)
}

func variantEnv(variant, dir string) []string {
	return append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=20GiB", "VERIF_VARIANT="+variant,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
}

func exploreVariant(prop, tier, variant string, shard, shards int) *result {
	dir, err := os.MkdirTemp("", "vmc-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nil
	}
	defer os.RemoveAll(dir)
	exe := executable(variant)
	cmd := exec.Command(exe, "child", prop, tier, dir)
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &errb
	cmd.Env = append(variantEnv(variant, dir), fmt.Sprint("VERIF_SHARD=", shard), fmt.Sprint("VERIF_SHARDS=", shards))
	err = cmd.Run()
	var res result
	if err == nil {
		b, e := os.ReadFile(filepath.Join(dir, "result.json"))
		if e == nil {
			e = json.Unmarshal(b, &res)
		}
		if e != nil {
			fmt.Fprintln(os.Stderr, "no result:", e, tail(errb.String()))
			return nil
		}
		return &res
	}
	res = result{Property: prop, Tier: tier, Seed: envSeed()}
	v := crashed(exe, variant, prop, tier, dir, errb.String())
	if v == nil {
		fmt.Fprintln(os.Stderr, "the exploration ended abnormally:", err)
		fmt.Fprintln(os.Stderr, tail(errb.String()))
		return nil
	}
	res.Violations = []explore.Violation{*v}
	res.Incomplete = true
	return &res
}

func tail(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

// crashed finds the execution which ended the process (fatal error, stack
// overflow, hang) by running each one that was in flight on its own.
func crashed(exe, variant, prop, tier, dir, stderr string) *explore.Violation {
	if strings.Contains(stderr, "HARNESS ERROR") {
		return nil
	}
	b, _ := os.ReadFile(filepath.Join(dir, "inflight"))
	hangWorker := -1
	if h, err := os.ReadFile(filepath.Join(dir, "hang")); err == nil {
		hangWorker, _ = strconv.Atoi(string(h))
	}
	var first *explore.Violation
	for w := 0; w*slot < len(b); w++ {
		if hangWorker >= 0 && w != hangWorker {
			continue
		}
		s := b[w*slot:]
		if i := bytes.IndexByte(s, '\n'); i >= 0 {
			s = s[:i]
		}
		i := bytes.LastIndexByte(s, '|')
		if i < 0 {
			continue
		}
		var vec []int
		for _, x := range strings.Fields(string(s[i+1:])) {
			n, err := strconv.Atoi(x)
			if err != nil {
				return nil
			}
			vec = append(vec, n)
		}
		rf := replayFile{Property: prop, Tier: tier, Seed: envSeed(), Space: string(s[:i]), Choices: vec, Sig: "crash"}
		jb, _ := json.Marshal(rf)
		p := filepath.Join(dir, fmt.Sprintf("try%d.json", w))
		os.WriteFile(p, jb, 0o644)
		limit := 60 * time.Second
		if hangWorker >= 0 {
			limit = seconds("VERIF_HANG", 100)
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, exe, "replay", p)
		cmd.Env = variantEnv(variant, dir)
		out, err := cmd.CombinedOutput()
		hung := ctx.Err() != nil
		cancel()
		var ee *exec.ExitError
		if hung {
			return &explore.Violation{Space: rf.Space, Choices: vec, Sig: "hang", Message: fmt.Sprintf("the call does not return within %v", limit)}
		}
		if errors.As(err, &ee) && ee.ExitCode() != 1 && !bytes.Contains(out, []byte("HARNESS ERROR")) {
			return &explore.Violation{Space: rf.Space, Choices: vec, Sig: "crash", Message: "the process dies: " + firstLines(string(out))}
		}
		if first == nil {
			first = &explore.Violation{Space: rf.Space, Choices: vec, Sig: "crash", Message: "the process died while running this execution together with others: " + firstLines(stderr)}
		}
	}
	if hangWorker >= 0 || !strings.Contains(stderr, "fatal error") {
		return nil
	}
	return first
}

func firstLines(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 6 {
		l = l[:6]
	}
	return strings.Join(l, " / ")
}

func report(ck *checks.Check, res *result, wall time.Duration) int {
	var fresh []explore.Violation
	ks := knownFindings()
	for _, v := range res.Violations {
		isKnown := false
		for _, k := range ks {
			if k.property == ck.ID && k.space == v.Space && k.choices == vecString(v.Choices) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.text)
				isKnown = true
			}
		}
		if !isKnown {
			fresh = append(fresh, v)
		}
	}
	complete := !res.Incomplete
	for _, s := range res.Stats {
		fmt.Printf("%s %-34s executions=%d skipped=%d complete=%v outcomes=%d %.1fs\n", ck.ID, s.Name, s.Executions, s.Skipped, s.Complete, s.Outcomes, s.Seconds)
		complete = complete && s.Complete
	}
	cov := map[string]any{
		"evaluations":                   res.Evals,
		"distinct_nontrivial":           res.Keys,
		"rule":                          ck.Rule,
		"samples":                       res.Samples,
		"states":                        res.States,
		"transitions":                   res.Trans,
		"traces_validated_against_impl": res.Execs,
		"executions":                    res.Execs,
		"spaces":                        res.Stats,
		"exhaustive":                    complete && len(res.Violations) == 0,
	}
	if len(res.Samples) > 40 {
		cov["samples"] = res.Samples[:40]
	}
	ev := map[string]any{
		"property": ck.ID, "tier": res.Tier, "seed": res.Seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assume, "wall_s": wall.Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root(), "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s executions=%d evaluations=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", ck.ID, res.Execs, res.Evals, res.States, res.Trans, complete, wall.Seconds())
		return 0
	}
	rd := filepath.Join(root(), "replays")
	os.MkdirAll(rd, 0o755)
	for i, v := range fresh {
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", ck.ID, i))
		rf := replayFile{ck.ID, res.Tier, res.Seed, v.Space, v.Choices, v.Labels, v.Sig, v.Message, v.Notes, v.Repro, "cd /verif && ./run.sh replay " + p}
		jb, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(p, append(jb, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		fmt.Printf("  space %s, %s: %s\n  choices: %s\n", v.Space, v.Sig, v.Message, strings.Join(v.Labels, " "))
	}
	return 1
}

func replay(path string) int {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := checks.All[rf.Property]
	if ck == nil {
		return 2
	}
	for _, sp := range ck.Spaces(env(rf.Tier, rf.Seed)) {
		if sp.Name != rf.Space {
			continue
		}
		if sp.Variant != os.Getenv("VERIF_VARIANT") {
			dir, err := os.MkdirTemp("", "vmc-replay-")
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			defer os.RemoveAll(dir)
			cmd := exec.Command(executable(sp.Variant), "replay", path)
			cmd.Stdout, cmd.Stderr, cmd.Env = os.Stdout, os.Stderr, variantEnv(sp.Variant, dir)
			cmd.Run()
			return cmd.ProcessState.ExitCode()
		}
		v, labels, notes := explore.Replay(sp, rf.Choices)
		fmt.Println("choices:", strings.Join(labels, " "))
		for _, n := range notes {
			fmt.Println("note:", n)
		}
		if v == nil {
			fmt.Println("the execution passes")
			return 0
		}
		fmt.Printf("VIOLATION property=%s %s: %s\n", rf.Property, v.Sig, v.Message)
		return 1
	}
	fmt.Fprintln(os.Stderr, "no such space", rf.Space)
	return 2
}
