//go:build go1.21

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

type knownEntry struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownEntry `json:"findings"`
	Fixed    []string     `json:"fixed"`
}

func main() {
	id := flag.String("check", "", "the property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "the seed")
	root := flag.String("root", "/verif", "the /verif folder")
	child := flag.Bool("child", false, "internal")
	shard := flag.Int("shard", 0, "internal")
	shards := flag.Int("shards", 1, "internal")
	out := flag.String("out", "", "internal")
	only := flag.String("only", "", "run only that case")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list the checks")
	isRace := flag.Bool("israce", false, "tells if a check needs the race build")
	flag.Parse()

	if *list {
		for _, k := range sortedKeys(registry) {
			fmt.Println(k)
		}
		return
	}

	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r map[string]interface{}
		if err := json.Unmarshal(data, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*id, _ = r["property"].(string)
		*tier, _ = r["tier"].(string)
		*only, _ = r["case"].(string)
		if s, ok := r["seed"].(float64); ok {
			*seed = uint64(s)
		}
	}

	chk := registry[*id]
	if chk == nil {
		fmt.Fprintf(os.Stderr, "unknown check %q\n", *id)
		os.Exit(2)
	}

	if *isRace {
		fmt.Println(chk.Race)
		return
	}

	if *child {
		runChild(chk, *seed, *tier, *shard, *shards, *only, *out)
		return
	}

	os.Exit(runParent(chk, *seed, *tier, *root, *only))
}

func runChild(chk *Check, seed uint64, tier string, shard int, shards int, only string, out string) {
	debug.SetMaxStack(256 << 20)
	x := &Ctx{Check: chk, Seed: seed, Tier: tier, Shard: shard, Shards: shards, Only: only,
		seen: map[uint64]bool{}, sigSeen: map[string]int{}}
	x.rep.Events = map[string]int64{}
	j, err := os.OpenFile(out+".journal", os.O_CREATE|os.O_RDWR, 0o644)
	if err == nil {
		x.journal = j
	}
	cpu := 120 * time.Second
	if chk.Race {
		cpu = 360 * time.Second
	}
	go x.watchdog(cpu, 400*time.Second, 2500<<20)
	// the code under test logs warnings: they are not a result
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	logDiscard()
	chk.Run(x)
	x.rep.Done = true
	if only != "" {
		for _, v := range x.rep.Violations {
			fmt.Fprintf(os.Stderr, "replayed %s: [%s] %s\n", v.Case, v.Sig, v.Msg)
			for _, k := range sortedKeys(v.Detail) {
				fmt.Fprintf(os.Stderr, "  %s = %s\n", k, v.Detail[k])
			}
		}
	}
	data, err := json.Marshal(&x.rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(out, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func runParent(chk *Check, seed uint64, tier string, root string, only string) int {
	begin := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "zzverif-"+chk.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if chk.Single || only != "" {
		shards = 1
	}

	type result struct {
		rep     Report
		err     error
		stderr  string
		journal string
		code    int
	}
	results := make([]result, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("shard%d.json", i))
			args := []string{"-child", "-check", chk.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10),
				"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-out", out}
			if only != "" {
				args = append(args, "-only", only)
			}
			cmd := exec.Command(self, args...)
			var stderr bytes.Buffer
			if only != "" {
				cmd.Stderr = io.MultiWriter(os.Stderr, &stderr)
			} else {
				cmd.Stderr = &capped{buf: &stderr, max: 4 << 20}
			}
			cmd.Dir = tmp
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+tmp)
			if !chk.Race && !chk.Single {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
			}
			err := cmd.Run()
			results[i].stderr = stderr.String()
			if b, e := os.ReadFile(out + ".journal"); e == nil {
				results[i].journal = strings.TrimSpace(string(b))
			}
			if err != nil {
				results[i].err = err
				results[i].code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					results[i].code = ee.ExitCode()
				}
				return
			}
			b, e := os.ReadFile(out)
			if e != nil {
				results[i].err = e
				return
			}
			results[i].err = json.Unmarshal(b, &results[i].rep)
		}(i)
	}
	wg.Wait()

	total := Report{Events: map[string]int64{}}
	distinct := map[uint64]bool{}
	for i := range results {
		r := &results[i]
		if r.err != nil {
			v := Violation{Case: r.journal, Detail: map[string]string{"stderr": tail(r.stderr, 12000)}}
			switch {
			case r.code == 66 || strings.Contains(r.stderr, "WARNING: DATA RACE"):
				v.Sig = "data-race"
				v.Msg = "the race detector reported a data race"
			case r.code == 97:
				v.Sig = "hang:" + r.journal
				v.Msg = "the call did not return (watchdog)"
			case r.code == 98:
				v.Sig = "memory:" + r.journal
				v.Msg = "the call consumed memory without bound (watchdog)"
			case strings.Contains(r.stderr, "stack overflow") || strings.Contains(r.stderr, "stack exceeds"):
				v.Sig = "stack-overflow:" + r.journal
				v.Msg = "the process died of a stack overflow"
			case strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "panic:"):
				v.Sig = "crash:" + r.journal
				v.Msg = "the process crashed"
			default:
				fmt.Fprintf(os.Stderr, "shard %d of %s failed: %v (code %d)\n%s\n", i, chk.ID, r.err, r.code, tail(r.stderr, 4000))
				return 2
			}
			total.Violations = append(total.Violations, v)
			continue
		}
		total.Evaluations += r.rep.Evaluations
		total.Dropped += r.rep.Dropped
		for k, n := range r.rep.Events {
			total.Events[k] += n
		}
		for _, d := range r.rep.Distinct {
			distinct[d] = true
		}
		if len(total.Samples) < 6 && len(r.rep.Samples) > 0 {
			total.Samples = append(total.Samples, r.rep.Samples[0])
		}
		total.Violations = append(total.Violations, r.rep.Violations...)
	}
	if total.Samples == nil {
		total.Samples = []interface{}{}
	}

	known := knownFile{}
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintf(os.Stderr, "known_findings.json: %v\n", err)
			return 2
		}
	}

	fresh := []Violation{}
	knownSeen := map[string]string{}
	for _, v := range total.Violations {
		matched := false
		for _, k := range known.Findings {
			if k.Property == chk.ID && k.Sig == v.Sig {
				knownSeen[k.Sig] = k.What
				matched = true
				break
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	for _, sig := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, knownSeen[sig])
	}

	if only == "" {
		ev := map[string]interface{}{
			"property": chk.ID,
			"tier":     tier,
			"seed":     seed,
			"level":    "exploration",
			"wall_s":   float64(int(time.Since(begin).Seconds()*100)) / 100,
			"coverage": map[string]interface{}{
				"evaluations":         total.Evaluations,
				"distinct_nontrivial": len(distinct),
				"rule":                chk.Rule,
				"samples":             total.Samples,
				"events":              total.Events,
				"processes":           shards,
				"known_findings_seen": len(knownSeen),
			},
			"violations":  len(fresh),
			"assumptions": append([]string{}, chk.Assumptions...),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(root, "evidence", chk.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}

	if len(fresh) > 0 {
		dir := filepath.Join(root, "replays")
		_ = os.MkdirAll(dir, 0o755)
		for i, v := range fresh {
			if i >= 5 {
				fmt.Printf("... and %d more (%d dropped)\n", len(fresh)-5, total.Dropped)
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", chk.ID, tier, seed, i))
			b, _ := json.MarshalIndent(map[string]interface{}{
				"property": chk.ID, "tier": tier, "seed": seed, "case": v.Case, "sig": v.Sig, "msg": v.Msg, "detail": v.Detail,
			}, "", " ")
			_ = os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
			fmt.Printf("  case %s [%s]: %s\n", v.Case, v.Sig, firstLines(v.Msg, 6))
		}
		return 1
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", chk.ID, total.Evaluations, len(distinct), time.Since(begin).Seconds())
	return 0
}

type capped struct {
	buf *bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if c.buf.Len() < c.max {
		c.buf.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

func firstLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n    ")
}

func u64bytes(v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}
