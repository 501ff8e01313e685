package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"
)

var (
	fMode   = flag.String("mode", "check", "check, worker, replay, leaf")
	fID     = flag.String("id", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fShard  = flag.Int("shard", 0, "")
	fShards = flag.Int("shards", 1, "")
	fDir    = flag.String("dir", "", "scratch directory")
	fUntil  = flag.Int64("until", 0, "unix milliseconds deadline")
	fFile   = flag.String("file", "", "replay file")
	fVerif  = flag.String("verif", "/verif", "verification directory")
	fRepo   = flag.String("repo", "/repo", "repository")
	fSlot   = flag.Int("slot", 0, "")
	fRace   = flag.String("racebin", "", "the same harness with the race detector")
	fBudget = flag.Duration("budget", 0, "exploration time")
)

func main() {
	flag.Parse()
	ck := checks[*fID]
	if ck == nil && *fMode != "list" {
		fatal(fmt.Errorf("unknown check %q", *fID))
	}
	switch *fMode {
	case "worker":
		worker(ck, *fTier, *fShard, *fShards, *fSlot, *fDir, time.UnixMilli(*fUntil), 0)
	case "history":
		var v Violation
		readJSON(*fFile, &v)
		worker(ck, v.Tier, v.Shard, v.Shards, 0, *fDir, time.Now().Add(time.Hour), v.Count)
		var r WorkerResult
		readJSON(filepath.Join(*fDir, "result0"), &r)
		if x := r.Violation; x != nil && x.Count == v.Count && x.Family == v.Family && slices.Equal(x.Vector, v.Vector) {
			fmt.Println(x.Message)
			os.Exit(3)
		}
	case "alone":
		env := newEnv(filepath.Join(*fDir, "alone"))
		if ck.Setup != nil {
			ck.Setup(env)
		}
		fmt.Print(ck.Alone(env, *fFile))
		env.close()
	case "leaf":
		var v Violation
		readJSON(*fFile, &v)
		msg := replayLeaf(ck, v.Tier, v.Family, v.Vector, *fDir)
		if msg != "" {
			fmt.Println(msg)
			os.Exit(3)
		}
	case "replay":
		os.Exit(replayFile(ck, *fFile))
	case "check":
		os.Exit(supervise(ck))
	default:
		fatal(fmt.Errorf("unknown mode"))
	}
}

func readJSON(path string, v any) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		fatal(err)
	}
}

func replayFile(ck *Check, file string) int {
	var v Violation
	readJSON(file, &v)
	again, text := confirm(ck, v, 1)
	fmt.Println(text)
	if again {
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, file)
		return 1
	}
	fmt.Println("the replay does not fail")
	return 0
}

// confirm re-runs a failing leaf alone in fresh processes, or after the cases
// before it when it depends on them.
func confirm(ck *Check, v Violation, times int) (bool, string) {
	last := ""
	mode, limit := "leaf", hangLimit()
	if v.History {
		mode, limit = "history", 20*time.Minute
	}
	for i := 0; i < times; i++ {
		dir := filepath.Join(*fDir, fmt.Sprintf("confirm%d", i))
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, "leaf.json")
		writeJSON(f, v)
		cmd := exec.Command(binaryFor(v.Family), "-mode", mode, "-id", ck.ID, "-file", f, "-dir", dir, "-verif", *fVerif, "-repo", *fRepo)
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		if err := cmd.Start(); err != nil {
			fatal(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		hung := false
		select {
		case err = <-done:
		case <-time.After(limit):
			hung = true
			cmd.Process.Kill()
			<-done
		}
		os.RemoveAll(dir)
		if v.History {
			// only the same outcome every time counts
			if hung || cmd.ProcessState.ExitCode() != 3 {
				return false, ""
			}
			last = tail(out.String(), 6000)
			continue
		}
		if hung {
			return true, fmt.Sprintf("no answer within %s for a single case", hangLimit())
		}
		if err != nil {
			if cmd.ProcessState.ExitCode() == 2 && strings.Contains(out.String(), "harness error:") {
				last = out.String()
				continue
			}
			return true, tail(out.String(), 6000)
		}
		last = out.String()
	}
	return v.History, last
}

// binaryFor is the build that runs a family.
func binaryFor(family string) string {
	if strings.HasPrefix(family, "race-") && *fRace != "" {
		return *fRace
	}
	return os.Args[0]
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func hangLimit() time.Duration { return 100 * time.Second }

// explore runs the workers of one build and returns what they found.
func explore(ck *Check, binary string, n, slot int, budget time.Duration) []Violation {
	until := time.Now().Add(budget).UnixMilli()
	type proc struct {
		cmd    *exec.Cmd
		out    limited
		done   chan error
		last   string
		lastAt time.Time
		ended  bool
	}
	procs := make([]*proc, n)
	for i := range procs {
		p := &proc{done: make(chan error, 1), lastAt: time.Now()}
		p.cmd = exec.Command(binary, "-mode", "worker", "-id", ck.ID, "-tier", *fTier,
			"-shard", strconv.Itoa(i), "-slot", strconv.Itoa(slot+i), "-shards", strconv.Itoa(n), "-dir", *fDir,
			"-until", strconv.FormatInt(until, 10), "-verif", *fVerif, "-repo", *fRepo)
		p.cmd.Stderr = &p.out
		if err := p.cmd.Start(); err != nil {
			fatal(err)
		}
		go func() { p.done <- p.cmd.Wait() }()
		procs[i] = p
	}
	var suspects []Violation
	killAll := func() {
		for _, p := range procs {
			if !p.ended {
				p.cmd.Process.Kill()
			}
		}
	}
	for {
		running := 0
		for i, p := range procs {
			if p.ended {
				continue
			}
			select {
			case err := <-p.done:
				p.ended = true
				resFile := filepath.Join(*fDir, fmt.Sprintf("result%d", slot+i))
				if _, e := os.Stat(resFile); e == nil {
					var r WorkerResult
					readJSON(resFile, &r)
					if r.Violation != nil {
						suspects = append(suspects, *r.Violation)
					}
					continue
				}
				fam, vec, ok := parseProgress(filepath.Join(*fDir, fmt.Sprintf("progress%d", slot+i)))
				if !ok {
					killAll()
					fatal(fmt.Errorf("worker %d ended without a result: %v\n%s", i, err, tail(p.out.String(), 4000)))
				}
				suspects = append(suspects, Violation{Property: ck.ID, Family: fam, Vector: vec, Tier: *fTier,
					Message: "the process died: " + tail(p.out.String(), 4000)})
			default:
				running++
				b, _ := os.ReadFile(filepath.Join(*fDir, fmt.Sprintf("progress%d", slot+i)))
				cur := string(bytes.TrimRight(b, "\x00"))
				if cur != p.last {
					p.last = cur
					p.lastAt = time.Now()
				} else if cur != "" && time.Since(p.lastAt) > hangLimit() {
					fam, vec, _ := parseProgress(filepath.Join(*fDir, fmt.Sprintf("progress%d", slot+i)))
					p.cmd.Process.Kill()
					<-p.done
					p.ended = true
					suspects = append(suspects, Violation{Property: ck.ID, Family: fam, Vector: vec, Tier: *fTier,
						Message: fmt.Sprintf("no answer within %s for a single case", hangLimit())})
				}
			}
		}
		if len(suspects) > 0 {
			killAll()
			break
		}
		if running == 0 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return suspects
}

func supervise(ck *Check) int {
	start := time.Now()
	budget := *fBudget
	if budget == 0 {
		budget = 150 * time.Second
		if *fTier == "thorough" {
			budget = 9 * time.Minute
		}
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var suspects []Violation
	slots := n
	if *fRace == "" {
		suspects = explore(ck, os.Args[0], n, 0, budget)
	} else {
		suspects = explore(ck, os.Args[0], n, 0, budget*3/5)
		if len(suspects) == 0 {
			left := budget - time.Since(start)
			suspects = explore(ck, *fRace, n, n, left)
			slots = 2 * n
		}
	}
	var notes []string
	var confirmed *Violation
	unconfirmed := 0
	for i := range suspects {
		if again, text := confirm(ck, suspects[i], 5); again {
			confirmed = &suspects[i]
			if text != "" {
				confirmed.Message += "\n--- alone ---\n" + text
			}
			break
		}
		if v := suspects[i]; v.Count > 0 && v.Count < 1<<40 {
			v.History = true
			if again, text := confirm(ck, v, 2); again {
				v.Message = "after other cases in the same process: " + v.Message + "\n--- once more ---\n" + text
				confirmed = &v
				break
			}
		}
		unconfirmed++
		notes = append(notes, "seen once and not again in five runs alone: "+clip(suspects[i].Message, 300))
	}
	ev := aggregate(ck, n, slots)
	ev["wall_s"] = time.Since(start).Seconds()
	if *fRace == "" && ck.Race {
		ev["coverage"].(map[string]any)["exhaustive"] = false
		notes = append(notes, "no build with the race detector: data races were not looked for")
	}
	code := 0
	if confirmed != nil {
		dir := filepath.Join(*fVerif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%x.json", ck.ID, hash64(confirmed.Family+fmt.Sprint(confirmed.Vector))))
		writeJSON(f, confirmed)
		ev["violations"] = []any{map[string]any{"replay": f, "family": confirmed.Family, "message": clip(confirmed.Message, 1500)}}
		fmt.Println(clip(confirmed.Message, 6000))
		fmt.Printf("family %s, choices %v\n", confirmed.Family, confirmed.Vector)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, f)
		code = 1
	}
	if len(notes) > 0 {
		ev["notes"] = notes
		for _, s := range notes {
			fmt.Println("note:", s)
		}
	}
	for _, k := range loadKnown(ck.ID).entries {
		if k.Fixed == "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.What)
		}
	}
	writeEvidence(ck.ID, ev)
	cov := ev["coverage"].(map[string]any)
	fmt.Printf("%s: states=%v transitions=%v traces=%v outcomes=%v exhaustive=%v in %.1fs\n", ck.ID,
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["distinct_outcomes"], cov["exhaustive"], time.Since(start).Seconds())
	return code
}

// limited keeps the beginning and the end of what is written to it.
type limited struct {
	head, tail bytes.Buffer
}

func (l *limited) Write(b []byte) (int, error) {
	if l.head.Len() < 64<<10 {
		l.head.Write(b)
		return len(b), nil
	}
	if l.tail.Len() > 256<<10 {
		l.tail.Reset()
	}
	l.tail.Write(b)
	return len(b), nil
}

func (l *limited) String() string { return l.head.String() + l.tail.String() }

func parseProgress(f string) (string, []int, bool) {
	b, err := os.ReadFile(f)
	if err != nil {
		return "", nil, false
	}
	line := string(bytes.TrimRight(b, "\x00\n"))
	parts := strings.SplitN(line, " ", 3)
	if len(parts) < 3 {
		return "", nil, false
	}
	var vec []int
	for _, s := range strings.Fields(strings.Trim(parts[2], "[]")) {
		v, _ := strconv.Atoi(s)
		vec = append(vec, v)
	}
	return parts[1], vec, true
}

func aggregate(ck *Check, n, slots int) map[string]any {
	var states, transitions, leaves, executed, below int64
	var allStates, allTransitions, allLeaves int64
	var notes []string
	distinct := map[uint64]bool{}
	complete := true
	var samples []string
	fam := map[string]*FamilyResult{}
	var order []string
	for i := 0; i < slots; i++ {
		f := filepath.Join(*fDir, fmt.Sprintf("result%d", i))
		if i%n == 0 {
			// the trees of this build come on top
			allStates, allTransitions, allLeaves = allStates+states, allTransitions+transitions, allLeaves+leaves
			states, transitions, leaves = 0, 0, 0
		}
		if _, err := os.Stat(f); err != nil {
			complete = false
			continue
		}
		var r WorkerResult
		readJSON(f, &r)
		// Every worker walks the same trees; the one that got furthest counts.
		if r.States > states {
			states, transitions, leaves = r.States, r.Transitions, r.Leaves
		}
		executed += r.Executed
		below += r.Below
		for _, n := range r.Notes {
			if !slices.Contains(notes, n) {
				notes = append(notes, n)
			}
		}
		complete = complete && r.Complete && r.Violation == nil
		for _, d := range r.Distinct {
			distinct[d] = true
		}
		samples = append(samples, r.Samples...)
		for _, fr := range r.Families {
			g := fam[fr.Name]
			if g == nil {
				g = &FamilyResult{Name: fr.Name, Bounds: fr.Bounds, Complete: true}
				fam[fr.Name] = g
				order = append(order, fr.Name)
			}
			g.Executed += fr.Executed
			if fr.Leaves > g.Leaves {
				g.Leaves = fr.Leaves
			}
			g.Complete = g.Complete && fr.Complete
		}
	}
	states, transitions, leaves = states+allStates, transitions+allTransitions, leaves+allLeaves
	var fams []any
	for _, name := range order {
		g := fam[name]
		fams = append(fams, map[string]any{"family": g.Name, "bounds": g.Bounds, "leaves": g.Leaves, "executed": g.Executed, "complete": g.Complete})
	}
	if samples == nil {
		samples = []string{}
	}
	if below > 0 {
		// scheduler steps of the executions, beyond the tree of leaves
		states += below
		transitions += below
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	return map[string]any{
		"property": ck.ID,
		"tier":     *fTier,
		"seed":     seed(),
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                        states,
			"transitions":                   transitions,
			"leaves":                        leaves,
			"traces_validated_against_impl": executed,
			"distinct_outcomes":             len(distinct),
			"exhaustive":                    complete,
			"families":                      fams,
			"samples":                       samples,
			"rule":                          ck.Rule,
		},
		"assumptions": append([]string{"exhaustive only within the stated bounds of each family", "states and transitions are nodes and edges of the explored choice trees"}, ck.Assume...),
	}
}

func seed() int {
	s, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return s
}

func writeEvidence(id string, ev map[string]any) {
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, id+".json"), ev)
}

// Known findings.

type knownEntry struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
	Family   string `json:"family,omitempty"`
	Vector   []int  `json:"vector,omitempty"`
	Contains string `json:"contains,omitempty"`
}

type knownSet struct{ entries []knownEntry }

func loadKnown(id string) knownSet {
	var ks knownSet
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.txt"))
	if err != nil {
		return ks
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k knownEntry
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == id {
			ks.entries = append(ks.entries, k)
		}
	}
	return ks
}

func (ks knownSet) excuses(family string, vec []int, msg string) bool {
	for _, k := range ks.entries {
		if k.Fixed == "" && k.Family == family && fmt.Sprint(k.Vector) == fmt.Sprint(vec) && strings.Contains(msg, k.Contains) {
			return true
		}
	}
	return false
}
