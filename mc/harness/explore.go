package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Chooser resolves the nondeterministic choices of a driver. The explorer
// replays a prefix and takes the first alternative afterwards.
type Chooser struct {
	vec  []int
	dims []int
	pos  int
}

// Choose picks one of n alternatives.
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic("Choose: no alternatives")
	}
	if c.pos < len(c.vec) {
		v := c.vec[c.pos]
		if v >= n {
			panic(fmt.Sprintf("Choose: replayed choice %d of %d at %d", v, n, c.pos))
		}
		c.dims = append(c.dims, n)
		c.pos++
		return v
	}
	c.vec = append(c.vec, 0)
	c.dims = append(c.dims, n)
	c.pos++
	return 0
}

func (c *Chooser) Bool() bool { return c.Choose(2) == 1 }

func pick[T any](c *Chooser, opts ...T) T { return opts[c.Choose(len(opts))] }

// Subset picks any subset of 0..n-1.
func (c *Chooser) Subset(n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = c.Bool()
	}
	return r
}

// Perm picks any permutation of 0..n-1.
func (c *Chooser) Perm(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		k := c.Choose(len(rest))
		out = append(out, rest[k])
		rest = append(append([]int{}, rest[:k]...), rest[k+1:]...)
	}
	return out
}

// Family is one choice tree of a property. Gen makes all choices and returns
// the execution to perform for them; a nil execution is a pruned leaf.
type Family struct {
	Name   string
	Bounds string
	Gen    func(c *Chooser) Exec
}

// Exec runs the implementation for one leaf. It returns the problem found,
// or "".
type Exec func(env *Env) string

// Check is one property decided by the choice-tree explorer.
type Check struct {
	ID        string
	Families  func(thorough bool) []Family
	Rule      string
	Assume    []string
	Setup     func(env *Env)
	NoRecover bool
	Race      bool // some families run with the race detector
	Alone     func(env *Env, name string) string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// WorkerResult is what one worker process reports.
type WorkerResult struct {
	States      int64
	Transitions int64
	Leaves      int64
	Executed    int64
	Below       int64 // steps of executions that share a leaf
	Notes       []string
	Distinct    []uint64
	Complete    bool
	Families    []FamilyResult
	Samples     []string
	Violation   *Violation
}

type FamilyResult struct {
	Name     string
	Bounds   string
	Leaves   int64
	Executed int64
	Complete bool
}

// Violation is the replayable artefact of a failing leaf.
type Violation struct {
	Property string
	Family   string
	Vector   []int
	Message  string
	Tier     string
	// the case is the Count-th of a worker's share; with History it fails only
	// after the cases before it
	Shard, Shards int
	Count         int64
	History       bool
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func next(vec, dims []int) []int {
	i := len(vec) - 1
	for i >= 0 && vec[i]+1 >= dims[i] {
		i--
	}
	if i < 0 {
		return nil
	}
	out := append([]int{}, vec[:i+1]...)
	out[i]++
	return out
}

// runLeaf executes one leaf and turns a panic in the calling goroutine into a
// problem.
func runLeaf(env *Env, ex Exec) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	env.begin()
	defer env.end()
	return ex(env)
}

func stackHere() string { return trimStack(debug.Stack()) }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// worker explores its share of all trees of a check, or its first cases only.
func worker(ck *Check, tier string, shard, shards, slot int, dir string, deadline time.Time, limit int64) {
	env := newEnv(filepath.Join(dir, fmt.Sprintf("w%d", slot)))
	env.late = func() bool { return time.Now().After(deadline) }
	go memoryGuard()
	if ck.Setup != nil {
		ck.Setup(env)
	}
	progress, err := os.Create(filepath.Join(dir, fmt.Sprintf("progress%d", slot)))
	if err != nil {
		fatal(err)
	}
	res := WorkerResult{Complete: true}
	distinct := map[uint64]bool{}
	known := loadKnown(ck.ID)
	var buf [4096]byte
	index, cases := int64(0), int64(0)
	for _, fam := range ck.Families(tier == "thorough") {
		fr := FamilyResult{Name: fam.Name, Bounds: fam.Bounds, Complete: true}
		vec := []int{}
		prev := []int{}
		for {
			c := &Chooser{vec: append([]int{}, vec...)}
			ex := fam.Gen(c)
			if c.pos < len(c.vec) {
				fatal(fmt.Errorf("%s: driver made fewer choices on replay", fam.Name))
			}
			shared := 0
			for shared < len(prev) && shared < len(c.vec) && prev[shared] == c.vec[shared] {
				shared++
			}
			fresh := int64(len(c.vec) - shared)
			if len(prev) == 0 && fr.Leaves == 0 {
				res.States++
			}
			res.States += fresh
			res.Transitions += fresh
			prev = c.vec
			if ex != nil {
				mine := index%int64(shards) == int64(shard)
				index++
				fr.Leaves++
				res.Leaves++
				if mine {
					line := fmt.Sprintf("%d %s %v\n", index, fam.Name, c.vec)
					n := copy(buf[:], line)
					for i := n; i < len(buf); i++ {
						buf[i] = 0
					}
					progress.WriteAt(buf[:], 0)
					env.outcome = ""
					env.leaf++
					cases++
					msg := runLeaf(env, ex)
					fr.Executed++
					res.Executed++
					if env.runs > 0 {
						fr.Executed += env.runs - 1
						res.Executed += env.runs - 1
						res.Below += env.steps
						env.runs, env.steps = 0, 0
					}
					if env.cut {
						fr.Complete = false
						res.Complete = false
						env.cut = false
					}
					if len(distinct) < 2_000_000 {
						distinct[hash64(env.outcome)] = true
					}
					if shard == 0 && len(res.Samples) < 6 && (res.Executed-1)%97 == 0 {
						res.Samples = append(res.Samples, fmt.Sprintf("%s %v -> %s", fam.Name, c.vec, clip(env.describe(), 160)))
					}
					if msg != "" && !known.excuses(fam.Name, c.vec, msg) {
						res.Violation = &Violation{Property: ck.ID, Family: fam.Name, Vector: c.vec, Message: msg, Tier: tier,
							Shard: shard, Shards: shards, Count: cases}
					}
				}
			}
			if res.Violation != nil || limit > 0 && cases >= limit {
				break
			}
			vec = next(c.vec, c.dims)
			if vec == nil {
				break
			}
			if index&31 == 0 && time.Now().After(deadline) {
				fr.Complete = false
				res.Complete = false
				break
			}
		}
		res.Families = append(res.Families, fr)
		if res.Violation != nil || limit > 0 && cases >= limit {
			break
		}
	}
	res.Notes = env.notes
	for k := range distinct {
		res.Distinct = append(res.Distinct, k)
	}
	env.close()
	writeJSON(filepath.Join(dir, fmt.Sprintf("result%d", slot)), res)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// replayLeaf runs one choice vector.
func replayLeaf(ck *Check, tier, family string, vec []int, dir string) string {
	env := newEnv(filepath.Join(dir, "replay"))
	defer env.close()
	go memoryGuard()
	if ck.Setup != nil {
		ck.Setup(env)
	}
	for _, fam := range ck.Families(tier == "thorough") {
		if fam.Name != family {
			continue
		}
		c := &Chooser{vec: append([]int{}, vec...)}
		ex := fam.Gen(c)
		if ex == nil {
			return ""
		}
		return runLeaf(env, ex)
	}
	fatal(fmt.Errorf("no family %q", family))
	return ""
}

// memoryGuard ends the process when the code under test runs away, so that
// the supervisor can attribute it to the leaf being run.
func memoryGuard() {
	debug.SetMaxStack(256 << 20)
	var m runtime.MemStats
	for {
		time.Sleep(250 * time.Millisecond)
		runtime.ReadMemStats(&m)
		if m.HeapAlloc+m.StackInuse > 3<<30 {
			fmt.Fprintln(os.Stderr, "memory runaway: more than 3 GB in use")
			os.Exit(7)
		}
	}
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fatal(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness error:", err)
	os.Exit(2)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
