//go:build verifsched

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"

	"ecksbee.com/telefacts/pkg/serializables"
	"ecksbee.com/telefacts/verifvs/vos"
	"github.com/google/uuid"
)

// A creation is one call of NewFolder.
type creation struct{ key, entry, note string }

func (c creation) String() string {
	return fmt.Sprintf("create %q with %q", c.key, c.entry)
}

func (c creation) meta() serializables.Underscore {
	return serializables.Underscore{Entry: c.entry, Note: c.note}
}

type created struct {
	id   string
	err  error
	done bool
}

func (c creation) run(r *created) {
	r.id, r.err = serializables.NewFolder(c.key, c.meta())
	r.done = true
}

// counting is a source of random numbers that repeats each of its numbers, or
// the first two of them.
type counting struct {
	n     atomic.Int64
	every int64
}

func (c *counting) Read(b []byte) (int, error) {
	v := c.n.Add(1) - 1
	if c.every == 3 && v >= 2 { // 0 1 0 1 2 3 ...
		v -= 2
	} else if c.every < 3 {
		v /= c.every
	}
	for i := range b {
		b[i] = byte(v >> (8 * (i % 8)))
	}
	return len(b), nil
}

// p24World is a working directory without folders.
func p24World(e *Env, every int64) string {
	e.n++
	wd := filepath.Join(e.wd, fmt.Sprintf("p24-%d", e.n))
	if err := os.MkdirAll(filepath.Join(wd, "folders"), 0o755); err != nil {
		fatal(err)
	}
	serializables.WorkingDirectoryPath = wd
	uuid.SetRand(&counting{every: every})
	vos.Root = e.dir
	vos.Faulty = 0
	return wd
}

// readBack is what the folder says about itself, and whether it loads at all.
func readBack(wd, id string) (creation, bool) {
	entry, err := serializables.GetEntryFileName(id)
	if err != nil {
		return creation{}, false
	}
	var m struct{ Entry, Note string }
	b, err := os.ReadFile(filepath.Join(wd, "folders", id, "_"))
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	if err != nil || m.Entry != entry {
		return creation{entry: "?" + entry}, true
	}
	return creation{entry: m.Entry, note: m.Note}, true
}

// judgeCreations decides what became of the creations; spotless is whether all
// of them ran to their end and no operation failed.
func judgeCreations(wd string, before map[string]created, list []creation, got []created, spotless bool) string {
	owner := map[string]string{} // id: key
	ids := map[string]string{}   // key: id
	won := map[string]int{}
	for k, x := range before {
		owner[x.id], ids[k] = k, x.id
		won[k]++
	}
	for i, c := range list {
		g := got[i]
		if !g.done {
			continue
		}
		if g.err == nil {
			if g.id == "" {
				return fmt.Sprintf("%s: success without an id", c)
			}
			x, ok := readBack(wd, g.id)
			if !ok || x.entry != c.entry || x.note != c.note {
				return fmt.Sprintf("%s: reported as done, but the folder reads back as %q (loads: %v)", c, x, ok)
			}
			if c.key != "" {
				if won[c.key]++; won[c.key] > 1 {
					return fmt.Sprintf("%s: a second creation of the key is reported as done", c)
				}
			}
		} else if spotless {
			if c.key == "" {
				return fmt.Sprintf("%s: fails: %v", c, g.err)
			}
			if !errors.Is(g.err, os.ErrExist) || g.id == "" {
				return fmt.Sprintf("%s: gives %q and %v instead of the id of the existing folder and that it exists", c, g.id, g.err)
			}
		}
		if g.id == "" {
			continue
		}
		if c.key != "" {
			if old, ok := ids[c.key]; ok && old != g.id {
				return fmt.Sprintf("%s: the same key gives %s and %s", c, old, g.id)
			}
			ids[c.key] = g.id
		}
		name := "key " + c.key
		if c.key == "" {
			name = fmt.Sprint("call ", i)
		}
		if o, ok := owner[g.id]; ok && o != name && o != c.key {
			return fmt.Sprintf("%s: has the id %s of %q", c, g.id, o)
		}
		owner[g.id] = name
	}
	if spotless {
		for _, c := range list {
			if c.key != "" && won[c.key] != 1 {
				return fmt.Sprintf("%s: %d creations of the key are reported as done", c, won[c.key])
			}
		}
	}
	// whatever happened, what loads has the metadata of one of the creations
	dirs, _ := os.ReadDir(filepath.Join(wd, "folders"))
	for _, d := range dirs {
		x, ok := readBack(wd, d.Name())
		if !ok {
			continue
		}
		known := false
		for _, c := range list {
			known = known || c.entry == x.entry && c.note == x.note
		}
		for _, b := range before {
			known = known || b.id == d.Name()
		}
		if !known {
			return fmt.Sprintf("folder %s loads as %q, which nobody gave", d.Name(), x)
		}
	}
	return ""
}

// creating runs creations at the same time, perhaps with a task that loads
// their folders, after others that were there before.
func creating(fault, load bool, every int64, before []creation, list ...creation) *scenario {
	name := fmt.Sprint(list)
	if len(before) > 0 {
		name += fmt.Sprintf(" after %v", before)
	}
	if load {
		name += " while loading"
	}
	if fault {
		name += ", operations may fail"
	}
	if every > 1 {
		name += ", random numbers repeat"
	}
	return &scenario{name: name, leaf: -1, fault: fault, start: func(e *Env, s *scenario) *attempt {
		wd := p24World(e, every)
		trouble := ""
		was := map[string]created{}
		for _, c := range before {
			var g created
			alone(func() { c.run(&g) })
			if g.err != nil {
				trouble = fmt.Sprintf("%s fails alone: %v", c, g.err)
			}
			was[c.key] = g
		}
		a := &attempt{}
		got := make([]created, len(list))
		for i, c := range list {
			a.mains = append(a.mains, func() { c.run(&got[i]) })
		}
		type seen struct {
			entry string
			err   error
			done  bool
		}
		seens := make([]seen, len(list))
		if load {
			for i, c := range list {
				if c.key == "" {
					continue
				}
				id := uuid.NewMD5(uuid.UUID{}, []byte(c.key)).String()
				a.mains = append(a.mains, func() {
					seens[i].entry, seens[i].err = serializables.GetEntryFileName(id)
					seens[i].done = true
				})
			}
		}
		a.result = func() string {
			defer os.RemoveAll(wd)
			if trouble != "" {
				return trouble
			}
			spotless := vos.Faulty == 0 && !a.crashed
			if p := judgeCreations(wd, was, list, got, spotless); p != "" {
				return p
			}
			for _, x := range seens {
				if x.done && x.err == nil {
					ok := false
					for _, c := range append(append([]creation{}, before...), list...) {
						ok = ok || c.entry == x.entry
					}
					if !ok {
						return fmt.Sprintf("loading finds the entry %q, which nobody gave", x.entry)
					}
				}
			}
			// once more, with nothing failing
			for i, c := range list {
				var g created
				r := alone(func() { creation{c.key, "again.xml", "again"}.run(&g) })
				if r.Panic != "" || r.Deadlock != "" {
					return fmt.Sprintf("%s once more: %s %s", c, r.Panic, r.Deadlock)
				}
				there := false
				_, pre := was[c.key]
				for j := range list {
					there = there || list[j].key == c.key && got[j].done && got[j].err == nil
				}
				if c.key != "" && (there || pre) && (g.err == nil || !errors.Is(g.err, os.ErrExist)) {
					return fmt.Sprintf("%s once more after it was done: %q, %v", c, g.id, g.err)
				}
				if g.err == nil {
					if x, ok := readBack(wd, g.id); !ok || x.entry != "again.xml" || x.note != "again" {
						return fmt.Sprintf("%s once more: reported as done, but the folder reads back as %q (loads: %v)", c, x, ok)
					}
				}
				if got[i].done && got[i].err == nil {
					if x, ok := readBack(wd, got[i].id); !ok || x.entry != c.entry || x.note != c.note {
						return fmt.Sprintf("%s: after another creation the folder reads back as %q (loads: %v)", c, x, ok)
					}
				}
			}
			return "ok"
		}
		return a
	}, judge: func(e *Env, got string) string {
		if got == "ok" {
			return ""
		}
		return got
	}}
}

var p24Keys = []string{"", "a", "b", "A", "a ", "aa", "../a", "é", "a/b", "./a/b", "a\x00", p24Long + "1", p24Long + "2"}

const p24Long = "a-very-long-key-a-very-long-key-a-very-long-key-a-very-long-key-a-very-long-key-a-very-long-key-a-very-long-key"

var p24Metas = [][2]string{{"f.xml", ""}, {"g <&> \"é\u2028.xhtml", "a note\nwith \"quotes\" & <tags>"}, {"", ""}, {" h.xbrl ", " \tnote " + p24Long + p24Long + p24Long + "\r\n"}}

// p24Histories creates folders one after the other.
func p24Histories(name string, n int, keys []string) Family {
	return Family{Name: name, Bounds: fmt.Sprintf("all sequences of %d creations with %d keys and %d kinds of metadata", n, len(keys), len(p24Metas)),
		Gen: func(c *Chooser) Exec {
			var list []creation
			for i := 0; i < n; i++ {
				m := p24Metas[c.Choose(len(p24Metas))]
				list = append(list, creation{keys[c.Choose(len(keys))], m[0], m[1]})
			}
			every := int64(1 + c.Choose(3))
			return func(e *Env) string {
				wd := p24World(e, every)
				defer os.RemoveAll(wd)
				got := make([]created, n)
				for i, c := range list {
					r := alone(func() { c.run(&got[i]) })
					if r.Panic != "" || r.Deadlock != "" {
						return fmt.Sprintf("%v: %s %s", list[:i+1], r.Panic, r.Deadlock)
					}
					if c.key != "" {
						e.outcome += fmt.Sprint(c.key, got[i].id, got[i].err)
					}
				}
				if p := judgeCreations(wd, nil, list, got, true); p != "" {
					return fmt.Sprintf("%v: %s", list, p)
				}
				return ""
			}
		}}
}

func p24Families(thorough bool) []Family {
	a, a2, a3 := creation{"a", "one.xml", "first"}, creation{"a", "two.xml", ""}, creation{"a", "three.xml", "third"}
	b := creation{"b", "four.xml", "4"}
	n1, n2 := creation{"", "five.xml", "5"}, creation{"", "six.xml", ""}
	two := []*scenario{
		creating(false, false, 1, nil, a, a2),
		creating(false, false, 1, nil, a, a),
		creating(false, false, 1, nil, a, b),
		creating(false, false, 1, nil, n1, n2),
		creating(false, false, 1, nil, a, n1),
		creating(false, true, 1, nil, a),
		creating(false, true, 1, nil, a, a2),
		creating(false, false, 1, []creation{a}, a2, b),
		creating(false, false, 2, []creation{n1}, n2),
	}
	three := []*scenario{
		creating(false, false, 1, nil, a, a2, a3),
		creating(false, false, 1, nil, a, a2, b),
		creating(false, false, 1, nil, n1, n2, a),
	}
	faultOne := []*scenario{
		creating(true, false, 1, nil, a),
		creating(true, false, 1, nil, n1),
		creating(true, false, 1, []creation{a}, a2),
		creating(true, true, 1, nil, a),
	}
	faultTwo := []*scenario{
		creating(true, false, 1, nil, a, a2),
		creating(true, false, 1, nil, a, b),
		creating(true, false, 1, nil, n1, n2),
	}
	if !instrumented {
		return []Family{p24Histories("histories-3", 3, p24Keys)}
	}
	cat := func(l ...[]*scenario) []*scenario {
		var r []*scenario
		for _, x := range l {
			r = append(r, x...)
		}
		return r
	}
	few := p24Keys[:6]
	if thorough {
		return build(
			p24Histories("histories-4", 4, p24Keys),
			schedules("schedules-6", 6, true, two...),
			schedules("schedules-4", 4, true, three...),
			schedules("faults-4", 4, true, faultOne...),
			schedules("faults-and-schedules-3", 3, true, faultTwo...),
			schedules("race-schedules-3", 3, true, cat(two, three)...),
			schedules("race-faults-2", 2, true, cat(faultOne, faultTwo)...),
		)
	}
	return build(
		p24Histories("histories-3", 3, p24Keys),
		p24Histories("histories-4", 4, few),
		schedules("schedules-5", 5, true, two...),
		schedules("schedules-3", 3, true, three...),
		schedules("faults-3", 3, true, faultOne...),
		schedules("faults-and-schedules-2", 2, true, faultTwo...),
		schedules("race-schedules-2", 2, true, cat(two, three)...),
		schedules("race-faults-1", 1, true, cat(faultOne, faultTwo)...),
	)
}

func init() {
	register(&Check{ID: "P24", Race: true, Setup: schedSetup,
		Rule: "of the creations of one key exactly one is reported as done and all give the same id; other keys and keyless creations give other ids; what is reported as done reads back as given, also when operations fail; after a crash a folder does not load or loads as given",
		Assume: append([]string{"a failing file operation has no effect, except that a write may write any part and a failing close may lose the end of an unsynced file",
			"what was written before a crash is on disk"}, schedAssume...),
		Families: p24Families})
}
