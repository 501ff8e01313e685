//go:build verifsched

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
)

// content is everything a loaded filing answers: the catalog, all networks and
// the facts of its inline document.
func content(h *hydratables.Hydratable, facts [][2]string) string {
	var b strings.Builder
	r := alone(func() {
		data, err := renderables.MarshalCatalog(h)
		fmt.Fprintf(&b, "catalog %s\n", outcome(data, err))
		c, err := parseCatalog(data, err)
		if err != nil {
			return
		}
		for _, k := range sortedKeys(c.Networks) {
			for _, r := range sortedKeys(c.Networks[k]) {
				fmt.Fprintf(&b, "%s %s %s\n", k, r, outcome(renderables.MarshalRenderable(c.Networks[k][r], h)))
			}
		}
		for _, x := range facts {
			fmt.Fprintf(&b, "%s %s %s\n", x[0], x[1], outcome(renderables.MarshalExpressable(x[0], x[1], h)))
		}
	})
	if r.Panic != "" || r.Deadlock != "" {
		b.WriteString("rendering does not end well")
	}
	return b.String()
}

// A folderKind is the content of a folder to load.
type folderKind struct {
	name  string
	files map[string][]byte
	facts [][2]string
	alone string // what it answers when loaded alone under the default schedule
	fresh bool   // alone is in a process of its own
	known bool
}

var allKinds = map[string]*folderKind{}

func kindOf(name string, f *Filing, change ...func(m map[string][]byte)) *folderKind {
	k := &folderKind{name: name, files: f.files()}
	for _, c := range change {
		c(k.files)
	}
	if f.Inline != nil {
		seen := map[[2]string]bool{}
		for _, x := range f.Inline.Elems {
			q := [2]string{x.Name, x.Ctx}
			if !seen[q] {
				seen[q] = true
				k.facts = append(k.facts, q)
			}
		}
	}
	allKinds[name] = k
	return k
}

// inFresh has what the folder answers alone taken from a process of its own.
func (k *folderKind) inFresh() *folderKind {
	k.fresh = true
	return k
}

// aloneInFresh starts that process.
func (k *folderKind) aloneInFresh() string {
	dir, err := os.MkdirTemp(*fDir, "fresh")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	out, err := exec.Command(os.Args[0], "-mode", "alone", "-id", *fID, "-file", k.name, "-dir", dir, "-verif", *fVerif, "-repo", *fRepo).Output()
	if err != nil {
		return "alone: the process ends with " + err.Error()
	}
	return string(out)
}

func kindAlone(e *Env, name string) string {
	checks[*fID].Families(true)
	k := allKinds[name]
	if k == nil {
		fatal(fmt.Errorf("no folder %q", name))
	}
	k.fresh = false
	return k.want(e)
}

func (k *folderKind) put(e *Env) string {
	e.n++
	id := fmt.Sprintf("x%d", e.n)
	e.ids = append(e.ids, id)
	writeFiles(filepath.Join(e.wd, "folders", id), k.files)
	return id
}

func (k *folderKind) read(h *hydratables.Hydratable, err error) string {
	if err != nil {
		return "failed"
	}
	if h == nil {
		return "nothing loaded"
	}
	return content(h, k.facts)
}

// want is what the folder answers when loaded alone.
func (k *folderKind) want(e *Env) string {
	if k.fresh && !k.known {
		k.alone, k.known = k.aloneInFresh(), true
	}
	if !k.known {
		e.cache.Flush()
		id := k.put(e)
		var h *hydratables.Hydratable
		var err error
		r := alone(func() { h, err = e.load(id) })
		if r.Panic != "" || r.Deadlock != "" {
			k.alone = "alone: " + r.Panic + r.Deadlock
		} else {
			k.alone = k.read(h, err)
		}
		k.known = true
	}
	return k.alone
}

// loading loads folders at the same time.
func loading(warm bool, kinds ...*folderKind) *scenario {
	var names []string
	for _, k := range kinds {
		names = append(names, k.name)
	}
	name := "load " + strings.Join(names, " and ")
	if warm {
		name += ", warm cache"
	}
	return &scenario{name: name, leaf: -1, start: func(e *Env, s *scenario) *attempt {
		wants := ""
		for _, k := range kinds {
			wants += k.want(e)
		}
		if !warm {
			e.cache.Flush()
		}
		a := &attempt{}
		hs := make([]*hydratables.Hydratable, len(kinds))
		errs := make([]error, len(kinds))
		for i, k := range kinds {
			id := k.put(e)
			a.mains = append(a.mains, func() { hs[i], errs[i] = e.load(id) })
		}
		a.result = func() string {
			got := ""
			for i, k := range kinds {
				if strings.HasPrefix(k.want(e), "alone: ") {
					return k.want(e)
				}
				x := k.read(hs[i], errs[i])
				if x != k.want(e) {
					return fmt.Sprintf("folder %d loads with another content than alone: %s", i, difference(x, k.want(e)))
				}
				got += "ok;"
			}
			return got
		}
		return a
	}, judge: func(e *Env, got string) string {
		if strings.HasPrefix(got, "ok;") {
			return ""
		}
		return got
	}}
}

// spread has a chain and a fan of schemas that share files, with linkbases at
// several of them.
func spread() *Filing {
	f := wideFiling(false)
	s3, s4 := newSchema("e3.xsd", nsEnt+"3"), newSchema("e4.xsd", nsEnt+"4")
	for _, s := range []*Schema{s3, s4} {
		s.NoAuto = true
		s.add(&Concept{ID: "X", Name: "X"})
	}
	f.Schemas = append(f.Schemas, s3, s4)
	f.Schemas[0].Imports = append(f.Schemas[0].Imports, Import{nsEnt + "3", "e3.xsd"}, Import{nsEnt + "4", "e4.xsd"})
	f.Schemas[1].Imports = append(f.Schemas[1].Imports, Import{nsEnt + "4", "e4.xsd"})
	s3.Imports = []Import{{nsEnt + "4", "e4.xsd"}, {nsEnt + "2", "e2.xsd"}}
	s4.Imports = []Import{{nsEnt + "3", "e3.xsd"}, {nsTax, urlTx}}
	s3.LBRefs = []LBRef{{refPres, "p2.xml"}, {refLabel, "l2.xml"}}
	s4.LBRefs = []LBRef{{refPres, "p2.xml"}, {refCalc, "c2.xml"}}
	return f
}

// entries has an instance that refers to three schemas, two of which refer to
// the same further files and one of which is imported as well.
func entries() *Filing {
	f := wideFiling(false)
	s := f.Schemas[0]
	s.Imports = s.Imports[:len(s.Imports)-1]
	s2 := f.Schemas[1]
	s2.LBRefs = []LBRef{{refPres, "p2.xml"}, {refLabel, "l2.xml"}, {refDef, "d2.xml"}}
	s3 := newSchema("e3.xsd", nsEnt+"3")
	s3.NoAuto = true
	s3.add(&Concept{ID: "X", Name: "X"})
	s3.Imports = []Import{{nsEnt + "2", "e2.xsd"}}
	s3.LBRefs = []LBRef{{refPres, "p2.xml"}, {refCalc, "c2.xml"}}
	f.Schemas = append(f.Schemas, s3)
	f.Inst.SchemaRefs = []string{"e.xsd", "e2.xsd", "e3.xsd"}
	return f
}

// twin is the filing with other content under the same file names.
func twin(f *Filing) *Filing {
	for _, s := range f.Schemas {
		for _, c := range s.Concepts {
			if c.Type == "xbrli:monetaryItemType" || c.Type == "" {
				c.Type = "xbrli:stringItemType"
			}
		}
		for i := range s.Roles {
			s.Roles[i].Def += " again"
		}
	}
	for _, l := range f.L {
		for _, x := range l.Links {
			for i := range x.Labels {
				x.Labels[i].Text += " again"
			}
		}
	}
	for _, l := range append(append(append([]*Linkbase{}, f.P...), f.D...), f.C...) {
		for _, x := range l.Links {
			if n := len(x.Arcs); n > 2 {
				x.Arcs = x.Arcs[:n-1]
			}
		}
	}
	for _, x := range f.Inst.Facts {
		if x.Inner != "" {
			x.Inner = "9" + strings.TrimPrefix(x.Inner, "-")
		}
	}
	return f
}

// divided has two schema files for one namespace, referenced from different
// schemas; with clash both declare the same concept.
func divided(clash bool) *Filing {
	f := plainLean("66")
	s := f.Schemas[0]
	s2, s2b, s3 := newSchema("e2.xsd", nsEnt+"2"), newSchema("e2b.xsd", nsEnt+"2"), newSchema("e3.xsd", nsEnt+"3")
	for _, x := range []*Schema{s2, s2b, s3} {
		x.NoAuto = true
	}
	a := s2.add(&Concept{ID: "ent2_A", Name: "A"})
	b := s2b.add(&Concept{ID: "ent2_B", Name: "B", Type: "xbrli:stringItemType"})
	if clash {
		s2b.add(&Concept{ID: "ent2_A", Name: "A", Type: "xbrli:stringItemType"})
		s2.add(&Concept{ID: "ent2_B", Name: "B"})
	}
	s3.add(&Concept{ID: "ent3_X", Name: "X"})
	f.Schemas = append(f.Schemas, s2, s2b, s3)
	s.Imports = append(s.Imports, Import{nsEnt + "2", "e2.xsd"}, Import{nsEnt + "3", "e3.xsd"})
	s3.Imports = []Import{{nsEnt + "2", "e2b.xsd"}}
	l := f.P[0].Links[0]
	top := s.Concepts[0]
	for i, c := range []*Concept{a, b} {
		l.Locs = append(l.Locs, Loc{locLabel(c), c.href()})
		l.Arcs = append(l.Arcs, Arc{Arcrole: arcPC, From: locLabel(top), To: locLabel(c), Order: itoa(i + 2)})
		f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: "d" + itoa(i), Concept: c, Ctx: f.Inst.Contexts[0], Unit: "usd", Decimals: "0", Inner: "90" + itoa(i)})
	}
	return f
}

func p02Families(thorough bool) []Family {
	lean := kindOf("lean", plainLean("11"))
	lean2 := kindOf("lean2", plainLean("22"))
	rich := kindOf("rich", richFiling(false))
	inline := kindOf("inline", richFiling(true))
	wide := kindOf("wide", wideFiling(false)).inFresh()
	fan := kindOf("fan", spread())
	broken := kindOf("broken schema", richFiling(false), func(m map[string][]byte) { m["e.xsd"] = []byte("<x") })
	gone := kindOf("linkbase missing", richFiling(false), func(m map[string][]byte) { delete(m, "p.xml"); m["l.xml"] = []byte("<x") })
	none := kindOf("no entry", richFiling(false), func(m map[string][]byte) { delete(m, "f.xml") })
	gap := kindOf("taxonomy missing", withGap(plainLean("67")))
	three := kindOf("three schema references", entries()).inFresh()
	other := kindOf("twin of wide", twin(wideFiling(false))).inFresh()
	other2 := kindOf("twin of three", twin(entries())).inFresh()
	split := kindOf("divided namespace", divided(false))
	clash := kindOf("clashing schemas", divided(true))
	small := []*scenario{loading(false, lean), loading(true, lean), loading(false, none), loading(false, broken), loading(false, gap), loading(true, lean, lean2)}
	medium := []*scenario{loading(false, split), loading(false, clash), loading(false, rich), loading(false, gone), loading(false, inline), loading(false, lean, lean2), loading(false, lean, lean), loading(false, lean, none), loading(false, gap, gap), loading(true, gap, lean)}
	large := []*scenario{loading(false, wide), loading(false, fan), loading(false, three), loading(false, wide, other), loading(false, three, other2), loading(false, rich, inline), loading(false, lean, lean2, gone)}
	cat := func(l ...[]*scenario) []*scenario {
		var r []*scenario
		for _, x := range l {
			r = append(r, x...)
		}
		return r
	}
	if thorough {
		return build(
			orders("orders", cat(small, medium, large)...),
			schedules("any-1", 1, true, both(cat(small, medium, large)...)...),
			schedules("next-2", 2, false, both(cat(small, medium)...)...),
			schedules("any-2", 2, true, both(small...)...),
			schedules("next-3", 3, false, both(small...)...),
			schedules("race-any-1", 1, true, both(cat(small, medium)...)...),
			schedules("race-next-1", 1, false, both(large...)...),
		)
	}
	return build(
		orders("orders", cat(small, medium, large)...),
		schedules("any-1", 1, true, both(cat(small, medium)...)...),
		schedules("next-1", 1, false, both(large...)...),
		schedules("next-2", 2, false, both(small...)...),
		schedules("race-next-1", 1, false, both(cat(small, medium, large)...)...),
	)
}

// plainLean is a small filing with one network.
func plainLean(value string) *Filing {
	f, cs := basic(2)
	l := linkOver(role1, cs)
	l.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(cs[0]), To: locLabel(cs[1]), Order: "1"}}
	f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{l}}}
	for i, k := range cs {
		f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: "f" + itoa(i), Concept: k, Ctx: f.Inst.Contexts[0], Unit: "usd", Decimals: "0", Inner: value + itoa(i)})
	}
	return f
}

func init() {
	register(&Check{ID: "P02", Race: true, Setup: schedSetup,
		Rule:     "after every run the catalog, all networks and all facts of each loaded folder are those of the folder loaded alone, or loading fails like alone; no data race, deadlock or crash",
		Assume:   schedAssume,
		Families: p02Families, Alone: kindAlone})
}
