package main

import (
	"fmt"
	"sort"
	"strings"
)

// attach lists, per fact, the note texts attached to it.
type attachments map[*Fact][]string

func (f *Filing) checkFootnotes(entity string, g grid, at attachments) string {
	cols := f.columns(entity, g.rows)
	a := g.area
	if len(cols) == 0 {
		if len(a.Footnotes) > 0 {
			return g.name + ": footnotes although no fact is shown"
		}
		return ""
	}
	if len(a.FootnoteGrid) != len(g.rows) {
		return fmt.Sprintf("%s: %d footnote rows for %d concepts", g.name, len(a.FootnoteGrid), len(g.rows))
	}
	refs := make([]int, len(a.Footnotes))
	got := make([]string, len(cols))
	want := make([]string, len(cols))
	for i, r := range g.rows {
		if len(a.FootnoteGrid[i]) != len(cols) {
			return fmt.Sprintf("%s: footnote row %d has %d cells, expected %d", g.name, i, len(a.FootnoteGrid[i]), len(cols))
		}
		for j, c := range cols {
			var texts, exp []string
			for _, k := range a.FootnoteGrid[i][j] {
				if k < 1 || k > len(a.Footnotes) {
					return fmt.Sprintf("%s: footnote number %d of %d", g.name, k, len(a.Footnotes))
				}
				refs[k-1]++
				texts = append(texts, a.Footnotes[k-1])
			}
			if x := f.factAt(r, c.ID); x != nil {
				exp = append(exp, at[x]...)
			}
			sort.Strings(texts)
			sort.Strings(exp)
			got[j] += "|" + strings.Join(texts, ",")
			want[j] += "|" + strings.Join(exp, ",")
		}
	}
	if msg := sameColumns(cols, got, want); msg != "" {
		return g.name + ": footnotes by column: " + msg
	}
	seen := map[string]bool{}
	for k, t := range a.Footnotes {
		if refs[k] == 0 {
			return fmt.Sprintf("%s: footnote %d %q is not referred to", g.name, k+1, t)
		}
		if seen[t] {
			return fmt.Sprintf("%s: footnote %q is listed twice", g.name, t)
		}
		seen[t] = true
	}
	return ""
}

// p16Filing has four facts: three rows in one context, one in a second.
func p16Filing() (*Filing, []*Fact) {
	f, cs := basic(3)
	threeGrids(f, cs[0], cs[1], taxConcept(2))
	f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31"})
	var facts []*Fact
	for i, k := range []*Concept{cs[0], cs[1], taxConcept(2), cs[1]} {
		x := f.addFact(k, f.Inst.Contexts[i/3])
		x.ID = []string{"f1", "f10", "f2", "f11"}[i]
		facts = append(facts, x)
	}
	return f, facts
}

// footLinks spreads notes over links: link[i] is the link of note i; edges
// are (fact, note) pairs.
func footLinks(f *Filing, facts []*Fact, nlinks int, link []int, edges [][2]int, style int, reverse bool) attachments {
	at := attachments{}
	links := make([]*FootLink, nlinks)
	for l := range links {
		links[l] = &FootLink{}
		if style != 3 {
			links[l].Title = itoa(nlinks - l)
		}
	}
	for i, l := range link {
		id := "fn" + itoa(i+1)
		label := id
		if style == 1 {
			label = "lab" + id
		}
		links[l].Notes = append(links[l].Notes, Note{ID: id, Label: label, Lang: "en-US", Inner: "note " + itoa(i+1)})
	}
	located := map[string]bool{}
	file := ""
	if style == 4 {
		file = f.entry()
		if f.Inline != nil {
			file += ".xml"
		}
	}
	for _, e := range edges {
		l := link[e[1]]
		if style == 5 {
			// the arc is in the next link, which locates the footnote
			l = (l + 1) % nlinks
		}
		x := facts[e[0]]
		label := "loc_" + x.ID
		if style == 2 {
			// locator labels are local to their link
			label = fmt.Sprintf("loc%d", (e[0]+l)%4)
		}
		if k := fmt.Sprint(l, e[0]); !located[k] {
			located[k] = true
			links[l].Locs = append(links[l].Locs, Loc{label, file + "#" + x.ID})
		}
		note := "fn" + itoa(e[1]+1)
		if style == 5 {
			at := "at_" + note
			if k := fmt.Sprint(l, at); !located[k] {
				located[k] = true
				links[l].Locs = append(links[l].Locs, Loc{at, "#" + note})
			}
			note = at
		}
		if style == 1 {
			note = "lab" + note
		}
		links[l].Arcs = append(links[l].Arcs, [2]string{label, note})
		at[x] = append(at[x], "note "+itoa(e[1]+1))
	}
	if reverse {
		for _, l := range links {
			for i, j := 0, len(l.Arcs)-1; i < j; i, j = i+1, j-1 {
				l.Arcs[i], l.Arcs[j] = l.Arcs[j], l.Arcs[i]
			}
		}
	}
	f.Inst.FootLinks = links
	return at
}

func p16Attach(nFacts, nNotes, nLinks, styles int) Family {
	return Family{Name: fmt.Sprintf("attach%dx%dx%d", nFacts, nNotes, nLinks), Bounds: fmt.Sprintf("every attachment of %d facts to %d footnotes, footnotes in every way over %d links, %d labelling styles", nFacts, nNotes, nLinks, styles),
		Gen: func(c *Chooser) Exec {
			f, facts := p16Filing()
			style := c.Choose(styles)
			link := make([]int, nNotes)
			for i := range link {
				link[i] = c.Choose(nLinks)
			}
			var edges [][2]int
			for i := 0; i < nFacts; i++ {
				for k := 0; k < nNotes; k++ {
					if c.Bool() {
						edges = append(edges, [2]int{i, k})
					}
				}
			}
			at := footLinks(f, facts, nLinks, link, edges, style, len(edges)%2 == 1)
			return decideGrids(f, 3, func(entity string, g grid) string { return f.checkFootnotes(entity, g, at) })
		}}
}

// p16Twice attaches footnotes to facts in several ways at once.
func p16Twice() Family {
	return Family{Name: "twice", Bounds: "2 facts and 2 footnotes, each pair attached not at all, once, or in two ways out of: an arc, the arc again, an arc from a second locator of the fact, an arc in another link, which locates the footnote",
		Gen: func(c *Chooser) Exec {
			f, facts := p16Filing()
			l := []*FootLink{{Title: "t"}, {Title: "u"}}
			at := attachments{}
			for k := 0; k < 2; k++ {
				l[0].Notes = append(l[0].Notes, Note{ID: "fn" + itoa(k), Label: "note" + itoa(k), Lang: "en-US", Inner: "note " + itoa(k)})
				l[1].Locs = append(l[1].Locs, Loc{"at" + itoa(k), "#fn" + itoa(k)})
			}
			for i := 0; i < 2; i++ {
				l[0].Locs = append(l[0].Locs, Loc{"loc" + itoa(i), "#" + facts[i].ID}, Loc{"more" + itoa(i), "#" + facts[i].ID})
				l[1].Locs = append(l[1].Locs, Loc{"loc" + itoa(i), "#" + facts[i].ID})
			}
			for i := 0; i < 2; i++ {
				for k := 0; k < 2; k++ {
					ways := [][]int{nil, {0}, {0, 0}, {0, 2}, {0, 3}, {2}, {3}, {2, 3}, {3, 3}}
					w := ways[c.Choose(len(ways))]
					for _, x := range w {
						switch x {
						case 0:
							l[0].Arcs = append(l[0].Arcs, [2]string{"loc" + itoa(i), "note" + itoa(k)})
						case 2:
							l[0].Arcs = append(l[0].Arcs, [2]string{"more" + itoa(i), "note" + itoa(k)})
						case 3:
							l[1].Arcs = append(l[1].Arcs, [2]string{"loc" + itoa(i), "at" + itoa(k)})
						}
					}
					if len(w) > 0 {
						at[facts[i]] = append(at[facts[i]], "note "+itoa(k))
					}
				}
			}
			f.Inst.FootLinks = l
			return decideGrids(f, 3, func(entity string, g grid) string { return f.checkFootnotes(entity, g, at) })
		}}
}

// p16Shared gives several locators and several footnotes one label.
func p16Shared(nFacts, nNotes int) Family {
	return Family{Name: fmt.Sprintf("shared%dx%d", nFacts, nNotes), Bounds: fmt.Sprintf("%d facts and %d footnotes, each with one of 2 labels or located by none, every set of arcs between the labels", nFacts, nNotes),
		Gen: func(c *Chooser) Exec {
			f, facts := p16Filing()
			l := &FootLink{Title: "t"}
			var of [2][]*Fact
			for i := 0; i < nFacts; i++ {
				if k := c.Choose(3); k < 2 {
					of[k] = append(of[k], facts[i])
					l.Locs = append(l.Locs, Loc{"loc" + itoa(k), "#" + facts[i].ID})
				}
			}
			var notes [2][]string
			for i := 0; i < nNotes; i++ {
				k := c.Choose(2)
				notes[k] = append(notes[k], "note "+itoa(i))
				l.Notes = append(l.Notes, Note{ID: "fn" + itoa(i), Label: "note" + itoa(k), Lang: pick(c, "en-US", "es"), Inner: "note " + itoa(i)})
			}
			at := attachments{}
			for i := 0; i < 2; i++ {
				for k := 0; k < 2; k++ {
					if c.Bool() {
						l.Arcs = append(l.Arcs, [2]string{"loc" + itoa(i), "note" + itoa(k)})
						for _, x := range of[i] {
							at[x] = append(at[x], notes[k]...)
						}
					}
				}
			}
			f.Inst.FootLinks = []*FootLink{l}
			return decideGrids(f, 3, func(entity string, g grid) string { return f.checkFootnotes(entity, g, at) })
		}}
}

func p16Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number of footnotes up to %d, each attached to facts by 3 patterns, over one, two or three links", max),
		Gen: func(c *Chooser) Exec {
			f, facts := p16Filing()
			n := 1 + c.Choose(max)
			pattern := c.Choose(3)
			nl := 1 + c.Choose(3)
			link := make([]int, n)
			var edges [][2]int
			for k := 0; k < n; k++ {
				link[k] = k % nl
				switch pattern {
				case 0:
					edges = append(edges, [2]int{0, k})
				case 1:
					edges = append(edges, [2]int{k % 4, k}, [2]int{(k + 1) % 4, k})
				case 2:
					for i := 0; i < 4; i++ {
						edges = append(edges, [2]int{i, k})
					}
				}
			}
			at := footLinks(f, facts, nl, link, edges, 0, false)
			return decideGrids(f, 3, func(entity string, g grid) string { return f.checkFootnotes(entity, g, at) })
		}}
}

func init() {
	register(&Check{ID: "P16",
		Rule: "the footnote texts reached from every cell equal the footnotes the choices attach to its fact",
		Families: func(thorough bool) []Family {
			fams := []Family{p16Attach(2, 2, 2, 6), p16Sizes(40), p16Alike(), p16Shared(3, 2), p16Twice(), p16Attach(4, 2, 2, 6), p16Attach(3, 3, 2, 3), p16Attach(2, 3, 3, 6), spelled(p16Attach(2, 2, 2, 6))}
			if thorough {
				fams = append(fams, p16Sizes(60), p16Shared(4, 3), p16Attach(4, 3, 2, 6), p16Attach(3, 3, 3, 6))
			}
			return fams
		}})
}
