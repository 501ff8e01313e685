package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// conceptByHref finds a concept of the filing or of the fixed taxonomy.
func (f *Filing) conceptByHref(href string) *Concept {
	for _, s := range f.Schemas {
		for _, c := range s.Concepts {
			if c.href() == href {
				return c
			}
		}
	}
	for _, c := range taxConcepts {
		if c.href() == href {
			return c
		}
	}
	return nil
}

func (c *Context) entityKey() string { return c.Scheme + "/" + c.Entity }

// period is the plain heading of a context.
func (c *Context) period() string {
	if c.Start != "" && c.End != "" {
		return c.Start + "/" + c.End
	}
	return c.Instant
}

func (c *Context) members() []Member { return append(append([]Member{}, c.Seg...), c.Scen...) }

func (f *Filing) factAt(href, ctx string) *Fact {
	for _, x := range f.Inst.Facts {
		if x.Concept.href() == href && x.ctx() == ctx {
			return x
		}
	}
	return nil
}

// columns are the expected contexts of a grid, sorted by period text and
// number of members; ties are in no particular order.
func (f *Filing) columns(entity string, rows []string) []*Context {
	var out []*Context
	for _, c := range f.Inst.Contexts {
		if c.entityKey() != entity {
			continue
		}
		used := false
		for _, r := range rows {
			k := f.conceptByHref(r)
			if k == nil || k.Abstract {
				continue
			}
			if f.factAt(r, c.ID) != nil {
				used = true
			}
		}
		if used {
			out = append(out, c)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.period() != b.period() {
			return a.period() < b.period()
		}
		return len(a.members()) < len(b.members())
	})
	return out
}

// grid is one rendered grid with the references of its rows.
type grid struct {
	name string
	rows []string
	area *Area
}

// grids lists all grids of a network.
func (n *Network) grids() []grid {
	var out []grid
	g := grid{name: "presentation", area: &n.PGrid.Area}
	for _, l := range n.PGrid.IndentedLabels {
		g.rows = append(g.rows, l.Href)
	}
	out = append(out, g)
	for i := range n.CGrid.SummationItems {
		s := &n.CGrid.SummationItems[i]
		g := grid{name: "calculation " + s.Href, area: &s.Area}
		for _, c := range s.ContributingConcepts {
			g.rows = append(g.rows, c.Href)
		}
		g.rows = append(g.rows, s.Href)
		out = append(out, g)
	}
	for i := range n.DGrid.RootDomains {
		r := &n.DGrid.RootDomains[i]
		g := grid{name: "definition " + r.Href, area: &r.Area, rows: []string{r.Href}}
		for _, p := range r.PrimaryItems {
			g.rows = append(g.rows, p.Href)
		}
		out = append(out, g)
	}
	return out
}

// tieGroups splits expected columns into runs that may be permuted.
func tieGroups(cols []*Context) [][2]int {
	var out [][2]int
	for i := 0; i < len(cols); {
		j := i
		for j < len(cols) && cols[j].period() == cols[i].period() && len(cols[j].members()) == len(cols[i].members()) {
			j++
		}
		out = append(out, [2]int{i, j})
		i = j
	}
	return out
}

// sameColumns compares column descriptions, allowing any order within ties.
func sameColumns(cols []*Context, got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d columns, expected %d", len(got), len(want))
	}
	for _, g := range tieGroups(cols) {
		a := append([]string{}, got[g[0]:g[1]]...)
		b := append([]string{}, want[g[0]:g[1]]...)
		sort.Strings(a)
		sort.Strings(b)
		if !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("columns %d to %d are\n %s\nexpected\n %s", g[0], g[1]-1, strings.Join(a, "\n "), strings.Join(b, "\n "))
		}
	}
	return ""
}

// checkCells decides P09 for one grid: got cells against reported facts.
func (f *Filing) checkCells(entity string, g grid) string {
	cols := f.columns(entity, g.rows)
	if len(g.rows) == 0 || len(cols) == 0 {
		if len(g.area.FactualQuadrant) > 0 {
			return fmt.Sprintf("%s: %d fact rows although nothing is reported", g.name, len(g.area.FactualQuadrant))
		}
		return ""
	}
	if len(g.area.FactualQuadrant) != len(g.rows) {
		return fmt.Sprintf("%s: %d fact rows for %d concepts", g.name, len(g.area.FactualQuadrant), len(g.rows))
	}
	got := make([]string, len(cols))
	want := make([]string, len(cols))
	for i, r := range g.rows {
		if len(g.area.FactualQuadrant[i]) != len(cols) {
			return fmt.Sprintf("%s: row %d has %d cells, expected %d", g.name, i, len(g.area.FactualQuadrant[i]), len(cols))
		}
		for j, c := range cols {
			cell := g.area.FactualQuadrant[i][j]
			text := "-"
			if cell == nil {
				text = "null"
			}
			for _, k := range sortedKeys(cell) {
				if x := cell[k]; x != (Expr{}) {
					text = x.Head + x.Core + x.Tail + x.InnerHtml
					if k == "Unlabelled" {
						break
					}
				}
			}
			got[j] += "|" + text
			exp := "-"
			if x := f.factAt(r, c.ID); x != nil {
				exp = x.Inner
			}
			want[j] += "|" + exp
		}
	}
	if msg := sameColumns(cols, got, want); msg != "" {
		return g.name + ": facts by column: " + msg
	}
	return ""
}

// checkHeaders decides the plain headings and their order (P10).
func (f *Filing) checkHeaders(entity string, g grid) string {
	cols := f.columns(entity, g.rows)
	var got, want []string
	for _, h := range g.area.PeriodHeaders {
		got = append(got, h["Unlabelled"])
	}
	for _, c := range cols {
		want = append(want, c.period())
	}
	if len(got) == 0 && len(want) == 0 {
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s: columns %q, expected %q", g.name, got, want)
	}
	// The number of members distinguishes columns of one period. Where the
	// area has member rows, count the members shown per column.
	if len(g.area.ContextualMemberGrid) > 0 {
		shown := make([]int, len(cols))
		for _, r := range g.area.ContextualMemberGrid {
			for j, c := range r {
				if j < len(shown) && c != nil && (c.ExplicitMember != nil || c.TypedMember != "") {
					shown[j]++
				}
			}
		}
		for j, c := range cols {
			if shown[j] != len(c.members()) {
				return fmt.Sprintf("%s: column %d shows %d members, expected %d; columns are ordered by number of members within a period", g.name, j, shown[j], len(c.members()))
			}
		}
	}
	return ""
}
