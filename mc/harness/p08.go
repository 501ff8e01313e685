package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// treeSpec is a forest: parent[i] is -1 for roots; order[i] belongs to the arc
// from parent[i] to i.
type treeSpec struct {
	parent []int
	order  []string
}

// chooseForest picks any labelled forest over n nodes.
func chooseForest(c *Chooser, n int) []int {
	parent := make([]int, n)
	for i := range parent {
		parent[i] = c.Choose(n+1) - 1
		if parent[i] == i {
			return nil
		}
	}
	for i := range parent {
		seen := 0
		for j := i; j >= 0; j = parent[j] {
			if seen++; seen > n {
				return nil
			}
		}
	}
	return parent
}

// chooseOrders gives the arcs pairwise distinct orders, in any arrangement.
func chooseOrders(c *Chooser, parent []int, alphabet []string) []string {
	var arcs []int
	for i, p := range parent {
		if p >= 0 {
			arcs = append(arcs, i)
		}
	}
	order := make([]string, len(parent))
	perm := c.Perm(len(arcs))
	for k, i := range arcs {
		order[i] = alphabet[perm[k]]
	}
	return order
}

var orderAlphabet = []string{"10", "2", "", "-1", "1.5", "0", "1.0001", "100"}

func arcsOf(t treeSpec, cs []*Concept, arcrole string) []Arc {
	var arcs []Arc
	for i, p := range t.parent {
		if p >= 0 {
			arcs = append(arcs, Arc{Arcrole: arcrole, From: locLabel(cs[p]), To: locLabel(cs[i]), Order: t.order[i]})
		}
	}
	return arcs
}

type row struct {
	href  string
	level int
}

// walk lists the rows of a subtree.
func (t treeSpec) walk(cs []*Concept, root, level int) []row {
	out := []row{{cs[root].href(), level}}
	var kids []int
	for i, p := range t.parent {
		if p == root {
			kids = append(kids, i)
		}
	}
	sort.SliceStable(kids, func(a, b int) bool { return num(t.order[kids[a]]) < num(t.order[kids[b]]) })
	for _, k := range kids {
		out = append(out, t.walk(cs, k, level+1)...)
	}
	return out
}

// num is the number written, or 1 where none is.
func num(s string) float64 {
	if s == "" {
		return 1
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return f
}

// blocks lists, per root that has arcs, the rows of its tree.
func (t treeSpec) blocks(cs []*Concept) map[string][]row {
	m := map[string][]row{}
	for i, p := range t.parent {
		if p >= 0 {
			continue
		}
		r := t.walk(cs, i, 0)
		if len(r) > 1 {
			m[cs[i].href()] = r
		}
	}
	return m
}

// sameBlocks compares rows with the expected blocks, in any order of roots.
func sameBlocks(got []row, want map[string][]row) string {
	i := 0
	left := len(want)
	used := map[string]bool{}
	for i < len(got) {
		b, ok := want[got[i].href]
		if !ok || used[got[i].href] {
			return fmt.Sprintf("row %d: %v is not an expected root; rows %v, expected trees %v", i, got[i], got, want)
		}
		used[got[i].href] = true
		left--
		for _, r := range b {
			if i >= len(got) || got[i] != r {
				return fmt.Sprintf("row %d: expected %v; rows %v, expected trees %v", i, r, got, want)
			}
			i++
		}
	}
	if left != 0 {
		return fmt.Sprintf("missing trees: rows %v, expected trees %v", got, want)
	}
	return ""
}

func (n *Network) presentationRows() []row {
	var out []row
	for _, l := range n.PGrid.IndentedLabels {
		out = append(out, row{l.Href, l.Indentation})
	}
	return out
}

func localAndTax(n int) (*Filing, []*Concept) {
	f, cs := basic(n)
	for i := range cs {
		if i%2 == 1 {
			cs[i] = taxConcept(i / 2)
		}
	}
	return f, cs
}

func runP08(f *Filing, want map[string][]row) Exec {
	return func(e *Env) string {
		n, err := e.render(f)
		if err != nil {
			return "rendering failed: " + err.Error()
		}
		return sameBlocks(n.presentationRows(), want)
	}
}

func p08Trees(n int, name string) Family {
	return Family{Name: name, Bounds: fmt.Sprintf("all forests over %d concepts, all arrangements of distinct orders over the arcs", n),
		Gen: func(c *Chooser) Exec {
			parent := chooseForest(c, n)
			if parent == nil {
				return nil
			}
			order := chooseOrders(c, parent, orderAlphabet)
			f, cs := localAndTax(n)
			t := treeSpec{parent, order}
			x := linkOver(role1, cs)
			x.Arcs = arcsOf(t, cs, arcPC)
			f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{x}}}
			return runP08(f, t.blocks(cs))
		}}
}

// p08Files permutes the arcs in the file, splits them over links of the same
// role and mixes in other networks and arcroles.
func p08Files(n int) Family {
	return Family{Name: "files", Bounds: fmt.Sprintf("all forests over %d concepts, all file orders of the arcs, one or two links of the role, other roles, arcroles and locator labels mixed in", n),
		Gen: func(c *Chooser) Exec {
			parent := chooseForest(c, n)
			if parent == nil {
				return nil
			}
			f, cs := localAndTax(n)
			t := treeSpec{parent, chooseOrders(c, parent, orderAlphabet)}
			arcs := arcsOf(t, cs, arcPC)
			if len(arcs) == 0 {
				return nil
			}
			perm := c.Perm(len(arcs))
			var shuffled []Arc
			for _, k := range perm {
				shuffled = append(shuffled, arcs[k])
			}
			split := c.Choose(len(arcs) + 1)
			mix := c.Choose(6)
			x := linkOver(role1, cs)
			x.Arcs = shuffled
			links := []*XLink{x}
			if split > 0 && split < len(arcs) {
				y := linkOver(role1, cs)
				y.Arcs = shuffled[split:]
				x.Arcs = shuffled[:split]
				links = append(links, y)
			} else if split == len(arcs) {
				return nil
			}
			role2 := "http://e.example/role/2"
			switch mix {
			case 1: // another network with the arcs turned round
				z := linkOver(role2, cs)
				for _, a := range arcs {
					z.Arcs = append(z.Arcs, Arc{Arcrole: arcPC, From: a.To, To: a.From, Order: a.Order})
				}
				links = append([]*XLink{z}, links...)
			case 2: // foreign arcroles in the same link
				for _, a := range arcs {
					x.Arcs = append([]Arc{{Arcrole: arcDM, From: a.To, To: a.From, Order: "0.5"}}, x.Arcs...)
				}
			case 3: // locator labels that look like other concepts
				rename := map[string]string{}
				for i := range cs {
					rename[locLabel(cs[i])] = cs[(i+1)%len(cs)].ID
				}
				for _, l := range links {
					for i := range l.Locs {
						l.Locs[i].Label = rename[l.Locs[i].Label]
					}
					for i := range l.Arcs {
						l.Arcs[i].From, l.Arcs[i].To = rename[l.Arcs[i].From], rename[l.Arcs[i].To]
					}
				}
			case 4: // locators after the arcs' order reversed
				for _, l := range links {
					for i, j := 0, len(l.Locs)-1; i < j; i, j = i+1, j-1 {
						l.Locs[i], l.Locs[j] = l.Locs[j], l.Locs[i]
					}
				}
			case 5: // another network between the links, with the same labels for other concepts
				z := &XLink{Role: role2}
				for i := range cs {
					z.Locs = append(z.Locs, Loc{Label: locLabel(cs[i]), Href: cs[(i+1)%len(cs)].href()})
				}
				z.Arcs = arcs
				links = append(links, z)
				links[0], links[len(links)-1] = links[len(links)-1], links[0]
			}
			f.Schemas[0].Roles = append(f.Schemas[0].Roles, Role{ID: "r2", URI: role2, Def: "0002 - Two"})
			if split > 0 {
				for _, l := range links {
					l.onlyUsed()
				}
			}
			f.P = []*Linkbase{{File: "p.xml", Links: links}}
			return runP08(f, t.blocks(cs))
		}}
}

func p08Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("stars, chains, combs and binary trees of every size up to %d, orders ascending, descending or alternating", max),
		Gen: func(c *Chooser) Exec {
			shape := c.Choose(4)
			n := 2 + c.Choose(max-1)
			dir := c.Choose(3)
			f, cs := localAndTaxN(n)
			t := treeSpec{parent: make([]int, n), order: make([]string, n)}
			for i := 0; i < n; i++ {
				switch shape {
				case 0:
					t.parent[i] = 0
				case 1:
					t.parent[i] = i - 1
				case 2:
					t.parent[i] = i - 1
					if i%2 == 0 {
						t.parent[i] = i - 2
					}
				case 3:
					t.parent[i] = (i - 1) / 2
				}
				if i == 0 {
					t.parent[i] = -1
				}
				switch dir {
				case 0:
					t.order[i] = itoa(i)
				case 1:
					t.order[i] = itoa(n - i)
				case 2:
					t.order[i] = itoa(i)
					if i%2 == 1 {
						t.order[i] = "-" + itoa(i)
					}
				}
			}
			x := linkOver(role1, cs)
			x.Arcs = arcsOf(t, cs, arcPC)
			f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{x}}}
			return runP08(f, t.blocks(cs))
		}}
}

func localAndTaxN(n int) (*Filing, []*Concept) {
	f, cs := basic(n)
	for i := range cs {
		if i%2 == 1 && i/2 < len(taxConcepts) {
			cs[i] = taxConcept(i / 2)
		}
	}
	return f, cs
}

func init() {
	register(&Check{ID: "P08",
		Rule: "presentation rows equal the pre-order walk of the forest computed from the choices, roots in any order",
		Families: func(thorough bool) []Family {
			fams := []Family{p08Trees(2, "forests2"), p08Alike(), p08Trees(3, "forests3"), p08Trees(4, "forests4"), p08Files(3), spelled(p08Trees(3, "forests3"))}
			fams = append(fams, p08Sizes(40), p08Trees(5, "forests5"))
			if thorough {
				fams = append(fams, p08Files(4), p08Sizes(150), p08Trees(6, "forests6"))
			}
			return fams
		}})
}

var _ = strings.Join
