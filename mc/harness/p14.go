package main

import (
	"fmt"
	"sort"
)

// dimWorld is a definition network: a tree of items, hypercubes, dimensions,
// domain trees and defaults.
type dimWorld struct {
	f         *Filing
	items     []*Concept
	itemTree  treeSpec
	cubes     []*Concept
	dims      []*Concept
	domains   [][]*Concept // per dimension: domain followed by members
	domTrees  []treeSpec
	defaults  []*Concept // per dimension, nil for none
	cubeDims  [][]bool   // cube x dimension
	incl, exc [][]bool   // item x cube
}

type effMember struct {
	href        string
	def, struck bool
}

func (w *dimWorld) concepts() []*Concept {
	all := append([]*Concept{}, w.items...)
	all = append(all, w.cubes...)
	all = append(all, w.dims...)
	seen := map[*Concept]bool{}
	for _, c := range all {
		seen[c] = true
	}
	for _, d := range w.domains {
		for _, c := range d {
			if !seen[c] {
				seen[c] = true
				all = append(all, c)
			}
		}
	}
	for _, c := range w.defaults {
		if c != nil && !seen[c] {
			seen[c] = true
			all = append(all, c)
		}
	}
	return all
}

func (w *dimWorld) arcs() []Arc {
	var out []Arc
	add := func(role string, a, b *Concept, order string) {
		out = append(out, Arc{Arcrole: role, From: locLabel(a), To: locLabel(b), Order: order})
	}
	out = append(out, arcsOf(w.itemTree, w.items, arcDM)...)
	for i := range w.items {
		for k := range w.cubes {
			if w.incl[i][k] {
				add(arcAll, w.items[i], w.cubes[k], "1")
			}
			if w.exc[i][k] {
				add(arcNot, w.items[i], w.cubes[k], "2")
			}
		}
	}
	for k := range w.cubes {
		for d := range w.dims {
			if w.cubeDims[k][d] {
				add(arcHD, w.cubes[k], w.dims[d], itoa(d+1))
			}
		}
	}
	done := map[*Concept]bool{}
	for d := range w.dims {
		add(arcDD, w.dims[d], w.domains[d][0], "1")
		if !done[w.domains[d][0]] {
			done[w.domains[d][0]] = true
			out = append(out, arcsOf(w.domTrees[d], w.domains[d], arcDM)...)
		}
		if w.defaults[d] != nil {
			add(arcDef, w.dims[d], w.defaults[d], "1")
		}
	}
	return out
}

// effective computes the effective members of an item and a dimension.
func (w *dimWorld) effective(item, dim int) []effMember {
	var out []effMember
	group := func(struck bool) {
		if w.defaults[dim] != nil {
			out = append(out, effMember{w.defaults[dim].href(), true, struck})
		}
		for _, m := range w.domains[dim] {
			out = append(out, effMember{m.href(), false, struck})
		}
	}
	in, ex := false, false
	for k := range w.cubes {
		if !w.cubeDims[k][dim] {
			continue
		}
		if w.incl[item][k] && w.exc[item][k] {
			return nil
		}
		in = in || w.incl[item][k]
		ex = ex || w.exc[item][k]
	}
	if in {
		group(false)
	}
	if ex {
		group(true)
	}
	return out
}

// ambiguous tells that an item reaches a dimension by two hypercubes of the
// same kind, for which nothing is specified.
func (w *dimWorld) ambiguous() bool {
	for i := range w.items {
		for d := range w.dims {
			in, ex := 0, 0
			for k := range w.cubes {
				if w.cubeDims[k][d] {
					if w.incl[i][k] {
						in++
					}
					if w.exc[i][k] {
						ex++
					}
				}
			}
			if in > 1 || ex > 1 {
				return true
			}
		}
	}
	return false
}

func sortEff(e []effMember) []effMember {
	sort.Slice(e, func(i, j int) bool { return fmt.Sprint(e[i]) < fmt.Sprint(e[j]) })
	return e
}

func (w *dimWorld) check(n *Network) string {
	used := map[string]int{}
	for d := range w.dims {
		for k := range w.cubes {
			if w.cubeDims[k][d] {
				used[w.dims[d].href()] = d
			}
		}
	}
	roots := map[string]int{}
	for i, p := range w.itemTree.parent {
		kids := 0
		for _, q := range w.itemTree.parent {
			if q == i {
				kids++
			}
		}
		if p < 0 && kids > 0 {
			roots[w.items[i].href()] = i
		}
	}
	index := map[string]int{}
	for i, c := range w.items {
		index[c.href()] = i
	}
	var got []string
	for _, r := range n.DGrid.RootDomains {
		got = append(got, r.Href)
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(sortedKeys(roots)) {
		return fmt.Sprintf("roots %v, expected %v", got, sortedKeys(roots))
	}
	for _, r := range n.DGrid.RootDomains {
		want := w.itemTree.walk(w.items, roots[r.Href], -1)
		rows := []row{{r.Href, -1}}
		for _, p := range r.PrimaryItems {
			rows = append(rows, row{p.Href, p.Level})
		}
		if fmt.Sprint(rows) != fmt.Sprint(want) {
			return fmt.Sprintf("root %s: items %v, expected %v", r.Href, rows, want)
		}
		var dims []string
		for _, d := range r.EffectiveDimensions {
			dims = append(dims, d.Href)
		}
		sorted := append([]string{}, dims...)
		sort.Strings(sorted)
		if fmt.Sprint(sorted) != fmt.Sprint(sortedKeys(used)) {
			return fmt.Sprintf("root %s: dimensions %v, expected %v", r.Href, dims, sortedKeys(used))
		}
		if len(r.EffectiveDomainGrid) != len(rows) {
			return fmt.Sprintf("root %s: %d effective domain rows for %d items", r.Href, len(r.EffectiveDomainGrid), len(rows))
		}
		for i, rw := range rows {
			if len(r.EffectiveDomainGrid[i]) != len(dims) {
				return fmt.Sprintf("root %s: effective domain row %d has %d cells for %d dimensions", r.Href, i, len(r.EffectiveDomainGrid[i]), len(dims))
			}
			for j, d := range dims {
				var ms []effMember
				for _, m := range r.EffectiveDomainGrid[i][j] {
					ms = append(ms, effMember{m.Href, m.IsDefault, m.IsStrikethrough})
				}
				a, b := fmt.Sprint(sortEff(ms)), fmt.Sprint(sortEff(w.effective(index[rw.href], used[d])))
				if a != b {
					return fmt.Sprintf("item %s, dimension %s: effective members\n %s\nexpected\n %s", rw.href, d, a, b)
				}
			}
		}
	}
	return ""
}

func (w *dimWorld) exec(other int) Exec {
	x := linkOver(role1, w.concepts())
	x.Arcs = w.arcs()
	role2 := "http://e.example/role/2"
	switch other {
	case 0:
		w.f.D = []*Linkbase{{File: "d.xml", Links: []*XLink{x}}}
	case 1: // another network in another file
		w.f.Schemas[0].Roles = append(w.f.Schemas[0].Roles, Role{ID: "r2", URI: role2, Def: "0002 - Two"})
		y := linkOver(role2, w.items)
		y.Arcs = []Arc{{Arcrole: arcDM, From: locLabel(w.items[1]), To: locLabel(w.items[0]), Order: "1"}}
		w.f.D = []*Linkbase{{File: "d.xml", Links: []*XLink{x}}, {File: "d2.xml", Links: []*XLink{y}}}
	case 2: // arcs in reverse file order over two links
		for i, j := 0, len(x.Arcs)-1; i < j; i, j = i+1, j-1 {
			x.Arcs[i], x.Arcs[j] = x.Arcs[j], x.Arcs[i]
		}
		y := linkOver(role1, w.concepts())
		y.Arcs = x.Arcs[len(x.Arcs)/2:]
		x.Arcs = x.Arcs[:len(x.Arcs)/2]
		x.onlyUsed()
		y.onlyUsed()
		w.f.D = []*Linkbase{{File: "d.xml", Links: []*XLink{x, y}}}
	}
	return func(e *Env) string {
		n, err := e.render(w.f)
		if err != nil {
			return "rendering failed: " + err.Error()
		}
		return w.check(n)
	}
}

// newDimWorld has nItems items in a fixed tree, cubes, two dimensions with a
// domain each.
func newDimWorld(nItems, nCubes, nDims int) *dimWorld {
	f, cs := basic(nItems)
	w := &dimWorld{f: f, items: cs}
	if nItems > 2 {
		w.items[1] = taxConcept(1)
	}
	w.itemTree = treeSpec{parent: make([]int, nItems), order: make([]string, nItems)}
	for i := range w.itemTree.parent {
		w.itemTree.parent[i] = 0
		w.itemTree.order[i] = itoa(10 - i)
	}
	w.itemTree.parent[0] = -1
	s := f.Schemas[0]
	for k := 0; k < nCubes; k++ {
		w.cubes = append(w.cubes, s.add(&Concept{ID: "ent_Cube" + itoa(k), Name: "Cube" + itoa(k), Abstract: true}))
		w.cubeDims = append(w.cubeDims, make([]bool, nDims))
	}
	for d := 0; d < nDims; d++ {
		w.dims = append(w.dims, s.add(&Concept{ID: "ent_Dim" + itoa(d), Name: "Dim" + itoa(d), Abstract: true}))
		var dom []*Concept
		for m := 0; m < 3; m++ {
			n := fmt.Sprintf("Dom%d%c", d, 'a'+m)
			dom = append(dom, s.add(&Concept{ID: "ent_" + n, Name: n}))
		}
		w.domains = append(w.domains, dom)
		w.domTrees = append(w.domTrees, treeSpec{parent: []int{-1, 0, d % 2}, order: []string{"", "2", "1"}})
		w.defaults = append(w.defaults, nil)
	}
	for range w.items {
		w.incl = append(w.incl, make([]bool, nCubes))
		w.exc = append(w.exc, make([]bool, nCubes))
	}
	return w
}

// p14Attach varies how items attach to hypercubes and which dimensions those
// have.
func p14Attach(nItems, nCubes int) Family {
	return Family{Name: fmt.Sprintf("attach%dx%d", nItems, nCubes), Bounds: fmt.Sprintf("%d items each attached to each of %d hypercubes not, inclusively, exclusively or both, every set of 2 dimensions per hypercube, defaults none, domain or member", nItems, nCubes),
		Gen: func(c *Chooser) Exec {
			w := newDimWorld(nItems, nCubes, 2)
			for k := range w.cubes {
				w.cubeDims[k] = c.Subset(2)
			}
			for d := range w.dims {
				switch c.Choose(3) {
				case 1:
					w.defaults[d] = w.domains[d][0]
				case 2:
					w.defaults[d] = w.domains[d][2]
				}
			}
			for i := range w.items {
				for k := range w.cubes {
					a := c.Choose(4)
					w.incl[i][k] = a == 1 || a == 3
					w.exc[i][k] = a == 2 || a == 3
				}
			}
			if w.ambiguous() {
				return nil
			}
			return w.exec(0)
		}}
}

// p14Domains varies the domains: own, shared, and where the default is.
func p14Domains() Family {
	return Family{Name: "domains", Bounds: "2 dimensions with every domain tree over up to 3 further members, own or shared domain, defaults none, domain, member or outside; three file layouts",
		Gen: func(c *Chooser) Exec {
			layout := c.Choose(3)
			w := newDimWorld(2, 1, 2)
			w.cubeDims[0] = []bool{true, true}
			struck := c.Bool()
			if struck {
				w.exc[1][0] = true
			} else {
				w.incl[1][0] = true
			}
			shared := c.Bool()
			s := w.f.Schemas[0]
			extra := s.add(&Concept{ID: "ent_Dom0d", Name: "Dom0d"})
			outside := s.add(&Concept{ID: "ent_Out", Name: "Out"})
			w.domains[0] = append(w.domains[0], extra)
			// any tree rooted in the domain
			t := treeSpec{parent: []int{-1, 0, 0, 0}, order: []string{"", "1", "2", "3"}}
			t.parent[1] = 0
			t.parent[2] = c.Choose(2)
			t.parent[3] = c.Choose(3)
			w.domTrees[0] = t
			if shared {
				w.domains[1] = w.domains[0]
				w.domTrees[1] = t
			}
			for d := range w.dims {
				switch c.Choose(4) {
				case 1:
					w.defaults[d] = w.domains[d][0]
				case 2:
					w.defaults[d] = w.domains[d][1]
				case 3:
					w.defaults[d] = outside
				}
			}
			return w.exec(layout)
		}}
}

// p14Items varies the item trees.
func p14Items(n int) Family {
	return Family{Name: fmt.Sprintf("items%d", n), Bounds: fmt.Sprintf("every forest over %d items with every arrangement of orders, attached in turn to the hypercube, three file layouts", n),
		Gen: func(c *Chooser) Exec {
			layout := c.Choose(3)
			parent := chooseForest(c, n)
			if parent == nil {
				return nil
			}
			w := newDimWorld(n, 1, 1)
			w.itemTree = treeSpec{parent, chooseOrders(c, parent, p14Orders)}
			w.cubeDims[0] = []bool{true}
			w.incl[c.Choose(n)][0] = true
			w.defaults[0] = w.domains[0][0]
			return w.exec(layout)
		}}
}

// p14Orders has the order of an arc without one among the first.
var p14Orders = []string{"-2", "", "10", "2"}

func init() {
	register(&Check{ID: "P14",
		Rule: "roots, items, levels, dimensions and effective members equal those computed from the chosen network",
		Families: func(thorough bool) []Family {
			fams := []Family{p14Items(3), p14Sizes(30), p14Alike(), p14Domains(), p14Attach(2, 1), p14Attach(2, 2), spelled(p14Items(3))}
			if thorough {
				fams = append(fams, p14Items(4), p14Attach(3, 2))
			}
			return fams
		}})
}
