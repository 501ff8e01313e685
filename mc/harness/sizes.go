package main

import (
	"fmt"
	"strings"
	"time"
)

// Families of every size up to a bound, in a few regular patterns. They show
// what happens beyond the small sizes that are taken in all combinations.

func shapeName() string {
	return "stars, chains, combs and binary trees, orders ascending, descending or alternating"
}

// chooseShape gives a tree of n nodes in one of the regular shapes.
func chooseShape(c *Chooser, n int) treeSpec {
	shape, dir := c.Choose(4), c.Choose(3)
	t := treeSpec{parent: make([]int, n), order: make([]string, n)}
	for i := 0; i < n; i++ {
		switch shape {
		case 0:
			t.parent[i] = 0
		case 1:
			t.parent[i] = i - 1
		case 2:
			t.parent[i] = i - 1
			if i%2 == 0 {
				t.parent[i] = i - 2
			}
		case 3:
			t.parent[i] = (i - 1) / 2
		}
		if i == 0 {
			t.parent[i] = -1
		}
		switch dir {
		case 0:
			t.order[i] = itoa(i)
		case 1:
			t.order[i] = itoa(n - i)
		case 2:
			t.order[i] = itoa(i)
			if i%2 == 1 {
				t.order[i] = "-" + itoa(i)
			}
		}
	}
	return t
}

func p10Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number of contexts up to %d over 2 entities, 7 periods and up to 3 members of 3 or up to 6 of 6 dimensions, in 3 orders, a fact of one or two row concepts or of an outside one", max),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(max)
			step := []int{1, 3, 4}[c.Choose(3)]
			split := c.Bool()
			many := c.Bool()
			f, cs := basic(13)
			head, a, b, out := cs[0], cs[1], taxConcept(1), cs[2]
			threeGrids(f, head, a, b)
			f.Inst.Contexts = nil
			for i := 0; i < n; i++ {
				k := i * step
				x := &Context{ID: "c" + itoa((k*7)%101) + "x" + itoa(i), Scheme: scheme1, Entity: "0001"}
				if split && i%5 == 4 {
					x.Entity = "00010"
				}
				switch p := k % 7; {
				case p < 3:
					x.Instant = fmt.Sprintf("20%02d-12-31", 20-p)
				default:
					x.Start, x.End = fmt.Sprintf("20%02d-01-01", 10+p%2), fmt.Sprintf("20%02d-12-31", 22-p)
				}
				count := k / 7 % 4
				if many {
					count = (k/7*2 + i) % 7
				}
				for m := 0; m < count; m++ {
					x.put(m == 2, Member{Dim: cs[4+m], Mem: cs[10+(i+m)%3]})
				}
				f.Inst.Contexts = append(f.Inst.Contexts, x)
				switch i % 6 {
				case 3:
					f.addFact(out, x)
				case 1:
					f.addFact(b, x)
				case 2:
					f.addFact(b, x)
					f.addFact(a, x)
				default:
					f.addFact(a, x)
				}
			}
			return decideGrids(f, 3, f.checkHeaders)
		}}
}

func p11Sizes(maxDim, maxCtx int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number of explicit or typed dimensions up to %d in 3 spreads over segments and scenarios, 1, 2, 7 or %d contexts, each with all, every other or every third dimension", maxDim, maxCtx),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(maxDim)
			nctx := []int{1, 2, 7, maxCtx}[c.Choose(4)]
			spread := c.Choose(3)
			typed := c.Bool()
			mod := 1 + c.Choose(3)
			f, cs := basic(3)
			s := f.Schemas[0]
			threeGrids(f, cs[0], cs[1], taxConcept(2))
			f.Inst.Contexts = nil
			var dims, doms, mems []*Concept
			for d := 0; d < n; d++ {
				name := "Dim" + itoa((d*5)%17)
				if d >= 17 {
					name += "x" + itoa(d)
				}
				dim := s.add(&Concept{ID: "ent_" + name, Name: name})
				if typed {
					dom := s.add(&Concept{ID: "ent_T" + name, Name: "T" + name, Type: "xsd:string"})
					dim.TypedRef = "#" + dom.ID
					doms = append(doms, dom)
				}
				dims = append(dims, dim)
			}
			for i := 0; i < 4; i++ {
				mems = append(mems, s.add(&Concept{ID: "ent_Mem" + itoa(i), Name: "Mem" + itoa(i)}))
			}
			for i := 0; i < nctx; i++ {
				x := &Context{ID: "c" + itoa(nctx-i), Scheme: scheme1, Entity: "0001", Instant: fmt.Sprintf("20%02d-12-31", 10+i/2)}
				for d := range dims {
					if (d+i)%mod != 0 {
						continue
					}
					m := Member{Dim: dims[d]}
					if typed {
						m.Typed, m.Value = doms[d], fmt.Sprintf("v%d.%d", i, d)
					} else {
						m.Mem = mems[(i+d)%4]
					}
					x.put(spread == 1 || spread == 2 && d%2 == 1, m)
				}
				f.Inst.Contexts = append(f.Inst.Contexts, x)
				f.addFact(cs[1], x)
			}
			return decideGrids(f, 3, f.checkMembers)
		}}
}

func p12Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("%s of every size up to %d, weights in turn from 6 values, in one link or each arc in its own", shapeName(), max),
		Gen: func(c *Chooser) Exec {
			n := 2 + c.Choose(max-1)
			t := chooseShape(c, n)
			each := c.Bool()
			f, cs := p12Filing(n)
			var arcs []calcArc
			for i := 1; i < n; i++ {
				arcs = append(arcs, calcArc{t.parent[i], i, t.order[i], weightAlphabet[i%len(weightAlphabet)]})
			}
			x := calcLink(cs, arcs)
			links := []*XLink{x}
			if each {
				links = nil
				for _, a := range x.Arcs {
					y := linkOver(role1, cs)
					y.Arcs = []Arc{a}
					y.onlyUsed()
					links = append(links, y)
				}
			}
			f.C = []*Linkbase{{File: "c.xml", Links: links}}
			return runP12(f, cs, arcs)
		}}
}

func p13Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number of arcs up to %d, kinds and attributes in turn in 4 patterns, over as many concepts, over 7, or all from or all to one", max),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(max)
			pattern := c.Choose(4)
			layout := c.Choose(4)
			f, cs := basic(n + 1)
			x := linkOver(role1, cs)
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				a := Arc{Arcrole: dimArcroles[(i*(pattern+1)+i/6)%6], Order: fmt.Sprintf("%d.5", n-i)}
				from, to := i, i+1
				switch layout {
				case 1:
					from, to = i%7%(n+1), (i*3+1)%7%(n+1)
				case 2:
					from = 0
				case 3:
					from, to = i+1, 0
				}
				if from == to || seen[a.Arcrole+itoa(from)+"-"+itoa(to)] {
					continue
				}
				seen[a.Arcrole+itoa(from)+"-"+itoa(to)] = true
				a.From, a.To = locLabel(cs[from]), locLabel(cs[to])
				switch a.Arcrole {
				case arcAll, arcNot:
					if i%2 == 0 {
						a.Attrs = append(a.Attrs, [2]string{"xbrldt:closed", "true"})
					}
					if i%3 > 0 {
						a.Attrs = append(a.Attrs, [2]string{"xbrldt:contextElement", []string{"", "segment", "scenario"}[i%3]})
					}
				case arcDD, arcDM:
					if i%5 == 0 {
						a.Attrs = append(a.Attrs, [2]string{"xbrldt:usable", "false"})
					}
				}
				x.Arcs = append(x.Arcs, a)
			}
			f.D = []*Linkbase{{File: "d.xml", Links: []*XLink{x}}}
			return runP13(f, cs, x.Arcs)
		}}
}

func p14Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("one of: items, domain members in %s of every size up to %d, or dimensions, hypercubes, roots of every number up to %d", shapeName(), max, max/3),
		Gen: func(c *Chooser) Exec {
			struck := c.Bool()
			var w *dimWorld
			switch c.Choose(5) {
			case 0: // items
				n := 2 + c.Choose(max-1)
				t := chooseShape(c, n)
				w = newDimWorld(n, 1, 1)
				w.itemTree = t
				w.cubeDims[0] = []bool{true}
				for i := range w.items {
					w.incl[i][0] = i%3 == 1
				}
			case 1: // members
				n := 2 + c.Choose(max-1)
				t := chooseShape(c, n)
				w = newDimWorld(2, 1, 1)
				w.cubeDims[0] = []bool{true}
				s := w.f.Schemas[0]
				w.domains[0] = nil
				for m := 0; m < n; m++ {
					w.domains[0] = append(w.domains[0], s.add(&Concept{ID: "ent_M" + itoa(m), Name: "M" + itoa(m)}))
				}
				w.domTrees[0] = t
				w.defaults[0] = w.domains[0][n/2]
				w.incl[1][0] = true
			case 2: // dimensions of one hypercube
				n := 1 + c.Choose(max/3)
				w = newDimWorld(2, 1, n)
				for d := range w.dims {
					w.cubeDims[0][d] = true
					if d%3 == 1 {
						w.defaults[d] = w.domains[d][d%2]
					}
				}
				w.incl[1][0] = true
			case 3: // a hypercube with a dimension of its own for every item
				n := 2 + c.Choose(max/3-1)
				w = newDimWorld(n, n, n)
				for k := range w.cubes {
					w.cubeDims[k][k] = true
					w.incl[k][k] = true
				}
			case 4: // trees of two items
				n := 1 + c.Choose(max/3)
				w = newDimWorld(2*n, 1, 1)
				w.itemTree = treeSpec{parent: make([]int, 2*n), order: make([]string, 2*n)}
				w.cubeDims[0] = []bool{true}
				for i := 0; i < n; i++ {
					w.itemTree.parent[2*i], w.itemTree.order[2*i] = -1, "1"
					w.itemTree.parent[2*i+1], w.itemTree.order[2*i+1] = 2*i, "1"
					w.incl[2*i+i%2][0] = true
				}
			}
			if struck {
				w.incl, w.exc = w.exc, w.incl
			}
			return w.exec(2 * c.Choose(2))
		}}
}

func p15Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number of rows up to %d, each with one to five labels in roles and languages in turn, over one link, a link per row or a file per three rows", max),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(max)
			layout := c.Choose(3)
			w := newP15World(false)
			s := w.f.Schemas[0]
			p := w.f.P[0].Links[0]
			var as []assigned
			var per [][]assigned
			for i := 0; i < n; i++ {
				k := s.add(&Concept{ID: "ent_Row" + itoa(i), Name: "Row" + itoa(i)})
				p.Locs = append(p.Locs, Loc{locLabel(k), k.href()})
				p.Arcs = append(p.Arcs, Arc{Arcrole: arcPC, From: locLabel(w.places[0]), To: locLabel(k), Order: itoa(i + 5)})
				var own []assigned
				for j := 0; j <= i%5; j++ {
					own = append(own, assigned{k, labelRoles15[(i+j)%4], labelLangs15[(i+j+j/4)%4], fmt.Sprintf("L%d.%d", i, j)})
				}
				if clash(own) {
					own = own[:1]
				}
				per = append(per, own)
				as = append(as, own...)
			}
			switch layout {
			case 0:
				w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
			case 1:
				lb := &Linkbase{File: "l.xml"}
				for _, own := range per {
					lb.Links = append(lb.Links, labelLink(own))
				}
				// Resource labels are told apart by their link.
				for i, x := range lb.Links {
					for j := range x.Labels {
						x.Labels[j].Label += "_" + itoa(i)
						x.Arcs[j].To += "_" + itoa(i)
					}
				}
				w.f.L = []*Linkbase{lb}
			case 2:
				for i := 0; i < n; i += 3 {
					var some []assigned
					for k := i; k < n && k < i+3; k++ {
						some = append(some, per[k]...)
					}
					w.f.L = append(w.f.L, &Linkbase{File: "l" + itoa(i) + ".xml", Links: []*XLink{labelLink(some)}})
				}
			}
			return runP15(w.f, as)
		}}
}

var sizesScheme = [2]string{"http://sizes.example", "http://sizes.example/b"}

func sizesEntity(j int) string { return fmt.Sprintf("%03d", (j*13)%101) }

const lengthsScheme = "http://lengths.example"

// The register is read once per process and so has all names from the start.
func init() {
	for _, s := range sizesScheme {
		registeredNames[s] = map[string]string{}
	}
	for j := 0; j < 60; j += 3 {
		registeredNames[sizesScheme[j%2]][sizesEntity(j)] = "Name " + itoa(j)
	}
	m := map[string]string{}
	for _, script := range scripts {
		for _, n := range p20Long {
			m[longName(n, 0, script)] = fmt.Sprintf("%d of %s", n, script)
			for i := 0; i < 2; i++ {
				m[lengthsEntity(n, i, script)] = longName(n, i, script)
			}
		}
	}
	registeredNames[lengthsScheme] = m
}

// lengthsEntity is the identifier registered with a name of n characters.
func lengthsEntity(n, i int, script string) string { return fmt.Sprintf("%d:%d:%s", n, i, script) }

var p20Long = lengths[:56]

func p20Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number of entities or of roles up to %d, with one to four of the other, every third entity registered", max),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(max)
			few := 1 + c.Choose(4)
			nEnt, nRole := n, few
			if c.Bool() {
				nEnt, nRole = few, n
			}
			split := c.Choose(3)
			var roles []Role
			for i := 0; i < nRole; i++ {
				roles = append(roles, Role{"r" + itoa(i), "http://e.example/role/" + itoa((i*7)%31) + "x" + itoa(i), fmt.Sprintf("%04d - R%d", (i*11)%37, i)})
			}
			f, cs := basic(nRole)
			s := f.Schemas[0]
			root := s.add(&Concept{ID: "ent_Root", Name: "Root", Abstract: true})
			s.Roles, s.Split = roles, split
			p := &Linkbase{File: "p.xml"}
			for i, r := range roles {
				x := linkOver(r.URI, []*Concept{root, cs[i]})
				x.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(root), To: locLabel(cs[i]), Order: "1"}}
				p.Links = append(p.Links, x)
			}
			f.P = []*Linkbase{p}
			f.Inst.Contexts = nil
			for j := 0; j < nEnt; j++ {
				x := &Context{ID: "c" + itoa(j), Scheme: sizesScheme[j%2], Entity: sizesEntity(j), Instant: "2020-12-31"}
				f.Inst.Contexts = append(f.Inst.Contexts, x)
				for i, k := range cs {
					f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: fmt.Sprintf("f%d-%d", j, i), Concept: k, Ctx: x, Inner: fmt.Sprintf("v%d.%d", j, i)})
				}
			}
			return func(e *Env) string {
				e.names(registeredNames)
				return decideCatalog(e, f, cs, roles, roles, registeredNames)
			}
		}}
}

func p21Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("documents with every number of tagged facts up to %d over up to 6 concepts and 7 contexts, text and number in turn, every pair asked", max),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(max)
			kind := c.Choose(3)
			f, cs := basic(5)
			cs = append(cs, taxConcept(3))
			for i := 1; i < 7; i++ {
				f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c" + itoa(i), Scheme: scheme1, Entity: []string{"0001", "0002"}[i%2], Instant: fmt.Sprintf("20%02d-12-31", 20+i)})
			}
			in := &Inline{Prefixes: [][2]string{{"q", nsEnt}, {"t", nsTax}}}
			var used []docName
			for i := 0; i < n; i++ {
				k, x := cs[i%6], f.Inst.Contexts[(i/6+i%6)%7]
				id := "f" + itoa(i)
				f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: id, Concept: k, Ctx: x, Inner: "v" + itoa(i)})
				p := "q:"
				if k.ns == nsTax {
					p = "t:"
				}
				in.Elems = append(in.Elems, InlineElem{Numeric: kind == 1 || kind == 2 && i%2 == 0, Name: p + k.Name, Ctx: x.ID, ID: id, Text: "t"})
				used = append(used, docName{p + k.Name, k})
			}
			f.Inline = in
			var ctxs []string
			for _, x := range f.Inst.Contexts {
				ctxs = append(ctxs, x.ID)
			}
			return decideAnswers(f, used, []string{"q:TaxD", "t:C0"}, ctxs, nil, attachments{})
		}}
}

func p26Years(from, to int) Family {
	return Family{Name: "years", Bounds: fmt.Sprintf("9 dates of every year from %d to %d, as instants and as ends of durations of 3, 6, 9, 12, 24 and 120 months", from, to),
		Gen: func(c *Chooser) Exec {
			y := from + c.Choose(to-from+1)
			var ps [][3]string
			for i, md := range []string{"01-01", "01-31", "02-28", "03-01", "03-31", "06-30", "09-30", "12-30", "12-31"} {
				day := fmt.Sprintf("%04d-%s", y, md)
				ps = append(ps, [3]string{"", "", day})
				end, _ := time.Parse("2006-01-02", day)
				for _, m := range []int{3, 6, 9, 12, 24, 120} {
					if (i+m)%2 == 0 || m == 12 {
						ps = append(ps, [3]string{end.AddDate(0, -m, 1).Format("2006-01-02"), day, ""})
					}
				}
			}
			return p26Run(ps)
		}}
}

// lengths are sizes of texts.
var lengths = func() []int {
	var out []int
	for n := 1; n <= 40; n++ {
		out = append(out, n)
	}
	for _, n := range []int{48, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1024, 1025, 2000, 4095, 4096, 4097, 10000} {
		out = append(out, n)
	}
	return out
}()

// longName is a name of n characters; equal lengths differ in the last one.
func longName(n, variant int, script string) string {
	r := []rune(script)
	var b strings.Builder
	for i := 0; i < n-1; i++ {
		b.WriteRune(r[i%len(r)])
	}
	return b.String() + string(r[variant%len(r)])
}

var scripts = []string{"Abcdefgh", "éñüßŁŵ", "Łx1.-_y"}

// p09Lengths gives names, ids, context ids and values every length.
func p09Lengths() Family {
	return Family{Name: "lengths", Bounds: fmt.Sprintf("2 concepts and 2 contexts with names, ids, context ids or values of each of %d lengths up to %d, equal but for the last character, in %d alphabets", len(lengths), lengths[len(lengths)-1], len(scripts)),
		Gen: func(c *Chooser) Exec {
			what := c.Choose(4)
			n := lengths[c.Choose(len(lengths))]
			script := scripts[c.Choose(len(scripts))]
			f, cs := basic(3)
			total, a, b := cs[0], cs[1], cs[2]
			f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31"})
			switch what {
			case 0:
				a.Name, b.Name = "N"+longName(n, 0, script), "N"+longName(n, 1, script)
			case 1:
				a.ID, b.ID = "I"+longName(n, 0, script), "I"+longName(n, 1, script)
			case 2:
				for i, x := range f.Inst.Contexts {
					x.ID = "X" + longName(n, i, script)
				}
			}
			threeGrids(f, total, a, b)
			for i, k := range []*Concept{total, a, b} {
				for j, x := range f.Inst.Contexts {
					fact := f.addFact(k, x)
					if what == 3 {
						fact.Inner = longName(n, i+j, script)
					} else {
						fact.Inner = fmt.Sprintf("v%d.%d", i, j)
					}
				}
			}
			return decideGrids(f, 3, f.checkCells)
		}}
}

func p15Lengths() Family {
	return Family{Name: "lengths", Bounds: fmt.Sprintf("labels of each of %d lengths up to %d in %d alphabets and 3 roles", len(lengths), lengths[len(lengths)-1], len(scripts)),
		Gen: func(c *Chooser) Exec {
			n := lengths[c.Choose(len(lengths))]
			script := scripts[c.Choose(len(scripts))]
			w := newP15World(false)
			var as []assigned
			for i := 0; i < 3; i++ {
				for j, l := range []string{"en-US", "es"} {
					as = append(as, assigned{w.places[i], labelRoles15[(i+j)%3], l, longName(n, i+j, script)})
				}
			}
			w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
			return runP15(w.f, as)
		}}
}

func p20Lengths() Family {
	return Family{Name: "lengths", Bounds: fmt.Sprintf("2 entities and 2 roles with identifiers, registered names, role URIs or titles of each of %d lengths up to %d, equal but for the last character, in %d alphabets", len(p20Long), p20Long[len(p20Long)-1], len(scripts)),
		Gen: func(c *Chooser) Exec {
			what := c.Choose(4)
			n := p20Long[c.Choose(len(p20Long))]
			script := scripts[c.Choose(len(scripts))]
			ids := [2]string{"0001", "0002"}
			roles := []Role{{"r1", role1, "T1"}, {"r2", "http://e.example/role/2", "T2"}}
			for i := 0; i < 2; i++ {
				long := longName(n, i, script)
				switch what {
				case 0:
					ids[i] = long
				case 1:
					ids[i] = lengthsEntity(n, i, script)
				case 2:
					roles[i].URI = "http://e.example/" + long
				case 3:
					roles[i].Def = long
				}
			}
			f, cs := basic(2)
			s := f.Schemas[0]
			root := s.add(&Concept{ID: "ent_Root", Name: "Root", Abstract: true})
			s.Roles = roles
			p := &Linkbase{File: "p.xml"}
			for i, r := range roles {
				x := linkOver(r.URI, []*Concept{root, cs[i]})
				x.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(root), To: locLabel(cs[i]), Order: "1"}}
				p.Links = append(p.Links, x)
			}
			f.P = []*Linkbase{p}
			f.Inst.Contexts = nil
			for j, id := range ids {
				x := &Context{ID: "c" + itoa(j), Scheme: lengthsScheme, Entity: id, Instant: "2020-12-31"}
				f.Inst.Contexts = append(f.Inst.Contexts, x)
				for i, k := range cs {
					f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: fmt.Sprintf("f%d-%d", j, i), Concept: k, Ctx: x, Inner: fmt.Sprintf("v%d.%d", j, i)})
				}
			}
			return func(e *Env) string {
				e.names(registeredNames)
				return decideCatalog(e, f, cs, roles, roles, registeredNames)
			}
		}}
}
