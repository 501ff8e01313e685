package main

import "fmt"

// threeGrids gives a filing whose presentation, calculation and definition
// grids all have the rows total, a and b.
func threeGrids(f *Filing, total, a, b *Concept) {
	rows := []*Concept{total, a, b}
	p := linkOver(role1, rows)
	d := linkOver(role1, rows)
	c := linkOver(role1, rows)
	for i, k := range []*Concept{a, b} {
		o := itoa(i + 1)
		p.Arcs = append(p.Arcs, Arc{Arcrole: arcPC, From: locLabel(total), To: locLabel(k), Order: o})
		d.Arcs = append(d.Arcs, Arc{Arcrole: arcDM, From: locLabel(total), To: locLabel(k), Order: o})
		c.Arcs = append(c.Arcs, Arc{Arcrole: arcSI, From: locLabel(total), To: locLabel(k), Order: o, Weight: "1.0"})
	}
	f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{p}}}
	f.D = []*Linkbase{{File: "d.xml", Links: []*XLink{d}}}
	f.C = []*Linkbase{{File: "c.xml", Links: []*XLink{c}}}
}

// addFact reports a text fact with a value of its own.
func (f *Filing) addFact(c *Concept, ctx *Context) *Fact {
	x := &Fact{Concept: c, Ctx: ctx, Inner: fmt.Sprintf("v-%s-%s", c.Name, ctx.ID)}
	if c.ns == nsTax {
		x.Inner = "t" + x.Inner
	}
	f.Inst.Facts = append(f.Inst.Facts, x)
	return x
}

func reverseFacts(f *Filing) {
	fs := f.Inst.Facts
	for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
		fs[i], fs[j] = fs[j], fs[i]
	}
}

// decideGrids renders the network of every entity and applies a check to
// every grid, after making sure that the grids are there at all.
func decideGrids(f *Filing, minGrids int, check func(entity string, g grid) string) Exec {
	return func(e *Env) string {
		h, err := e.open(f)
		if err != nil {
			return "loading failed: " + err.Error()
		}
		seen := map[string]bool{}
		for _, c := range f.Inst.Contexts {
			k := c.entityKey()
			if seen[k] {
				continue
			}
			seen[k] = true
			n, err := e.network(h, k, role1)
			if err != nil {
				return "rendering failed: " + err.Error()
			}
			gs := n.grids()
			if len(gs) < minGrids {
				return fmt.Sprintf("%d grids, expected %d", len(gs), minGrids)
			}
			for _, g := range gs {
				if msg := check(k, g); msg != "" {
					return "entity " + k + ": " + msg
				}
			}
		}
		return ""
	}
}

func p09Placements(check func(*Filing) func(string, grid) string) Family {
	return Family{Name: "placements", Bounds: "every subset of 12 concept-context pairs (3 row concepts, 1 outside; 2 contexts of one entity, 1 of another), colliding names and ids, 3 file orders",
		Gen: func(c *Chooser) Exec {
			variant := c.Choose(3)
			f, cs := basic(4)
			total, a, b, out := cs[0], cs[1], taxConcept(0), cs[3]
			// Names and ids collide across namespaces.
			cs[1].Name, cs[1].ID = "TaxA", "tax_TaxA"
			cs[3].Name, cs[3].ID = "TaxA1", "ent_C0x"
			threeGrids(f, total, a, b)
			f.Inst.Contexts = []*Context{
				{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2020-12-31"},
				{ID: "c11", Scheme: scheme1, Entity: "0001", Instant: "2019-12-31"},
				{ID: "c", Scheme: scheme1, Entity: "0002", Instant: "2020-12-31"},
			}
			n := 0
			for _, k := range []*Concept{total, a, b, out} {
				for _, x := range f.Inst.Contexts {
					if c.Bool() {
						fact := f.addFact(k, x)
						n++
						if variant == 1 {
							fact.ID = fmt.Sprintf("f%02d", 50-n)
						}
					}
				}
			}
			if variant == 2 {
				reverseFacts(f)
			}
			return decideGrids(f, 3, check(f))
		}}
}

func cellsOf(f *Filing) func(string, grid) string { return f.checkCells }

func headersOf(f *Filing) func(string, grid) string { return f.checkHeaders }

// p09Members has contexts that differ by members only.
func p09Members(check func(*Filing) func(string, grid) string) Family {
	return Family{Name: "members", Bounds: "every subset of 9 pairs of 3 row concepts and 3 contexts of the same period with 0, 1 or 2 members, row concepts abstract or not",
		Gen: func(c *Chooser) Exec {
			f, cs := basic(7)
			total, a, b := cs[0], cs[1], taxConcept(1)
			threeGrids(f, total, a, b)
			dim1, dim2, m1, m2 := cs[3], cs[4], cs[5], cs[6]
			ctx := func(id string, ms ...Member) *Context {
				return &Context{ID: id, Scheme: scheme1, Entity: "0001", Start: "2020-01-01", End: "2020-12-31", Seg: ms}
			}
			f.Inst.Contexts = []*Context{
				ctx("z", Member{Dim: dim1, Mem: m1}, Member{Dim: dim2, Mem: m2}),
				ctx("y", Member{Dim: dim1, Mem: m2}),
				ctx("x"),
			}
			total.Abstract = c.Bool()
			for _, k := range []*Concept{total, a, b} {
				for _, x := range f.Inst.Contexts {
					if c.Bool() {
						f.addFact(k, x)
					}
				}
			}
			return decideGrids(f, 3, check(f))
		}}
}

func p09Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("grids of 3 rows and every number of contexts up to %d, all, even or every third pair reported", max),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(max)
			mod := 1 + c.Choose(3)
			f, cs := basic(3)
			threeGrids(f, cs[0], cs[1], taxConcept(2))
			f.Inst.Contexts = nil
			for i := 0; i < n; i++ {
				f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c" + itoa(i), Scheme: scheme1, Entity: "0001", Instant: fmt.Sprintf("%04d-12-31", 2200-i)})
			}
			i := 0
			for _, k := range []*Concept{cs[0], cs[1], taxConcept(2)} {
				for _, x := range f.Inst.Contexts {
					if i%mod == 0 {
						f.addFact(k, x)
					}
					i++
				}
			}
			return decideGrids(f, 3, f.checkCells)
		}}
}

func init() {
	register(&Check{ID: "P09",
		Rule: "every cell of every grid equals the fact the choices placed there",
		Families: func(thorough bool) []Family {
			fams := []Family{p09Members(cellsOf), p09Sizes(40), p09Lengths(), alikeGrids(cellsOf), p09Placements(cellsOf), spelled(p09Members(cellsOf))}
			if thorough {
				fams = append(fams, p09Sizes(200))
			}
			return fams
		}})
	register(&Check{ID: "P10",
		Rule: "columns equal the contexts selected and ordered by the reference model",
		Families: func(thorough bool) []Family {
			fams := []Family{p10Sizes(40), alikeGrids(headersOf), p09Placements(headersOf), p10Columns(2, true), p10Columns(3, false), spelled(p09Members(headersOf)), spelled(p10Columns(2, false))}
			if thorough {
				fams = append(fams, p10Columns(3, true))
			}
			return fams
		}})
}

// p10Columns varies entities, periods, members and which concept has a fact.
func p10Columns(n int, full bool) Family {
	periods := [][3]string{{"2020-12-31"}, {"", "2020-01-01", "2020-12-31"}, {"2019-12-31"}}
	membersMax := 2
	if full {
		periods = append(periods, [3]string{"", "2020-01-01", "2021-12-31"}, [3]string{"", "2020-02-01", "2020-12-31"})
		membersMax = 3
	}
	name := fmt.Sprintf("columns%d", n)
	if full {
		name += "full"
	}
	return Family{Name: name, Bounds: fmt.Sprintf("%d contexts over 2 entities, %d periods and up to %d members, each with a fact of a row concept, of two row concepts, of an abstract row, of an outside concept or none", n, len(periods), membersMax-1),
		Gen: func(c *Chooser) Exec {
			f, cs := basic(8)
			head, a, b, out := cs[0], cs[1], taxConcept(1), cs[7]
			head.Abstract = true
			threeGrids(f, head, a, b)
			dims := []*Concept{cs[3], cs[4]}
			mems := []*Concept{cs[5], cs[6]}
			f.Inst.Contexts = nil
			for i := 0; i < n; i++ {
				x := &Context{ID: string(rune('r' - i)), Scheme: scheme1, Entity: pick(c, "0001", "0002")}
				p := periods[c.Choose(len(periods))]
				x.Instant, x.Start, x.End = p[0], p[1], p[2]
				for k := c.Choose(membersMax); k > 0; k-- {
					x.Seg = append(x.Seg, Member{Dim: dims[k-1], Mem: mems[(k+i)%2]})
				}
				f.Inst.Contexts = append(f.Inst.Contexts, x)
				kinds := 5
				if !full {
					kinds = 3
				}
				switch c.Choose(kinds) {
				case 0:
					f.addFact(a, x)
				case 1:
					f.addFact(out, x)
				case 2:
					f.addFact(b, x)
					f.addFact(a, x)
				case 3:
					f.addFact(head, x)
				}
			}
			return decideGrids(f, 3, f.checkHeaders)
		}}
}
