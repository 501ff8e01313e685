package main

import (
	"fmt"
	"sort"
)

// checkMembers decides P11 for one grid.
func (f *Filing) checkMembers(entity string, g grid) string {
	cols := f.columns(entity, g.rows)
	return f.checkMemberArea(g.name, cols, g.area.VoidQuadrant, g.area.ContextualMemberGrid)
}

func (f *Filing) checkMemberArea(name string, cols []*Context, void []*VoidCell, cells [][]*MemberCell) string {
	explicit := map[string]bool{}
	typed := map[string]string{} // dimension -> domain element
	for _, c := range cols {
		for _, m := range c.members() {
			if m.Mem != nil {
				explicit[m.Dim.href()] = true
			} else {
				typed[m.Dim.href()] = m.Typed.href()
			}
		}
	}
	var dims []string
	for d := range explicit {
		dims = append(dims, d)
	}
	sort.Strings(dims)
	if len(dims) == 0 && len(typed) == 0 {
		for i, r := range cells {
			for j, c := range r {
				if c != nil && (c.ExplicitMember != nil || c.TypedMember != "") {
					return fmt.Sprintf("%s: member cell %d,%d although no context has members", name, i, j)
				}
			}
		}
		if len(void) > 0 {
			return fmt.Sprintf("%s: %d dimension rows although no context has members", name, len(void))
		}
		return ""
	}
	if len(void) != len(cells) {
		return fmt.Sprintf("%s: %d dimension rows, %d member rows", name, len(void), len(cells))
	}
	var gotDims []string
	shownTyped := map[string]int{}
	got := make([]string, len(cols))
	want := make([]string, len(cols))
	for i, v := range void {
		if v == nil {
			return fmt.Sprintf("%s: dimension row %d is null", name, i)
		}
		if len(cells[i]) != len(cols) {
			return fmt.Sprintf("%s: member row %d has %d cells, expected %d", name, i, len(cells[i]), len(cols))
		}
		dim := v.Dimension.Href
		valued := true
		switch {
		case v.TypedDomain != nil:
			if typed[dim] != v.TypedDomain.Href {
				return fmt.Sprintf("%s: row %d shows typed domain %s of %s, expected domain %q", name, i, v.TypedDomain.Href, dim, typed[dim])
			}
			shownTyped[dim]++
		case typed[dim] != "":
			// the heading row of a typed dimension
			valued = false
		default:
			gotDims = append(gotDims, dim)
		}
		for j, c := range cols {
			exp := "-"
			if valued {
				for _, m := range c.members() {
					if m.Dim.href() != dim {
						continue
					}
					if m.Mem != nil {
						exp = "member " + m.Mem.href()
					} else {
						exp = "value " + m.Value
					}
				}
			}
			want[j] += "|" + exp
			text := "-"
			if x := cells[i][j]; x != nil {
				if x.ExplicitMember != nil && x.ExplicitMember.Href != "" {
					text = "member " + x.ExplicitMember.Href
				}
				if x.TypedMember != "" {
					if text == "-" {
						text = ""
					}
					text += "value " + x.TypedMember
				}
			}
			got[j] += "|" + text
		}
	}
	if fmt.Sprint(gotDims) != fmt.Sprint(dims) {
		return fmt.Sprintf("%s: explicit dimension rows %v, expected %v", name, gotDims, dims)
	}
	for d := range typed {
		if shownTyped[d] != 1 {
			return fmt.Sprintf("%s: %d value rows for typed dimension %s", name, shownTyped[d], d)
		}
	}
	if msg := sameColumns(cols, got, want); msg != "" {
		return name + ": members by column: " + msg
	}
	return ""
}

// p11World has three explicit dimensions, two typed ones and members.
type p11World struct {
	f                *Filing
	dims, typed, mem []*Concept
	domains          []*Concept
	a                *Concept
}

func newP11World(nctx int) *p11World {
	f, cs := basic(3)
	s := f.Schemas[0]
	w := &p11World{f: f, a: cs[1]}
	threeGrids(f, cs[0], cs[1], taxConcept(2))
	w.dims = []*Concept{s.add(&Concept{ID: "ent_DimA1", Name: "DimA1"}), taxConcept(5), s.add(&Concept{ID: "ent_DimA", Name: "DimA"})}
	w.mem = []*Concept{s.add(&Concept{ID: "ent_DimA1M", Name: "DimA1M"}), taxConcept(7)}
	for _, n := range []string{"T1", "T11"} {
		dom := s.add(&Concept{ID: "ent_" + n + "dom", Name: n + "dom", Type: "xsd:string"})
		w.domains = append(w.domains, dom)
		w.typed = append(w.typed, s.add(&Concept{ID: "ent_" + n, Name: n, TypedRef: "#" + dom.ID}))
	}
	f.Inst.Contexts = nil
	for i := 0; i < nctx; i++ {
		x := &Context{ID: "c1c1c1"[:nctx-i], Scheme: scheme1, Entity: "0001", Instant: fmt.Sprintf("20%02d-12-31", 10+i)}
		f.Inst.Contexts = append(f.Inst.Contexts, x)
		f.addFact(w.a, x)
	}
	return w
}

func (x *Context) put(scenario bool, m Member) {
	if scenario {
		x.Scen = append(x.Scen, m)
	} else {
		x.Seg = append(x.Seg, m)
	}
}

func p11Explicit(nctx, ndim int) Family {
	return Family{Name: fmt.Sprintf("explicit%dx%d", nctx, ndim), Bounds: fmt.Sprintf("%d contexts, %d explicit dimensions each in segments or in scenarios, each context with none or either of 2 members per dimension, dimensions in either order, with and without white space around the content of every other context", nctx, ndim),
		Gen: func(c *Chooser) Exec {
			w := newP11World(nctx)
			scen := c.Subset(ndim)
			reverse := c.Bool()
			padded := nctx > 2 || c.Bool()
			for i, x := range w.f.Inst.Contexts {
				if padded {
					x.Pad = pad(i + 1)
				}
				for k := 0; k < ndim; k++ {
					d := k
					if reverse {
						d = ndim - 1 - k
					}
					if m := c.Choose(3); m > 0 {
						x.put(scen[d], Member{Dim: w.dims[d], Mem: w.mem[m-1]})
					}
				}
			}
			return decideGrids(w.f, 3, w.f.checkMembers)
		}}
}

func p11Typed(nctx int) Family {
	return Family{Name: fmt.Sprintf("typed%d", nctx), Bounds: fmt.Sprintf("%d contexts, 1 explicit and 2 typed dimensions each in segments or in scenarios, each context with none or either of 2 values per dimension, with and without white space around the content of every other context", nctx),
		Gen: func(c *Chooser) Exec {
			w := newP11World(nctx)
			scen := c.Subset(3)
			padded := c.Bool()
			for i, x := range w.f.Inst.Contexts {
				if padded {
					x.Pad = pad(i + 1)
				}
				if m := c.Choose(3); m > 0 {
					x.put(scen[0], Member{Dim: w.dims[0], Mem: w.mem[m-1]})
				}
				for k := 0; k < 2; k++ {
					if v := c.Choose(3); v > 0 {
						x.put(scen[k+1], Member{Dim: w.typed[k], Typed: w.domains[k], Value: []string{"v 1", "v"}[v-1]})
					}
				}
			}
			return decideGrids(w.f, 3, w.f.checkMembers)
		}}
}

func init() {
	register(&Check{ID: "P11",
		Rule: "dimension rows and member cells equal those computed from the chosen contexts",
		Families: func(thorough bool) []Family {
			fams := []Family{p11Explicit(1, 3), p11Typed(1), p11Sizes(20, 24), p11Alike(), p11Values(), p11Explicit(3, 2), p11Typed(2), p11Explicit(2, 3), spelled(p11Explicit(1, 3)), spelled(p11Typed(1))}
			if thorough {
				fams = append(fams, p11Explicit(4, 2), p11Explicit(3, 3), p11Typed(3))
			}
			return fams
		}})
}
