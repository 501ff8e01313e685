package main

import (
	"fmt"
	"sort"
	"strconv"
)

// linkText describes a rendered relationship.
func (l DRSLink) text() string {
	s := l.SourceHref + " -> " + l.TargetHref
	if h := l.HypercubeConnection; h != nil {
		s += fmt.Sprintf(" hypercube closed=%v element=%q inclusive=%v external=%q", h.IsClosed, h.ContextElement, h.IsInclusive, h.External)
	}
	if d := l.HypercubeDimensionConnection; d != nil {
		s += fmt.Sprintf(" dimension order=%s external=%q", d.Order, d.External)
	}
	if d := l.DimensionDomainConnection; d != nil {
		if d.Default {
			s += fmt.Sprintf(" default order=%s external=%q", d.Order, d.External)
		} else {
			s += fmt.Sprintf(" domain order=%s usable=%v external=%q", d.Order, d.Usable, d.External)
		}
	}
	if d := l.DomainMemberConnection; d != nil {
		s += fmt.Sprintf(" member order=%s usable=%v external=%q", d.Order, d.Usable, d.External)
	}
	return s
}

func attrOf(a Arc, name, def string) string {
	for _, kv := range a.Attrs {
		if kv[0] == name {
			return kv[1]
		}
	}
	return def
}

// arcText is the expected description of an arc; href resolves locators.
func arcText(a Arc, href func(string) string) string {
	s := href(a.From) + " -> " + href(a.To)
	yes := func(v string) bool { return v == "true" || v == "1" }
	order := strconv.FormatFloat(num(a.Order), 'f', -1, 64)
	ext := attrOf(a, "xbrldt:targetRole", "")
	usable := yes(attrOf(a, "xbrldt:usable", "true"))
	switch a.Arcrole {
	case arcAll, arcNot:
		s += fmt.Sprintf(" hypercube closed=%v element=%q inclusive=%v external=%q", yes(attrOf(a, "xbrldt:closed", "false")), attrOf(a, "xbrldt:contextElement", ""), a.Arcrole == arcAll, ext)
	case arcHD:
		s += fmt.Sprintf(" dimension order=%s external=%q", order, ext)
	case arcDef:
		s += fmt.Sprintf(" default order=%s external=%q", order, ext)
	case arcDD:
		s += fmt.Sprintf(" domain order=%s usable=%v external=%q", order, usable, ext)
	case arcDM:
		s += fmt.Sprintf(" member order=%s usable=%v external=%q", order, usable, ext)
	}
	return s
}

func runP13(f *Filing, cs []*Concept, arcs []Arc) Exec {
	return func(e *Env) string {
		n, err := e.render(f)
		if err != nil {
			return "rendering failed: " + err.Error()
		}
		return n.checkRelations(arcs, func(l string) string {
			for _, c := range cs {
				if locLabel(c) == l {
					return c.href()
				}
			}
			return "?"
		})
	}
}

// checkRelations compares the relationships shown with the arcs, whose ends
// href resolves.
func (n *Network) checkRelations(arcs []Arc, href func(string) string) string {
	var got, want, nodes []string
	ends := map[string]bool{}
	for _, l := range n.DGrid.DRS.Links {
		got = append(got, l.text())
	}
	for _, a := range arcs {
		want = append(want, arcText(a, href))
		ends[href(a.From)] = true
		ends[href(a.To)] = true
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("relationships\n %q\nexpected\n %q", got, want)
	}
	for _, x := range n.DGrid.DRS.Nodes {
		nodes = append(nodes, x.Href)
	}
	sort.Strings(nodes)
	if exp := sortedKeys(ends); fmt.Sprint(nodes) != fmt.Sprint(exp) {
		return fmt.Sprintf("nodes %v, expected %v", nodes, exp)
	}
	return ""
}

var dimArcroles = []string{arcAll, arcNot, arcHD, arcDD, arcDef, arcDM}

// chooseDimArc picks kind and attributes of an arc.
func chooseDimArc(c *Chooser, full bool, roles []string) Arc {
	a := Arc{Arcrole: dimArcroles[c.Choose(len(dimArcroles))]}
	orders := []string{"", "2.06250", "-3", "12345678"}
	if !full {
		orders = orders[1:2]
	}
	a.Order = orders[c.Choose(len(orders))]
	set := func(k string, vals ...string) {
		if v := vals[c.Choose(len(vals))]; v != "" {
			a.Attrs = append(a.Attrs, [2]string{k, v})
		}
	}
	switch a.Arcrole {
	case arcAll, arcNot:
		set("xbrldt:closed", "", "true", "false", "1", "0")
		set("xbrldt:contextElement", "", "segment", "scenario")
	case arcDD, arcDM:
		set("xbrldt:usable", "", "true", "false", "1", "0")
	}
	set("xbrldt:targetRole", roles...)
	return a
}

func p13World(targetAlso bool) (*Filing, []*Concept, *XLink, *Linkbase) {
	f, cs := basic(4)
	cs[2] = taxConcept(0)
	role2 := "http://e.example/role/2"
	f.Schemas[0].Roles = append(f.Schemas[0].Roles, Role{ID: "r2", URI: role2, Def: "0002 - Two"})
	x := linkOver(role1, cs)
	lb := &Linkbase{File: "d.xml", Links: []*XLink{x}}
	if targetAlso {
		// The target network names its locators in its own way.
		z := &XLink{Role: role2}
		for i := range cs {
			z.Locs = append(z.Locs, Loc{Label: locLabel(cs[i]), Href: cs[(i+1)%len(cs)].href()})
		}
		z.Arcs = []Arc{{Arcrole: arcDM, From: locLabel(cs[0]), To: locLabel(cs[3]), Order: "7"}}
		lb.Links = []*XLink{z, x}
	}
	f.D = []*Linkbase{lb}
	return f, cs, x, lb
}

func p13Pairs(n int, full bool) Family {
	name := fmt.Sprintf("arcs%d", n)
	return Family{Name: name, Bounds: fmt.Sprintf("%d arcs of every kind with every combination of closed, usable, contextElement, target role and order values (all orders: %v), with and without another network", n, full),
		Gen: func(c *Chooser) Exec {
			also := c.Bool()
			f, cs, x, _ := p13World(also)
			roles := []string{"", "http://e.example/role/2"}
			for i := 0; i < n; i++ {
				a := chooseDimArc(c, full, roles)
				a.From, a.To = locLabel(cs[i]), locLabel(cs[i+1])
				x.Arcs = append(x.Arcs, a)
			}
			return runP13(f, cs, x.Arcs)
		}}
}

func p13Graphs() Family {
	return Family{Name: "graphs", Bounds: "up to 2 arcs between any 2 of 4 concepts, of any kind, in one or two links or files of the role",
		Gen: func(c *Chooser) Exec {
			f, cs, x, lb := p13World(false)
			n := 1 + c.Choose(2)
			for i := 0; i < n; i++ {
				a := Arc{Arcrole: dimArcroles[c.Choose(len(dimArcroles))], Order: itoa(i + 1)}
				from, to := c.Choose(4), c.Choose(4)
				if from == to {
					return nil
				}
				a.From, a.To = locLabel(cs[from]), locLabel(cs[to])
				x.Arcs = append(x.Arcs, a)
			}
			all := x.Arcs
			if n == 2 {
				switch c.Choose(3) {
				case 1:
					y := linkOver(role1, cs)
					y.Arcs = all[1:]
					x.Arcs = all[:1]
					lb.Links = append(lb.Links, y)
				case 2:
					y := linkOver(role1, cs)
					y.Arcs = all[1:]
					x.Arcs = all[:1]
					f.D = append(f.D, &Linkbase{File: "d2.xml", Links: []*XLink{y}})
				}
			}
			if n == 2 {
				for _, l := range f.D {
					for _, y := range l.Links {
						y.onlyUsed()
					}
				}
			}
			return runP13(f, cs, all)
		}}
}

func init() {
	register(&Check{ID: "P13",
		Rule: "the relationship view equals the chosen arcs with their attributes",
		Families: func(thorough bool) []Family {
			fams := []Family{p13Pairs(1, true), p13Sizes(40), p13Alike(), p13Graphs(), p13Pairs(2, false), spelled(p13Pairs(1, true))}
			if thorough {
				fams = append(fams, p13Pairs(2, true))
			}
			return fams
		}})
}
