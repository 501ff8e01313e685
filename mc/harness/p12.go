package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
)

type calcArc struct {
	from, to      int
	order, weight string
}

type contrib struct {
	href, sign, scale, balance string
	total                      bool
}

// expectedTotals computes the calculation grid from the arcs.
func expectedTotals(cs []*Concept, arcs []calcArc) map[string][]contrib {
	isTotal := map[int]bool{}
	for _, a := range arcs {
		isTotal[a.from] = true
	}
	out := map[string][]contrib{}
	sorted := append([]calcArc{}, arcs...)
	sort.SliceStable(sorted, func(i, j int) bool { return num(sorted[i].order) < num(sorted[j].order) })
	for _, a := range sorted {
		w := num(a.weight)
		c := contrib{href: cs[a.to].href(), sign: "+", scale: strconv.FormatFloat(math.Abs(w), 'f', 1, 64), balance: cs[a.to].Balance, total: isTotal[a.to]}
		if w < 0 {
			c.sign = "-"
		}
		k := cs[a.from].href()
		out[k] = append(out[k], c)
	}
	return out
}

func (n *Network) checkTotals(cs []*Concept, arcs []calcArc) string {
	want := expectedTotals(cs, arcs)
	orders := map[string]map[string]float64{}
	for _, a := range arcs {
		k := cs[a.from].href()
		if orders[k] == nil {
			orders[k] = map[string]float64{}
		}
		orders[k][cs[a.to].href()] = num(a.order)
	}
	if len(n.CGrid.SummationItems) != len(want) {
		return fmt.Sprintf("%d totals, expected %d", len(n.CGrid.SummationItems), len(want))
	}
	seen := map[string]bool{}
	for i := range n.CGrid.SummationItems {
		s := &n.CGrid.SummationItems[i]
		exp, ok := want[s.Href]
		if !ok || seen[s.Href] {
			return "unexpected total " + s.Href
		}
		seen[s.Href] = true
		for _, c := range cs {
			if c.href() == s.Href && c.Balance != s.BalanceType {
				return fmt.Sprintf("total %s has balance %q, expected %q", s.Href, s.BalanceType, c.Balance)
			}
		}
		var got []contrib
		for _, c := range s.ContributingConcepts {
			got = append(got, contrib{c.Href, c.Sign, c.Scale, c.BalanceType, c.IsSummationItem})
		}
		for k := 1; k < len(got); k++ {
			if orders[s.Href][got[k-1].href] > orders[s.Href][got[k].href] {
				return fmt.Sprintf("total %s: contributors %v are not in arc order", s.Href, got)
			}
		}
		a, b := fmt.Sprint(sortedContribs(got)), fmt.Sprint(sortedContribs(exp))
		if a != b {
			return fmt.Sprintf("total %s: contributors %s, expected %s", s.Href, a, b)
		}
	}
	return ""
}

func sortedContribs(c []contrib) []contrib {
	out := append([]contrib{}, c...)
	sort.Slice(out, func(i, j int) bool { return out[i].href < out[j].href })
	return out
}

// p12Filing reports one fact per concept, so that the fact areas show which
// row stands for which concept.
func p12Filing(n int) (*Filing, []*Concept) {
	f, cs := basic(n)
	cs[0].Balance = "debit"
	if n > 1 {
		cs[1] = taxConcept(9) // credit
	}
	if n > 3 {
		cs[3].Balance = "credit"
	}
	for _, c := range cs {
		f.addFact(c, f.Inst.Contexts[0])
	}
	return f, cs
}

func runP12(f *Filing, cs []*Concept, arcs []calcArc) Exec {
	return func(e *Env) string {
		n, err := e.render(f)
		if err != nil {
			return "rendering failed: " + err.Error()
		}
		if msg := n.checkTotals(cs, arcs); msg != "" {
			return msg
		}
		for _, g := range n.grids() {
			if msg := f.checkCells(scheme1+"/0001", g); msg != "" {
				return msg
			}
		}
		return ""
	}
}

func calcLink(cs []*Concept, arcs []calcArc) *XLink {
	x := linkOver(role1, cs)
	for _, a := range arcs {
		x.Arcs = append(x.Arcs, Arc{Arcrole: arcSI, From: locLabel(cs[a.from]), To: locLabel(cs[a.to]), Order: a.order, Weight: a.weight})
	}
	return x
}

// p12Graphs takes every set of arcs between n concepts.
func p12Graphs(n int, twoWay bool) Family {
	return Family{Name: fmt.Sprintf("graphs%d", n), Bounds: fmt.Sprintf("every set of summation arcs between %d concepts (two-way: %v), two order and weight patterns", n, twoWay),
		Gen: func(c *Chooser) Exec {
			f, cs := p12Filing(n)
			var arcs []calcArc
			pattern := c.Choose(3)
			k := 0
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i == j || (!twoWay && j < i) {
						continue
					}
					if c.Bool() {
						k++
						a := calcArc{i, j, itoa(k), "1"}
						switch pattern {
						case 1:
							a.order, a.weight = itoa(12-k), "-1.0"
						case 2:
							a.order, a.weight = orderAlphabet[k%len(orderAlphabet)], []string{"1", "-1", "0.5", "-0.5"}[k%4]
						}
						arcs = append(arcs, a)
					}
				}
			}
			f.C = []*Linkbase{{File: "c.xml", Links: []*XLink{calcLink(cs, arcs)}}}
			return runP12(f, cs, arcs)
		}}
}

var weightAlphabet = []string{"1", "-1.0", "0.5", "-2.5", "1200", "-0.5"}

// p12Attributes gives two totals sharing contributors all weights and orders.
func p12Attributes() Family {
	return Family{Name: "attributes", Bounds: "3 arcs over 2 totals, weights from 6 values, orders from 5 values including equal ones and none",
		Gen: func(c *Chooser) Exec {
			f, cs := p12Filing(4)
			arcs := []calcArc{{from: 0, to: 1}, {from: 0, to: 2}, {from: 3, to: 1}}
			for i := range arcs {
				arcs[i].weight = weightAlphabet[c.Choose(len(weightAlphabet))]
				arcs[i].order = []string{"2", "10", "2.4", "-1", ""}[c.Choose(5)]
			}
			f.C = []*Linkbase{{File: "c.xml", Links: []*XLink{calcLink(cs, arcs)}}}
			return runP12(f, cs, arcs)
		}}
}

// p12Files splits arcs over links and mixes in other networks.
func p12Files() Family {
	return Family{Name: "files", Bounds: "4 arcs over 2 totals in every file order, split over one or two links at every place, five kinds of foreign content mixed in",
		Gen: func(c *Chooser) Exec {
			f, cs := p12Filing(5)
			arcs := []calcArc{{0, 1, "10", "1"}, {0, 2, "2", "-1"}, {2, 3, "1.5", "1"}, {2, 4, "-1", "0.5"}}
			perm := c.Perm(4)
			split := c.Choose(4)
			mix := c.Choose(6)
			x := calcLink(cs, arcs)
			var sh []Arc
			for _, k := range perm {
				sh = append(sh, x.Arcs[k])
			}
			x.Arcs = sh
			links := []*XLink{x}
			if split > 0 {
				y := linkOver(role1, cs)
				y.Arcs = sh[split:]
				x.Arcs = sh[:split]
				links = append(links, y)
			}
			role2 := "http://e.example/role/2"
			f.Schemas[0].Roles = append(f.Schemas[0].Roles, Role{ID: "r2", URI: role2, Def: "0002 - Two"})
			var second *Linkbase
			switch mix {
			case 1: // another network, arcs turned round
				z := linkOver(role2, cs)
				for _, a := range sh {
					z.Arcs = append(z.Arcs, Arc{Arcrole: arcSI, From: a.To, To: a.From, Order: a.Order, Weight: "1"})
				}
				links = append([]*XLink{z}, links...)
			case 2: // foreign arcroles
				for _, a := range sh {
					x.Arcs = append(append([]Arc{}, x.Arcs...), Arc{Arcrole: arcPC, From: a.To, To: a.From, Order: "0.5", Weight: "1"})
				}
			case 3: // two locators for one concept
				for i := range x.Locs {
					x.Locs = append(x.Locs, Loc{Label: "alias_" + itoa(i), Href: x.Locs[i].Href})
					if i == 4 {
						break
					}
				}
				for _, l := range links {
					for k := range l.Arcs {
						if l.Arcs[k].From == locLabel(cs[2]) && k%2 == 0 {
							l.Arcs[k].From = "alias_2"
						}
					}
				}
			case 4: // another file with a network of its own
				z := linkOver(role2, cs)
				z.Arcs = []Arc{{Arcrole: arcSI, From: locLabel(cs[4]), To: locLabel(cs[0]), Order: "1", Weight: "1"}}
				second = &Linkbase{File: "c0.xml", Links: []*XLink{z}}
			case 5: // another file that refers to the role without links for it
				z := linkOver(role2, cs)
				z.Arcs = []Arc{{Arcrole: arcSI, From: locLabel(cs[4]), To: locLabel(cs[0]), Order: "1", Weight: "1"}}
				second = &Linkbase{File: "c9.xml", Refs: []string{role1, role2}, Links: []*XLink{z}}
			}
			if split > 0 && mix != 3 {
				for _, l := range links {
					l.onlyUsed()
				}
			}
			f.C = []*Linkbase{{File: "c.xml", Links: links}}
			if second != nil {
				f.C = append(f.C, second)
			}
			return runP12(f, cs, arcs)
		}}
}

func init() {
	register(&Check{ID: "P12",
		Rule: "totals, contributors, signs, scales, balances and fact rows equal those computed from the chosen arcs",
		Families: func(thorough bool) []Family {
			fams := []Family{p12Graphs(3, true), p12Sizes(40), p12Alike(), p12Graphs(4, false), p12Attributes(), p12Files(), p12Graphs(4, true), spelled(p12Graphs(3, true))}
			if thorough {
				fams = append(fams, p12Graphs(5, false))
			}
			return fams
		}})
}
