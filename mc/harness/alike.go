package main

import "fmt"

// Families whose identifiers look alike: they differ in case, one begins or
// ends with the other, or they differ by a mark or a zero.

var alikes = []string{"ab", "aB", "AB", "abc", "xab", "a", "ab-", "a_b", "_ab", "ab0", "ab00"}

func alikeText() string {
	return fmt.Sprintf("every ordered pair of %d names that differ in case, a part, a mark or a zero", len(alikes))
}

// chooseAlike picks two different names.
func chooseAlike(c *Chooser) [2]string {
	i, j := c.Choose(len(alikes)), c.Choose(len(alikes)-1)
	if j >= i {
		j++
	}
	return [2]string{alikes[i], alikes[j]}
}

// twoSchemas gives two schemas in files of the chosen names, the second
// imported by the first, and one concept of the same name and id in each.
func twoSchemas(f *Filing, names [2]string) [2]*Concept {
	s := f.Schemas[0]
	s.File = names[0] + ".xsd"
	for _, c := range s.Concepts {
		c.schemaLoc = s.File
	}
	s2 := newSchema(names[1]+".xsd", nsEnt+"2")
	s2.NoAuto = true
	s.Imports = append(s.Imports, Import{s2.NS, s2.File})
	f.Schemas = append(f.Schemas, s2)
	return [2]*Concept{s.add(&Concept{ID: "q_Same", Name: "Same"}), s2.add(&Concept{ID: "q_Same", Name: "Same"})}
}

// alikeGrids places facts of two concepts in two contexts.
func alikeGrids(check func(*Filing) func(string, grid) string) Family {
	return Family{Name: "alike", Bounds: alikeText() + " as context ids, names or ids of row concepts (one of them abstract or none), entity identifiers, schemes or schema files; every set of facts of 2 concepts in 2 contexts",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(7)
			names := chooseAlike(c)
			f, cs := basic(3)
			total, a, b := cs[0], cs[1], cs[2]
			x := []*Context{
				{ID: "c0", Scheme: scheme1, Entity: "0001", Instant: "2020-12-31"},
				{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2019-12-31"},
			}
			f.Inst.Contexts = x
			switch kind {
			case 0:
				x[0].ID, x[1].ID = names[0], names[1]
			case 1:
				a.Name, b.Name = names[0], names[1]
			case 2, 6:
				a.ID, b.ID = names[0], names[1]
				a.Abstract = kind == 6
			case 3:
				x[0].Entity, x[1].Entity = names[0], names[1]
			case 4:
				x[0].Scheme, x[1].Scheme = "http://s.example/"+names[0], "http://s.example/"+names[1]
			case 5:
				two := twoSchemas(f, names)
				a, b = two[0], two[1]
			}
			threeGrids(f, total, a, b)
			if kind == 5 {
				// Labels of locators are local to their link.
				for _, l := range []*XLink{f.P[0].Links[0], f.D[0].Links[0], f.C[0].Links[0]} {
					l.Locs[2].Label += "2"
					l.Arcs[1].To += "2"
				}
			}
			for i, k := range []*Concept{a, b} {
				for j, y := range x {
					if c.Bool() {
						f.Inst.Facts = append(f.Inst.Facts, &Fact{Concept: k, Ctx: y, Inner: fmt.Sprintf("v%d.%d", i, j)})
					}
				}
			}
			return decideGrids(f, 3, check(f))
		}}
}

func p11Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as context ids, names or ids of dimensions, of members, of typed domains, as typed values or schema files of dimensions; 2 contexts each with one or both of 2 dimensions",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(9)
			names := chooseAlike(c)
			f, cs := basic(3)
			s := f.Schemas[0]
			mk := func(n string) *Concept { return s.add(&Concept{ID: "ent_" + n, Name: n}) }
			dims := [2]*Concept{mk("D0"), mk("D1")}
			mems := [2]*Concept{mk("M0"), mk("M1")}
			doms := [2]*Concept{mk("T0"), mk("T1")}
			values := [2]string{"v0", "v1"}
			typed := kind >= 5 && kind < 8
			x := []*Context{
				{ID: "c0", Scheme: scheme1, Entity: "0001", Instant: "2020-12-31"},
				{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2019-12-31"},
			}
			f.Inst.Contexts = x
			for i := range names {
				switch kind {
				case 0:
					x[i].ID = names[i]
				case 1:
					dims[i].Name = names[i]
				case 2:
					dims[i].ID = names[i]
				case 3:
					mems[i].Name = names[i]
				case 4:
					mems[i].ID = names[i]
				case 5:
					doms[i].Name = names[i]
				case 6:
					doms[i].ID = names[i]
				case 7:
					values[i] = names[i]
				}
			}
			if kind == 8 {
				dims = twoSchemas(f, names)
			}
			if typed {
				for i, d := range dims {
					d.TypedRef = "#" + doms[i].ID
				}
			}
			threeGrids(f, cs[0], cs[1], cs[2])
			for i, y := range x {
				with := 1 + c.Choose(3)
				swap := c.Choose(2)
				for d := range dims {
					if with&(1<<d) == 0 {
						continue
					}
					m := Member{Dim: dims[d]}
					if typed {
						m.Typed, m.Value = doms[d], values[(d+swap)%2]
					} else {
						m.Mem = mems[(d+swap)%2]
					}
					y.put(d == 1, m)
				}
				f.Inst.Facts = append(f.Inst.Facts, &Fact{Concept: cs[1], Ctx: y, Inner: "v" + itoa(i)})
			}
			return decideGrids(f, 3, f.checkMembers)
		}}
}

// p11Values takes typed values with white space and marks inside.
func p11Values() Family {
	values := []string{"a b", "a  b", "a\tb", "a\nb", "01", "1", "1.0", "A", "a", "-", "0", "true", "null", "<", "&amp;", "é", "é", "a/b", "#a", "ent:C0"}
	return Family{Name: "values", Bounds: fmt.Sprintf("every pair of %d typed values (inner white space, zeros, case, marks) of one dimension in 2 contexts", len(values)),
		Gen: func(c *Chooser) Exec {
			w := newP11World(2)
			scen := c.Bool()
			for _, x := range w.f.Inst.Contexts {
				x.put(scen, Member{Dim: w.typed[0], Typed: w.domains[0], Value: values[c.Choose(len(values))]})
			}
			return decideGrids(w.f, 3, w.f.checkMembers)
		}}
}

func p16Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as fact ids, ids or labels of footnotes, labels of locators or context ids; every attachment of 2 facts to 2 footnotes",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(5)
			names := chooseAlike(c)
			f, cs := basic(3)
			threeGrids(f, cs[0], cs[1], cs[2])
			f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31"})
			l := &FootLink{Title: "t"}
			locs, labels := [2]string{"l0", "l1"}, [2]string{"n0", "n1"}
			var facts []*Fact
			for i := range names {
				x := &Fact{ID: "f" + itoa(i), Concept: cs[1], Ctx: f.Inst.Contexts[i], Inner: "v" + itoa(i)}
				n := Note{ID: "fn" + itoa(i), Lang: "en-US", Inner: "note " + itoa(i)}
				switch kind {
				case 0:
					x.ID = names[i]
				case 1:
					n.ID = names[i]
				case 2:
					labels[i] = names[i]
				case 3:
					locs[i] = names[i]
				case 4:
					x.Ctx.ID = names[i]
				}
				n.Label = labels[i]
				facts = append(facts, x)
				l.Notes = append(l.Notes, n)
				l.Locs = append(l.Locs, Loc{locs[i], "#" + x.ID})
			}
			f.Inst.Facts = facts
			at := attachments{}
			for i, x := range facts {
				for k := range l.Notes {
					if c.Bool() {
						l.Arcs = append(l.Arcs, [2]string{locs[i], labels[k]})
						at[x] = append(at[x], l.Notes[k].Inner)
					}
				}
			}
			f.Inst.FootLinks = []*FootLink{l}
			return decideGrids(f, 3, func(entity string, g grid) string { return f.checkFootnotes(entity, g, at) })
		}}
}

// p18Alike has units whose ids look alike, one of them perhaps missing.
func p18Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as unit ids, both or one of them declared, in either order, or as ids of a decimal and a percentage, over 3 pairs of measures",
		Gen: func(c *Chooser) Exec {
			names := chooseAlike(c)
			declared := 1 + c.Choose(4)
			order := c.Bool()
			ms := [][2]string{{"iso4217:USD", "iso4217:EUR"}, {"iso4217:EUR", "xbrli:shares"}, {"utr:m", "utrx:m"}}[c.Choose(3)]
			batch := []p18Fact{
				{Type: "xbrli:decimalItemType", Value: "12", Decimals: "0", Num: ms[0], Ref: true},
				{Type: "xbrli:decimalItemType", Value: "-34", Decimals: "0", Num: ms[1], Ref: true},
			}
			id := func(i int) string { return names[i] }
			var conceptID func(i int) string
			if declared == 4 {
				declared = 3
				id, conceptID = func(i int) string { return "u" + itoa(i) }, id
				k := 0
				if order {
					k = 1
				}
				batch[k].Type = "num:percentItemType"
			}
			for i := range batch {
				if declared&(1<<i) == 0 {
					batch[i].Num = ""
				}
			}
			var rev []int
			if order {
				rev = []int{1}
			}
			return runP18Ids(batch, rev, id, conceptID, func(x p18Fact, _ Expr, all map[string]Expr) string {
				for lang, e := range all {
					if msg := checkUnit(x, e); msg != "" {
						return lang + ": " + msg
					}
				}
				return ""
			})
		}}
}

// identifiers adds numbers with and without zeros in front.
var identifiers = append([]string{"1", "001", "10", "01", "1.0"}, alikes...)

const alikeScheme = "http://s.example/"

func init() {
	registeredNames[alikeScheme+"same"] = map[string]string{}
	for i, n := range identifiers {
		if i%2 == 0 {
			registeredNames[alikeScheme+"same"][n] = "Registered " + n
			registeredNames[alikeScheme+n] = map[string]string{"0001": "Registered there " + n}
		}
	}
}

func p20Alike() Family {
	titles := append([]string{" ab", "ab ", "ab  ", "a b", "a  b"}, alikes...)
	return Family{Name: "alike", Bounds: alikeText() + " as entity identifiers, schemes, role URIs, role ids or titles, identifiers with zeros in front, titles with white space inside and around them, every other one registered",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(5)
			var names [2]string
			switch kind {
			case 0:
				names = [2]string{identifiers[c.Choose(len(identifiers))], identifiers[c.Choose(len(identifiers))]}
			case 4:
				names = [2]string{titles[c.Choose(len(titles))], titles[c.Choose(len(titles))]}
			default:
				names = chooseAlike(c)
			}
			ents := [2][2]string{{scheme1, "0001"}, {scheme1, "0002"}}
			roles := []Role{{"r1", role1, "T1"}, {"r2", "http://e.example/role/2", "T2"}}
			for i, n := range names {
				switch kind {
				case 0:
					ents[i] = [2]string{alikeScheme + "same", n}
				case 1:
					ents[i] = [2]string{alikeScheme + n, "0001"}
				case 2:
					roles[i].URI, roles[i].Def = "http://e.example/"+n, "T"
				case 3:
					roles[i].ID = n
				case 4:
					roles[i].Def = n
				}
			}
			f, cs := basic(2)
			s := f.Schemas[0]
			root := s.add(&Concept{ID: "ent_Root", Name: "Root", Abstract: true})
			s.Roles = roles
			p := &Linkbase{File: "p.xml"}
			for i, r := range roles {
				x := linkOver(r.URI, []*Concept{root, cs[i]})
				x.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(root), To: locLabel(cs[i]), Order: "1"}}
				p.Links = append(p.Links, x)
			}
			f.P = []*Linkbase{p}
			f.Inst.Contexts = nil
			for j, k := range ents {
				x := &Context{ID: "c" + itoa(j), Scheme: k[0], Entity: k[1], Instant: "2020-12-31"}
				f.Inst.Contexts = append(f.Inst.Contexts, x)
				for i, k := range cs {
					f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: fmt.Sprintf("f%d-%d", j, i), Concept: k, Ctx: x, Inner: fmt.Sprintf("v%d.%d", j, i)})
				}
			}
			return func(e *Env) string {
				e.names(registeredNames)
				return decideCatalog(e, f, cs, roles, roles, registeredNames)
			}
		}}
}

func p21Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as context ids, concept names, concept ids, prefixes or fact ids; every set of facts of 2 concepts in 2 contexts, the others not reported or not in the document, all the names asked for",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(5)
			names := chooseAlike(c)
			f, cs := basic(2)
			s2 := newSchema("e2.xsd", nsEnt+"2")
			f.Schemas[0].Imports = append(f.Schemas[0].Imports, Import{s2.NS, s2.File})
			f.Schemas = append(f.Schemas, s2)
			f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c1", Scheme: scheme1, Entity: "0002", Instant: "2021-12-31"})
			in := &Inline{Prefixes: [][2]string{{"q", nsEnt}, {"z", nsEnt + "2"}}}
			prefix := [2]string{"q", "q"}
			ids := func(i, j int) string { return fmt.Sprintf("f%d%d", i, j) }
			asked := map[int][]string{}
			for i, n := range names {
				switch kind {
				case 0:
					f.Inst.Contexts[i].ID = n
				case 1:
					cs[i].Name = n
				case 2:
					cs[i].ID = n
				}
			}
			switch kind {
			case 0:
				asked[0] = alikes
			case 1:
				for _, n := range alikes {
					asked[1] = append(asked[1], "q:"+n)
				}
			case 3:
				cs[1] = s2.add(&Concept{ID: "ent2_C0", Name: "C0"})
				in.Prefixes = [][2]string{{names[0], nsEnt}, {names[1], nsEnt + "2"}}
				prefix = names
				for _, n := range alikes {
					asked[1] = append(asked[1], n+":C0")
				}
			case 4:
				ids = func(i, j int) string { return names[i] + itoa(j) }
			}
			f.Inline = in
			var used []docName
			usedNames := map[string]bool{}
			untagged := c.Bool()
			for i, k := range cs {
				name := prefix[i] + ":" + k.Name
				for j, x := range f.Inst.Contexts {
					tagged := c.Bool()
					if tagged || untagged {
						f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: ids(i, j), Concept: k, Ctx: x, Inner: fmt.Sprintf("v%d.%d", i, j)})
					}
					if !tagged {
						continue
					}
					in.Elems = append(in.Elems, InlineElem{Numeric: i == j, Name: name, Ctx: x.ID, ID: ids(i, j), Text: "t"})
					used = append(used, docName{name, k})
					usedNames[name] = true
				}
			}
			ctxs := []string{f.Inst.Contexts[0].ID, f.Inst.Contexts[1].ID}
			for _, n := range asked[0] {
				if n != names[0] && n != names[1] {
					ctxs = append(ctxs, n)
				}
			}
			var absent []string
			for _, n := range asked[1] {
				if !usedNames[n] {
					absent = append(absent, n)
				}
			}
			return decideAnswers(f, used, absent, ctxs, nil, attachments{})
		}}
}

func p15Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as concept ids, labels of locators, labels of resources or schema files; labels of 2 concepts in 2 languages, each there or not",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(4)
			names := chooseAlike(c)
			f, cs := basic(3)
			total, a, b := cs[0], cs[1], cs[2]
			switch kind {
			case 0:
				a.ID, b.ID = names[0], names[1]
			case 3:
				two := twoSchemas(f, names)
				a, b = two[0], two[1]
			}
			threeGrids(f, total, a, b)
			if kind == 3 {
				for _, l := range []*XLink{f.P[0].Links[0], f.D[0].Links[0], f.C[0].Links[0]} {
					l.Locs[2].Label += "2"
					l.Arcs[1].To += "2"
				}
			}
			for i, k := range []*Concept{total, a, b} {
				f.Inst.Facts = append(f.Inst.Facts, &Fact{Concept: k, Ctx: f.Inst.Contexts[0], Inner: "v" + itoa(i)})
			}
			x := &XLink{Role: roleLink}
			var as []assigned
			for i, k := range []*Concept{a, b} {
				loc, lab := "loc"+itoa(i), "lab"+itoa(i)
				switch kind {
				case 1:
					loc = names[i]
				case 2:
					lab = names[i]
				}
				x.Locs = append(x.Locs, Loc{loc, k.href()})
				any := false
				for j, lang := range []string{"en-US", "es"} {
					if c.Bool() {
						any = true
						t := fmt.Sprintf("L%d.%d", i, j)
						x.Labels = append(x.Labels, LabelRes{lab, roleLabel, lang, t})
						as = append(as, assigned{k, roleLabel, lang, t})
					}
				}
				if any {
					x.Arcs = append(x.Arcs, Arc{Arcrole: arcLab, From: loc, To: lab, Order: "1"})
				}
			}
			f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{x}}}
			return runP15(f, as)
		}}
}

// alikeNetworks has two networks under two roles that are both looked at.
// build gives the link of a network and the judge of its rendering.
func alikeNetworks(place func(*Filing, []*Linkbase), build func(cs []*Concept, i int) ([]Arc, func(*Filing, *Network) string)) Family {
	return Family{Name: "alike", Bounds: alikeText() + " as role URIs, role ids, linkbase files, concept ids, labels of locators or schema files; 2 networks in either order",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(6)
			names := chooseAlike(c)
			swap := c.Bool()
			f, cs := basic(4)
			cs[1].Balance, cs[2].Balance = "debit", "credit"
			switch kind {
			case 3:
				cs[1].ID, cs[2].ID = names[0], names[1]
			case 5:
				two := twoSchemas(f, names)
				cs[1], cs[2] = two[0], two[1]
				cs[1].Balance, cs[2].Balance = "debit", "credit"
			}
			roles := []Role{{"r1", role1, "T1"}, {"r2", "http://e.example/role/2", "T2"}}
			files := [2]string{"x0.xml", "x1.xml"}
			for i, n := range names {
				switch kind {
				case 0:
					roles[i].URI = "http://e.example/" + n
				case 1:
					roles[i].ID = n
				case 2:
					files[i] = n + ".xml"
				}
			}
			f.Schemas[0].Roles = roles
			for i, k := range cs {
				f.Inst.Facts = append(f.Inst.Facts, &Fact{Concept: k, Ctx: f.Inst.Contexts[0], Inner: "v" + itoa(i)})
			}
			var lbs []*Linkbase
			var judges []func(*Filing, *Network) string
			for i, r := range roles {
				arcs, judge := build(cs, i)
				judges = append(judges, judge)
				// Arcs name concepts by number.
				x := &XLink{Role: r.URI}
				label := func(k string) string {
					switch {
					case kind == 4 && k == "1":
						return names[0]
					case kind == 4 && k == "2":
						return names[1]
					}
					return "loc" + k
				}
				for k, con := range cs {
					x.Locs = append(x.Locs, Loc{label(itoa(k)), con.href()})
				}
				for _, a := range arcs {
					a.From, a.To = label(a.From), label(a.To)
					x.Arcs = append(x.Arcs, a)
				}
				x.onlyUsed()
				lbs = append(lbs, &Linkbase{File: files[i], Links: []*XLink{x}})
			}
			if swap {
				lbs[0], lbs[1] = lbs[1], lbs[0]
			}
			if kind != 2 {
				lbs = []*Linkbase{{File: "x.xml", Links: []*XLink{lbs[0].Links[0], lbs[1].Links[0]}}}
			}
			place(f, lbs)
			return func(e *Env) string {
				h, err := e.open(f)
				if err != nil {
					return "loading failed: " + err.Error()
				}
				for i, r := range roles {
					n, err := e.network(h, scheme1+"/0001", r.URI)
					if err != nil {
						return "rendering failed: " + err.Error()
					}
					if msg := judges[i](f, n); msg != "" {
						return "network of " + r.URI + ": " + msg
					}
				}
				return ""
			}
		}}
}

func p08Alike() Family {
	return alikeNetworks(func(f *Filing, l []*Linkbase) { f.P = l }, func(cs []*Concept, i int) ([]Arc, func(*Filing, *Network) string) {
		t := treeSpec{parent: []int{-1, 0, 0, 2}, order: []string{"", "2", "1", "1"}}
		if i == 1 {
			t = treeSpec{parent: []int{1, -1, 3, 1}, order: []string{"1", "", "1", "2"}}
		}
		var arcs []Arc
		for k, p := range t.parent {
			if p >= 0 {
				arcs = append(arcs, Arc{Arcrole: arcPC, From: itoa(p), To: itoa(k), Order: t.order[k]})
			}
		}
		return arcs, func(_ *Filing, n *Network) string { return sameBlocks(n.presentationRows(), t.blocks(cs)) }
	})
}

func p12Alike() Family {
	return alikeNetworks(func(f *Filing, l []*Linkbase) { f.C = l }, func(cs []*Concept, i int) ([]Arc, func(*Filing, *Network) string) {
		calc := []calcArc{{0, 1, "1", "1"}, {0, 2, "2", "-1"}, {1, 3, "1", "1"}}
		if i == 1 {
			calc = []calcArc{{2, 1, "1", "-1"}, {2, 3, "2", "1"}}
		}
		var arcs []Arc
		for _, a := range calc {
			arcs = append(arcs, Arc{Arcrole: arcSI, From: itoa(a.from), To: itoa(a.to), Order: a.order, Weight: a.weight})
		}
		return arcs, func(f *Filing, n *Network) string {
			if msg := n.checkTotals(cs, calc); msg != "" {
				return msg
			}
			for _, g := range n.grids() {
				if msg := f.checkCells(scheme1+"/0001", g); msg != "" {
					return msg
				}
			}
			return ""
		}
	})
}

func p13Alike() Family {
	return alikeNetworks(func(f *Filing, l []*Linkbase) { f.D = l }, func(cs []*Concept, i int) ([]Arc, func(*Filing, *Network) string) {
		arcs := []Arc{
			{Arcrole: arcAll, From: "0", To: "1", Order: "1"},
			{Arcrole: arcHD, From: "1", To: "2", Order: "2"},
			{Arcrole: arcDD, From: "2", To: "3", Order: "1"},
		}
		if i == 1 {
			arcs = []Arc{
				{Arcrole: arcDM, From: "3", To: "2", Order: "1"},
				{Arcrole: arcNot, From: "3", To: "1", Order: "2"},
			}
		}
		return arcs, func(_ *Filing, n *Network) string {
			return n.checkRelations(arcs, func(l string) string { return cs[int(l[0]-'0')].href() })
		}
	})
}

func p14Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as role URIs, ids of items, of hypercubes, of dimensions, of members, of an item and a domain, of an item and a member or of a dimension and a domain; another network in the first or second place, 3 attachments",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(8)
			names := chooseAlike(c)
			first := c.Bool()
			w := newDimWorld(3, 2, 2)
			w.items[1] = w.f.Schemas[0].Concepts[1]
			w.itemTree = treeSpec{parent: []int{-1, 0, 0}, order: []string{"", "1", "2"}}
			for k := range w.cubes {
				w.cubeDims[k][k] = true
			}
			w.defaults[0] = w.domains[0][1]
			switch c.Choose(3) {
			case 0:
				w.incl[1][0], w.incl[2][1] = true, true
			case 1:
				w.incl[1][0], w.exc[2][1] = true, true
			case 2:
				w.incl[1][0], w.incl[1][1], w.exc[2][0] = true, true, true
			}
			roles := [2]string{role1, "http://e.example/role/2"}
			for i, n := range names {
				switch kind {
				case 0:
					roles[i] = "http://e.example/" + n
				case 1:
					w.items[1+i].ID = n
				case 2:
					w.cubes[i].ID = n
				case 3:
					w.dims[i].ID = n
				case 4:
					w.domains[0][1+i].ID = n
				case 5:
					[]*Concept{w.items[0], w.domains[0][0]}[i].ID = n
				case 6:
					[]*Concept{w.items[1], w.domains[1][1]}[i].ID = n
				case 7:
					[]*Concept{w.dims[0], w.domains[1][0]}[i].ID = n
				}
			}
			w.f.Schemas[0].Roles = []Role{{"r1", roles[0], "T1"}, {"r2", roles[1], "T2"}}
			x := linkOver(roles[0], w.concepts())
			x.Arcs = w.arcs()
			y := linkOver(roles[1], w.concepts())
			y.Arcs = []Arc{
				{Arcrole: arcDM, From: locLabel(w.items[2]), To: locLabel(w.items[1]), Order: "1"},
				{Arcrole: arcAll, From: locLabel(w.items[2]), To: locLabel(w.cubes[0]), Order: "1"},
				{Arcrole: arcDM, From: locLabel(w.domains[1][0]), To: locLabel(w.domains[0][0]), Order: "1"},
			}
			y.onlyUsed()
			links := []*XLink{x, y}
			if first {
				links = []*XLink{y, x}
			}
			w.f.D = []*Linkbase{{File: "d.xml", Links: links}}
			return func(e *Env) string {
				h, err := e.open(w.f)
				if err != nil {
					return "loading failed: " + err.Error()
				}
				n, err := e.network(h, scheme1+"/0001", roles[0])
				if err != nil {
					return "rendering failed: " + err.Error()
				}
				return w.check(n)
			}
		}}
}
