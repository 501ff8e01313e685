package main

// richFiling uses every feature of the format in one small filing.
func richFiling(inline bool) *Filing {
	f, cs := basic(4)
	s := f.Schemas[0]
	cs[1].Type = "num:percentItemType"
	cs[2].Type = "nonnum:textBlockItemType"
	cs[3].Type = "xbrli:stringItemType"
	top := s.add(&Concept{ID: "ent_Top", Name: "Top", Abstract: true, Type: "xbrli:stringItemType"})
	cube := s.add(&Concept{ID: "ent_Cube", Name: "Cube", Abstract: true, Subst: "xbrldt:hypercubeItem", Type: "xbrli:stringItemType"})
	dim := s.add(&Concept{ID: "ent_Dim", Name: "Dim", Abstract: true, Subst: "xbrldt:dimensionItem", Type: "xbrli:stringItemType"})
	dom := s.add(&Concept{ID: "ent_Dom", Name: "Dom", Abstract: true, Type: "nonnum:domainItemType"})
	mem := s.add(&Concept{ID: "ent_Mem", Name: "Mem", Abstract: true, Type: "nonnum:domainItemType"})
	tdom := s.add(&Concept{ID: "ent_TDom", Name: "TDom", Type: "xsd:string"})
	tdim := s.add(&Concept{ID: "ent_TDim", Name: "TDim", Abstract: true, Subst: "xbrldt:dimensionItem", Type: "xbrli:stringItemType", TypedRef: "#ent_TDom"})
	p := linkOver(role1, []*Concept{top, cs[0], cs[1], cs[2], cs[3]})
	for i, c := range cs {
		p.Arcs = append(p.Arcs, Arc{Arcrole: arcPC, From: locLabel(top), To: locLabel(c), Order: itoa(i + 1)})
	}
	f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{p}}}
	d := linkOver(role1, []*Concept{top, cs[0], cs[1], cube, dim, dom, mem})
	d.Arcs = []Arc{
		{Arcrole: arcDM, From: locLabel(top), To: locLabel(cs[0]), Order: "1"},
		{Arcrole: arcDM, From: locLabel(top), To: locLabel(cs[1]), Order: "2"},
		{Arcrole: arcAll, From: locLabel(cs[0]), To: locLabel(cube), Order: "1", Attrs: [][2]string{{"xbrldt:closed", "true"}, {"xbrldt:contextElement", "segment"}}},
		{Arcrole: arcNot, From: locLabel(cs[1]), To: locLabel(cube), Order: "1"},
		{Arcrole: arcHD, From: locLabel(cube), To: locLabel(dim), Order: "1"},
		{Arcrole: arcDD, From: locLabel(dim), To: locLabel(dom), Order: "1", Attrs: [][2]string{{"xbrldt:usable", "false"}, {"xbrldt:targetRole", role1}}},
		{Arcrole: arcDM, From: locLabel(dom), To: locLabel(mem), Order: "1"},
		{Arcrole: arcDef, From: locLabel(dim), To: locLabel(dom), Order: "1"},
	}
	f.D = []*Linkbase{{File: "d.xml", Links: []*XLink{d}}}
	c := linkOver(role1, []*Concept{cs[0], cs[1], taxConcept(8)})
	c.Arcs = []Arc{
		{Arcrole: arcSI, From: locLabel(cs[0]), To: locLabel(cs[1]), Order: "1", Weight: "1"},
		{Arcrole: arcSI, From: locLabel(cs[0]), To: locLabel(taxConcept(8)), Order: "2", Weight: "-1"},
	}
	f.C = []*Linkbase{{File: "c.xml", Links: []*XLink{c}}}
	l := linkOver(roleLink, []*Concept{cs[0], mem})
	for i, x := range []*Concept{cs[0], mem} {
		n := "lab" + itoa(i)
		l.Labels = append(l.Labels, LabelRes{n, roleLabel, "en-US", "Label " + itoa(i)}, LabelRes{n, roleTerse, "es", "Corta " + itoa(i)})
		l.Arcs = append(l.Arcs, Arc{Arcrole: arcLab, From: locLabel(x), To: n})
	}
	f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{l}}}
	f.Inst.Contexts = append(f.Inst.Contexts,
		&Context{ID: "c1", Scheme: scheme1, Entity: "0001", Start: "2020-01-01", End: "2020-12-31", Seg: []Member{{Dim: dim, Mem: mem}}},
		&Context{ID: "c2", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31", Scen: []Member{{Dim: tdim, Typed: tdom, Value: "tv"}}})
	f.Inst.Units = append(f.Inst.Units, &Unit{ID: "per", Num: "iso4217:USD", Den: "xbrli:shares"}, &Unit{ID: "pure", Num: "xbrli:pure"})
	x := f.Inst.Contexts
	f.Inst.Facts = []*Fact{
		{ID: "f0", Concept: cs[0], Ctx: x[0], Unit: "usd", Decimals: "-3", Inner: "-1234000"},
		{ID: "f1", Concept: cs[0], Ctx: x[1], Unit: "per", Decimals: "2", Inner: "1.25"},
		{ID: "f2", Concept: cs[1], Ctx: x[2], Unit: "pure", Decimals: "4", Inner: "0.1234"},
		{ID: "f3", Concept: cs[2], Ctx: x[1], Inner: `&lt;table&gt;&lt;tr&gt;&lt;td colspan="2"&gt;a&lt;/td&gt;&lt;/tr&gt;&lt;/table&gt;`},
		{ID: "f4", Concept: cs[3], Ctx: x[2], Inner: "text"},
		{ID: "f5", Concept: taxConcept(8), Ctx: x[0], Unit: "usd", Nil: "true"},
	}
	f.Inst.FootLinks = []*FootLink{{Title: "t", Locs: []Loc{{"lf", "#f0"}}, Notes: []Note{{"n1", "ln", "en-US", "A note"}}, Arcs: [][2]string{{"lf", "ln"}}}}
	if inline {
		f.Inline = &Inline{Prefixes: [][2]string{{"ent", nsEnt}, {"tax", nsTax}}, Body: `<img src="i.png" alt="a"/>`}
		for _, y := range f.Inst.Facts {
			f.Inline.Elems = append(f.Inline.Elems, InlineElem{Numeric: y.Unit != "", Name: y.Concept.qname(), Ctx: y.ctx(), ID: y.ID, Text: "z"})
		}
		f.Extra = map[string][]byte{"i.png": []byte("\x89PNG\r\n\x1a\nxx")}
	}
	return f
}

const roleLink = "http://www.xbrl.org/2003/role/link"

// wideFiling has at least two of everything, so that every collection of the
// loaded filing has an order.
func wideFiling(inline bool) *Filing {
	f := richFiling(inline)
	s := f.Schemas[0]
	s.Imports = append(s.Imports, Import{nsEnt + "2", "e2.xsd"})
	s2 := newSchema("e2.xsd", nsEnt+"2")
	s2.NoAuto = true
	s2.Roles = []Role{{ID: "r2", URI: role2, Def: "0002 - Two"}}
	f.Schemas = append(f.Schemas, s2)
	a := s2.add(&Concept{ID: "ent2_A", Name: "A"})
	b := s2.add(&Concept{ID: "ent2_B", Name: "B", Type: "xbrli:stringItemType"})
	dim := s2.add(&Concept{ID: "ent2_Dim", Name: "Dim", Abstract: true, Subst: "xbrldt:dimensionItem", Type: "xbrli:stringItemType"})
	mem := s2.add(&Concept{ID: "ent2_Mem", Name: "Mem", Abstract: true, Type: "nonnum:domainItemType"})
	mem2 := s2.add(&Concept{ID: "ent2_Mem2", Name: "Mem2", Abstract: true, Type: "nonnum:domainItemType"})
	tdom := s2.add(&Concept{ID: "ent2_TDom", Name: "TDom", Type: "xsd:string"})
	tdim := s2.add(&Concept{ID: "ent2_TDim", Name: "TDim", Abstract: true, Subst: "xbrldt:dimensionItem", Type: "xbrli:stringItemType", TypedRef: "#ent2_TDom"})
	c0, c1 := s.Concepts[0], s.Concepts[1]
	var cube, dim1, mem1 *Concept
	for _, c := range s.Concepts {
		switch c.Name {
		case "Cube":
			cube = c
		case "Dim":
			dim1 = c
		case "Mem":
			mem1 = c
		}
	}
	over := func(role string) *XLink {
		l := linkOver(role, []*Concept{a, b, c0, c1})
		l.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(a), To: locLabel(b), Order: "1"}, {Arcrole: arcPC, From: locLabel(a), To: locLabel(c0), Order: "2"}, {Arcrole: arcPC, From: locLabel(a), To: locLabel(c1), Order: "3"}}
		return l
	}
	f.P = append(f.P, &Linkbase{File: "p2.xml", Links: []*XLink{over(role2)}}, &Linkbase{File: "p3.xml", Links: []*XLink{over(role1)}})
	d := func(role string) *XLink {
		l := linkOver(role, []*Concept{a, c0, c1, cube, dim, dim1, mem, mem1, mem2})
		l.Arcs = []Arc{
			{Arcrole: arcDM, From: locLabel(a), To: locLabel(c0), Order: "1"},
			{Arcrole: arcDM, From: locLabel(a), To: locLabel(c1), Order: "2"},
			{Arcrole: arcAll, From: locLabel(a), To: locLabel(cube), Order: "1"},
			{Arcrole: arcHD, From: locLabel(cube), To: locLabel(dim), Order: "1"},
			{Arcrole: arcHD, From: locLabel(cube), To: locLabel(dim1), Order: "2"},
			{Arcrole: arcDD, From: locLabel(dim), To: locLabel(mem), Order: "1"},
			{Arcrole: arcDD, From: locLabel(dim1), To: locLabel(mem1), Order: "1"},
			{Arcrole: arcDM, From: locLabel(mem), To: locLabel(mem2), Order: "1"},
		}
		return l
	}
	f.D = append(f.D, &Linkbase{File: "d2.xml", Links: []*XLink{d(role2)}}, &Linkbase{File: "d3.xml", Links: []*XLink{d(role1)}})
	calc := func(role string) *XLink {
		l := linkOver(role, []*Concept{a, c0, taxConcept(9)})
		l.Arcs = []Arc{{Arcrole: arcSI, From: locLabel(a), To: locLabel(c0), Order: "1", Weight: "1"}, {Arcrole: arcSI, From: locLabel(a), To: locLabel(taxConcept(9)), Order: "2", Weight: "-1"}}
		return l
	}
	f.C = append(f.C, &Linkbase{File: "c2.xml", Links: []*XLink{calc(role2)}}, &Linkbase{File: "c3.xml", Links: []*XLink{calc(role1)}})
	l := linkOver(roleLink, []*Concept{a, b, dim, mem, mem2})
	for i, x := range []*Concept{a, b, dim, mem, mem2} {
		n := "lab" + itoa(i)
		l.Labels = append(l.Labels, LabelRes{n, roleLabel, "en-US", "Wide " + itoa(i)}, LabelRes{n, roleLabel, "es", "Ancha " + itoa(i)},
			LabelRes{n, roleTerse, "en-US", "W " + itoa(i)}, LabelRes{n, roleVerbose, "es", "Ancha del todo " + itoa(i)})
		l.Arcs = append(l.Arcs, Arc{Arcrole: arcLab, From: locLabel(x), To: n})
	}
	f.L = append(f.L, &Linkbase{File: "l2.xml", Links: []*XLink{l}})
	seg := []Member{{Dim: dim, Mem: mem}, {Dim: dim1, Mem: mem1}, {Dim: tdim, Typed: tdom, Value: "v1"}}
	f.Inst.Contexts = append(f.Inst.Contexts,
		&Context{ID: "c3", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31", Seg: seg},
		&Context{ID: "c4", Scheme: scheme1, Entity: "0001", Instant: "2020-12-31", Scen: seg[:2]},
		&Context{ID: "c5", Scheme: scheme1, Entity: "0002", Instant: "2020-12-31", Seg: []Member{{Dim: dim, Mem: mem2}}},
		&Context{ID: "c6", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31", Seg: []Member{{Dim: tdim, Typed: tdom, Value: "v2"}, {Dim: dim, Mem: mem2}}})
	x := f.Inst.Contexts
	facts := []*Fact{
		{ID: "g0", Concept: a, Ctx: x[3], Unit: "usd", Decimals: "0", Inner: "10"},
		{ID: "g1", Concept: a, Ctx: x[4], Unit: "usd", Decimals: "0", Inner: "20"},
		{ID: "g2", Concept: a, Ctx: x[5], Unit: "usd", Decimals: "0", Inner: "30"},
		{ID: "g3", Concept: c0, Ctx: x[3], Unit: "usd", Decimals: "0", Inner: "40"},
		{ID: "g4", Concept: b, Ctx: x[6], Inner: "wide text"},
		{ID: "g5", Concept: taxConcept(9), Ctx: x[4], Unit: "usd", Decimals: "0", Inner: "50"},
	}
	f.Inst.Facts = append(f.Inst.Facts, facts...)
	foot := f.Inst.FootLinks[0]
	foot.Locs = append(foot.Locs, Loc{"lg", "#g0"})
	foot.Notes = append(foot.Notes, Note{"n2", "ln2", "en-US", "Another note"})
	foot.Arcs = append(foot.Arcs, [2]string{"lg", "ln"}, [2]string{"lg", "ln2"}, [2]string{"lf", "ln2"})
	if inline {
		f.Inline.Prefixes = append(f.Inline.Prefixes, [2]string{"ent2", nsEnt + "2"})
		for _, y := range facts {
			f.Inline.Elems = append(f.Inline.Elems, InlineElem{Numeric: y.Unit != "", Name: y.Concept.qname(), Ctx: y.ctx(), ID: y.ID, Text: "z"})
		}
	}
	return f
}

// clashingFiling says several things twice in different ways: labels of one
// role and language, titles of one role, facts of one concept and context,
// footnotes of one id and units of one id.
func clashingFiling(inline bool) *Filing {
	f := richFiling(inline)
	s := f.Schemas[0]
	s.Imports = append(s.Imports, Import{nsEnt + "2", "e2.xsd"})
	s2 := newSchema("e2.xsd", nsEnt+"2")
	s2.NoAuto = true
	s2.Roles = []Role{{ID: "r9", URI: role1, Def: "0000 - Another title"}}
	s2.add(&Concept{ID: "ent2_A", Name: "A"})
	f.Schemas = append(f.Schemas, s2)
	for i := 2; i < 5; i++ {
		l := &XLink{Role: f.L[0].Links[0].Role, Locs: f.L[0].Links[0].Locs, Arcs: f.L[0].Links[0].Arcs}
		for _, x := range f.L[0].Links[0].Labels {
			x.Text += " " + itoa(i)
			l.Labels = append(l.Labels, x)
		}
		f.L = append(f.L, &Linkbase{File: "l" + itoa(i) + ".xml", Links: []*XLink{l}})
	}
	l := f.P[0].Links[0]
	p := &XLink{Role: role1, Locs: l.Locs}
	for i, a := range l.Arcs {
		a.Order = itoa(9 - i)
		p.Arcs = append(p.Arcs, a)
	}
	f.P = append(f.P, &Linkbase{File: "p2.xml", Links: []*XLink{p}})
	for _, x := range f.Inst.Facts[:3] {
		y := *x
		y.ID, y.Inner = x.ID+"b", "7"
		f.Inst.Facts = append(f.Inst.Facts, &y)
	}
	f.Inst.Units = append(f.Inst.Units, &Unit{ID: "usd", Num: "iso4217:EUR"})
	f.Inst.FootLinks = append(f.Inst.FootLinks, &FootLink{Title: "t", Locs: []Loc{{"lf", "#f0"}}, Notes: []Note{{"n1", "ln", "en-US", "Another text"}}, Arcs: [][2]string{{"lf", "ln"}}})
	return f
}

// withGap lets a filing refer to a taxonomy that is there and to one that is not.
func withGap(f *Filing) *Filing {
	s := f.Schemas[0]
	s.Imports = append(s.Imports, Import{nsGap, urlGap})
	gap := &Concept{Name: "G", ns: nsGap, ID: "G", schemaLoc: urlGap}
	l := f.P[0].Links[0]
	for i, c := range []*Concept{gap, taxConcept(0)} {
		l.Locs = append(l.Locs, Loc{locLabel(c), c.href()})
		l.Arcs = append(l.Arcs, Arc{Arcrole: arcPC, From: locLabel(s.Concepts[0]), To: locLabel(c), Order: itoa(i + 2)})
		f.addFact(c, f.Inst.Contexts[0])
	}
	return f
}

const (
	nsGap  = nsEnt + "3"
	urlGap = "http://t.example/gap/gap.xsd"
)
