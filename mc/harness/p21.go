package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
)

// FactAnswer is the decoded answer for one fact.
type FactAnswer struct {
	Href    string
	Labels  LabelPack
	Context struct {
		Period               LangPack
		VoidQuadrant         []*VoidCell
		ContextualMemberGrid [][]*MemberCell
	}
	Expression map[string]Expr
	Footnotes  []string
}

// askFact asks for a fact; a nil answer is an empty one.
func (e *Env) askFact(h *hydratables.Hydratable, name, ctx string) (*FactAnswer, error) {
	b, err := renderables.MarshalExpressable(name, ctx, h)
	if err != nil {
		return nil, err
	}
	e.outcome += string(b)
	if len(b) == 0 || string(b) == "null" {
		return nil, nil
	}
	var a FactAnswer
	if err := json.Unmarshal(b, &a); err != nil {
		return nil, err
	}
	return &a, nil
}

// checkAnswer judges the answer for a fact.
func (f *Filing) checkAnswer(a *FactAnswer, x *Fact, as []assigned, at attachments) string {
	if a == nil {
		return "empty answer"
	}
	if a.Href != x.Concept.href() {
		return fmt.Sprintf("the answer is about %s, expected %s", a.Href, x.Concept.href())
	}
	if want := packFor(a.Href, as); !reflect.DeepEqual(a.Labels, want) {
		return fmt.Sprintf("labels %v, expected %v", a.Labels, want)
	}
	if a.Context.Period[langPlain] != x.Ctx.period() {
		return fmt.Sprintf("period %q, expected %q", a.Context.Period[langPlain], x.Ctx.period())
	}
	for _, pack := range a.Labels {
		for lang := range pack {
			want, ok := headingIn(lang, x.Ctx)
			if ok && a.Context.Period[lang] != want {
				return fmt.Sprintf("period in %q is %q, expected %q", lang, a.Context.Period[lang], want)
			}
		}
	}
	if msg := f.checkMemberArea("answer", []*Context{x.Ctx}, a.Context.VoidQuadrant, a.Context.ContextualMemberGrid); msg != "" {
		return msg
	}
	e, ok := a.Expression[langPlain]
	if !ok {
		return "no value in plain form"
	}
	switch {
	case x.Nil != "":
		if e != (Expr{Core: "nil"}) {
			return fmt.Sprintf("nil fact answered with %v", e)
		}
	case x.Decimals == "":
		if e != (Expr{Core: x.Inner}) {
			return fmt.Sprintf("value %v, expected %q", e, x.Inner)
		}
	default:
		p := p18Fact{Type: x.Concept.Type, Value: x.Inner, Decimals: x.Decimals, Ref: x.Unit != ""}
		for _, u := range f.Inst.Units {
			if u.ID == x.Unit {
				p.Num, p.Den = u.Num, u.Den
			}
		}
		if msg := checkUnit(p, e); msg != "" {
			return msg
		}
	}
	want := append([]string{}, at[x]...)
	got := append([]string{}, a.Footnotes...)
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("footnotes %q, expected %q", got, want)
	}
	return ""
}

// headingIn computes the heading of a period in a language for the periods
// used here: instants, and durations of whole calendar months.
func headingIn(lang string, c *Context) (string, bool) {
	if lang == langPlain || lang == langBrief {
		return c.period(), true
	}
	return periodHeading(lang, c.Start, c.End, c.Instant)
}

type docName struct {
	name string
	c    *Concept
}

// decideAnswers asks every pair of names and contexts.
func decideAnswers(f *Filing, used []docName, absent, ctxs []string, as []assigned, at attachments) Exec {
	return func(e *Env) string {
		h, err := e.open(f)
		if err != nil {
			return "cannot load: " + err.Error()
		}
		names := map[string]*Concept{}
		usedCtx := map[string]bool{}
		if f.Inline != nil {
			for _, el := range f.Inline.Elems {
				usedCtx[el.Ctx] = true
			}
			for _, u := range used {
				names[u.name] = u.c
			}
		}
		var all []string
		for n := range names {
			all = append(all, n)
		}
		sort.Strings(all)
		all = append(all, absent...)
		for _, n := range all {
			for _, ctx := range ctxs {
				a, err := e.askFact(h, n, ctx)
				var x *Fact
				if c := names[n]; c != nil && usedCtx[ctx] {
					x = f.factAt(c.href(), ctx)
				}
				if x == nil {
					if a != nil {
						return fmt.Sprintf("name %q in context %q is not reported but answered with %s %v", n, ctx, a.Href, a.Expression)
					}
					continue
				}
				if err != nil {
					return fmt.Sprintf("name %q in context %q gives an error: %v", n, ctx, err)
				}
				if msg := f.checkAnswer(a, x, as, at); msg != "" {
					return fmt.Sprintf("name %q in context %q: %s", n, ctx, msg)
				}
			}
		}
		return ""
	}
}

// p21Place puts facts of three concepts into three contexts.
func p21Place(nConcepts, nCtx int) Family {
	return Family{Name: fmt.Sprintf("place%dx%d", nConcepts, nCtx), Bounds: fmt.Sprintf("every set of facts of %d concepts (one name in two namespaces) in %d contexts of 2 entities, 3 prefix assignments in the document, tagged as text or number, every pair of used and unused names and contexts, inline and not", nConcepts, nCtx),
		Gen: func(c *Chooser) Exec {
			f, cs := basic(2)
			s2 := newSchema("e2.xsd", nsEnt+"2")
			f.Schemas[0].Imports = append(f.Schemas[0].Imports, Import{s2.NS, s2.File})
			same := s2.add(&Concept{ID: "ent2_C0", Name: "C0"})
			f.Schemas = append(f.Schemas, s2)
			concepts := []*Concept{cs[0], same, taxConcept(0), cs[1]}[:nConcepts]
			for i := 1; i < nCtx; i++ {
				f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c" + itoa(i), Scheme: scheme1, Entity: []string{"0001", "0002"}[i%2], Instant: fmt.Sprintf("20%02d-12-31", 20+i)})
			}
			// prefixes of the document
			maps := []map[string]string{
				{nsEnt: "ent", nsEnt + "2": "ent2", nsTax: "tax"},
				{nsEnt: "tax", nsEnt + "2": "ent", nsTax: "ent2"},
				{nsEnt: "a", nsEnt + "2": "b", nsTax: "c-d.e"},
			}
			m := maps[c.Choose(len(maps))]
			numeric := c.Bool()
			inline := c.Choose(3) // inline, inline with a second prefix for one namespace, not inline
			var in Inline
			for _, ns := range []string{nsEnt, nsEnt + "2", nsTax} {
				in.Prefixes = append(in.Prefixes, [2]string{m[ns], ns})
			}
			if inline == 1 {
				in.Prefixes = append(in.Prefixes, [2]string{"zz", nsEnt})
			}
			var used []docName
			for k, con := range concepts {
				for i, ctx := range f.Inst.Contexts {
					if !c.Bool() {
						continue
					}
					f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: fmt.Sprintf("f%d%d", k, i), Concept: con, Ctx: ctx, Inner: fmt.Sprintf("v%d.%d", k, i)})
					p := m[con.ns]
					if inline == 1 && con.ns == nsEnt && i%2 == 1 {
						p = "zz"
					}
					n := p + ":" + con.Name
					used = append(used, docName{n, con})
					in.Elems = append(in.Elems, InlineElem{Numeric: numeric, Name: n, Ctx: ctx.ID, ID: fmt.Sprintf("f%d%d", k, i), Text: "t"})
				}
			}
			if inline < 2 {
				f.Inline = &in
			}
			absent := []string{"", "C0", ":C0", "ent:", "nowhere:C0", m[nsEnt] + ":Nothing"}
			taken := map[string]bool{}
			for _, u := range used {
				taken[u.name] = true
			}
			for _, p := range []string{"ent", "ent2", "tax", "a", "b", "zz"} {
				for _, n := range []string{"C0", "C01", "TaxA"} {
					if !taken[p+":"+n] {
						absent = append(absent, p+":"+n)
					}
				}
			}
			ctxs := []string{"", "c", "cX"}
			for _, x := range f.Inst.Contexts {
				ctxs = append(ctxs, x.ID)
			}
			return decideAnswers(f, used, absent, ctxs, nil, attachments{})
		}}
}

// p21Rich answers with labels, dimensions, units and footnotes.
func p21Rich(nctx int) Family {
	return Family{Name: fmt.Sprintf("rich%d", nctx), Bounds: fmt.Sprintf("one concept reported in %d contexts, each instant or duration with none or either member of an explicit and values of two typed dimensions in segments or scenarios, 3 label sets, text, number, nil", nctx),
		Gen: func(c *Chooser) Exec {
			w := newP11World(nctx)
			f := w.f
			scen := c.Choose(3)
			labels := c.Choose(3)
			value := c.Choose(4)
			duration := c.Bool()
			var in Inline
			in.Prefixes = [][2]string{{"q", nsEnt}, {"t", nsTax}}
			f.Inst.Units = []*Unit{{ID: "ps", Num: "iso4217:USD", Den: "xbrli:shares"}}
			for i, x := range f.Inst.Contexts {
				if duration {
					x.Instant = ""
					x.Start, x.End = fmt.Sprintf("20%02d-01-01", 10+i), fmt.Sprintf("20%02d-%s", 10+i, []string{"12-31", "03-31", "01-31"}[i%3])
				}
				if m := c.Choose(3); m > 0 {
					x.put(scen == 1, Member{Dim: w.dims[0], Mem: w.mem[m-1]})
				}
				for k := 0; k < 2; k++ {
					if v := c.Choose(2); v > 0 {
						x.put(scen == 1 || scen == 2 && k == 1, Member{Dim: w.typed[k], Typed: w.domains[k], Value: fmt.Sprintf("v%d", i)})
					}
				}
			}
			for i, x := range f.Inst.Facts {
				x.ID = "f" + itoa(i)
				switch value {
				case 1:
					x.Inner, x.Decimals, x.Unit = fmt.Sprintf("-12%d.5", i), "1", "ps"
				case 2:
					x.Nil, x.Inner = "true", ""
				case 3:
					x.Inner = fmt.Sprintf("a &lt;%d&gt; b", i)
				}
				in.Elems = append(in.Elems, InlineElem{Name: "q:" + x.Concept.Name, Ctx: x.Ctx.ID, ID: x.ID, Text: "t"})
			}
			var as []assigned
			switch labels {
			case 1:
				as = []assigned{{w.a, roleLabel, "en-US", "An a"}, {w.a, roleTerse, "es", "Un a"}}
			case 2:
				as = []assigned{{w.a, roleVerbose, "es", "Una a"}, {w.mem[0], roleLabel, "en-US", "Member"}}
			}
			if as != nil {
				f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
			}
			f.Inline = &in
			var ctxs []string
			for _, x := range f.Inst.Contexts {
				ctxs = append(ctxs, x.ID)
			}
			return decideAnswers(f, []docName{{"q:" + w.a.Name, w.a}}, []string{"t:" + w.a.Name}, ctxs, as, attachments{})
		}}
}

func p21Foot(nFacts, nNotes int) Family {
	return Family{Name: fmt.Sprintf("footnotes%dx%d", nFacts, nNotes), Bounds: fmt.Sprintf("every attachment of %d facts to %d footnotes in every way over 2 links, 6 labelling styles", nFacts, nNotes),
		Gen: func(c *Chooser) Exec {
			f, facts := p16Filing()
			style := c.Choose(6)
			link := make([]int, nNotes)
			for i := range link {
				link[i] = c.Choose(2)
			}
			var edges [][2]int
			for i := 0; i < nFacts; i++ {
				for k := 0; k < nNotes; k++ {
					if c.Bool() {
						edges = append(edges, [2]int{i, k})
					}
				}
			}
			f.Inline, f.Entry = &Inline{}, "f.htm"
			at := footLinks(f, facts, 2, link, edges, style, len(edges)%2 == 1)
			in := &Inline{Prefixes: [][2]string{{"ent", nsEnt}, {"tax", nsTax}}}
			var used []docName
			for _, x := range facts {
				in.Elems = append(in.Elems, InlineElem{Name: x.Concept.qname(), Ctx: x.Ctx.ID, ID: x.ID, Text: "t"})
				used = append(used, docName{x.Concept.qname(), x.Concept})
			}
			f.Inline = in
			return decideAnswers(f, used, nil, []string{"c0", "c1"}, nil, at)
		}}
}

func init() {
	register(&Check{ID: "P21",
		Rule: "every pair of a name and a context of an inline document is answered with its own fact or with nothing",
		Families: func(thorough bool) []Family {
			fams := []Family{p21Place(2, 2), p21Sizes(40), p21Alike(), p21Rich(1), p21Foot(3, 2), p21Place(3, 2), p21Rich(2), spelled(p21Place(2, 2)), spelled(p21Rich(1))}
			if thorough {
				fams = append(fams, p21Place(3, 3), p21Foot(4, 3), p21Rich(3))
			}
			return fams
		}})
}
