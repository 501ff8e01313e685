package main

import (
	"fmt"
	"sort"
	"strings"
)

const (
	langPlain = "Unlabelled"
	langBrief = "Truncated"
	langEn    = "en - english"
	langEs    = "es - español"
)

// assigned is one label given to a concept.
type assigned struct {
	c          *Concept
	role, lang string
	text       string
}

func roleName(role string) string {
	switch role {
	case roleLabel:
		return "Default"
	case roleTerse:
		return "Terse"
	case roleVerbose:
		return "Verbose"
	}
	return ""
}

func langName(lang string) string {
	switch lang {
	case "en", "en-US":
		return langEn
	case "es":
		return langEs
	}
	return ""
}

// packFor computes the labels of a concept.
func packFor(href string, as []assigned) LabelPack {
	p := LabelPack{"Default": LangPack{langPlain: href}}
	if i := strings.Index(href, "#"); i >= 0 {
		p["Default"][langBrief] = href[i:]
	}
	for _, a := range as {
		r, l := roleName(a.role), langName(a.lang)
		if a.c.href() != href || r == "" || l == "" {
			continue
		}
		if p[r] == nil {
			p[r] = LangPack{}
		}
		p[r][l] = a.text
	}
	return p
}

func (p LabelPack) text() string {
	var out []string
	for _, r := range sortedKeys(p) {
		for _, l := range sortedKeys(p[r]) {
			out = append(out, fmt.Sprintf("%s/%s=%q", r, l, p[r][l]))
		}
	}
	return strings.Join(out, " ")
}

type shownLabel struct {
	where, href string
	label       LabelPack
}

// areaLabels lists the dimension and member labels of an area.
func (a *Area) labels(where string) []shownLabel {
	var out []shownLabel
	for _, v := range a.VoidQuadrant {
		if v == nil {
			continue
		}
		out = append(out, shownLabel{where + " dimension", v.Dimension.Href, v.Dimension.Label})
		if v.TypedDomain != nil {
			out = append(out, shownLabel{where + " typed domain", v.TypedDomain.Href, v.TypedDomain.Label})
		}
	}
	for _, r := range a.ContextualMemberGrid {
		for _, c := range r {
			if c != nil && c.ExplicitMember != nil {
				out = append(out, shownLabel{where + " member", c.ExplicitMember.Href, c.ExplicitMember.Label})
			}
		}
	}
	return out
}

type gridLabels struct {
	name   string
	area   *Area
	labels []shownLabel
}

// gridLabels lists what every grid shows.
func (n *Network) gridLabels() []gridLabels {
	var out []gridLabels
	g := gridLabels{name: "presentation", area: &n.PGrid.Area, labels: n.PGrid.Area.labels("presentation")}
	for _, l := range n.PGrid.IndentedLabels {
		g.labels = append(g.labels, shownLabel{"presentation row", l.Href, l.Label})
	}
	out = append(out, g)
	for i := range n.CGrid.SummationItems {
		s := &n.CGrid.SummationItems[i]
		g := gridLabels{name: "calculation", area: &s.Area, labels: s.Area.labels("calculation")}
		g.labels = append(g.labels, shownLabel{"calculation total", s.Href, s.Label})
		for _, c := range s.ContributingConcepts {
			g.labels = append(g.labels, shownLabel{"calculation contributor", c.Href, c.Label})
		}
		out = append(out, g)
	}
	for i := range n.DGrid.RootDomains {
		r := &n.DGrid.RootDomains[i]
		g := gridLabels{name: "definition", area: &r.Area, labels: r.Area.labels("definition")}
		g.labels = append(g.labels, shownLabel{"definition root", r.Href, r.Label})
		for _, c := range r.PrimaryItems {
			g.labels = append(g.labels, shownLabel{"definition item", c.Href, c.Label})
		}
		for _, c := range r.EffectiveDimensions {
			g.labels = append(g.labels, shownLabel{"effective dimension", c.Href, c.Label})
		}
		for _, row := range r.EffectiveDomainGrid {
			for _, cell := range row {
				for _, m := range cell {
					g.labels = append(g.labels, shownLabel{"effective member", m.Href, m.Label})
				}
			}
		}
		out = append(out, g)
	}
	return out
}

// checkLabels decides P15 for a rendered network.
func (n *Network) checkLabels(as []assigned) string {
	need := map[string]bool{}
	roles := map[string]bool{}
	may := map[string]bool{}
	all := n.gridLabels()
	check := func(s shownLabel) string {
		got := LabelPack{}
		for r, p := range s.label {
			if len(p) > 0 {
				got[r] = p
			}
		}
		if want := packFor(s.href, as); got.text() != want.text() {
			return fmt.Sprintf("%s %s has labels\n %s\nexpected\n %s", s.where, s.href, got.text(), want.text())
		}
		return ""
	}
	for _, g := range all {
		for _, s := range g.labels {
			if msg := check(s); msg != "" {
				return msg
			}
			for r, p := range packFor(s.href, as) {
				roles[r] = true
				may[r] = true
				for l := range p {
					need[l] = true
				}
			}
			for _, a := range as {
				if a.c.href() == s.href && roleName(a.role) != "" {
					may[roleName(a.role)] = true
				}
			}
		}
	}
	for _, x := range n.DGrid.DRS.Nodes {
		if msg := check(shownLabel{"relationship node", x.Href, x.Label}); msg != "" {
			return msg
		}
	}
	lang := append([]string{}, n.Lang...)
	sort.Strings(lang)
	if fmt.Sprint(lang) != fmt.Sprint(sortedKeys(need)) {
		return fmt.Sprintf("languages %q, expected %q", lang, sortedKeys(need))
	}
	seen := map[string]bool{}
	for _, r := range n.LabelRoles {
		if seen[r] || !may[r] {
			return fmt.Sprintf("label roles %q, expected %q", n.LabelRoles, sortedKeys(roles))
		}
		seen[r] = true
	}
	for r := range roles {
		if !seen[r] {
			return fmt.Sprintf("label roles %q, expected %q", n.LabelRoles, sortedKeys(roles))
		}
	}
	for _, g := range all {
		own := map[string]bool{langPlain: true}
		for _, s := range g.labels {
			for _, p := range packFor(s.href, as) {
				for l := range p {
					own[l] = true
				}
			}
		}
		for j, h := range g.area.PeriodHeaders {
			for _, l := range []string{langPlain, langEn, langEs} {
				if _, ok := h[l]; ok != (l == langPlain || need[l]) {
					return fmt.Sprintf("%s: heading %d in language %q present: %v", g.name, j, l, ok)
				}
			}
		}
		for i, r := range g.area.FactualQuadrant {
			for j, c := range r {
				if c[langPlain] == (Expr{}) {
					continue
				}
				for _, l := range []string{langPlain, langEn, langEs} {
					_, ok := c[l]
					if !ok && own[l] {
						return fmt.Sprintf("%s: the fact in row %d, column %d is missing in %q", g.name, i, j, l)
					}
					if ok && l != langPlain && !need[l] {
						return fmt.Sprintf("%s: the fact in row %d, column %d is given in %q, which is not advertised", g.name, i, j, l)
					}
				}
			}
		}
	}
	return ""
}

func runP15(f *Filing, as []assigned) Exec {
	return func(e *Env) string {
		n, err := e.render(f)
		if err != nil {
			return "rendering failed: " + err.Error()
		}
		if len(n.gridLabels()) < 3 {
			return "grids are missing"
		}
		return n.checkLabels(as)
	}
}

// labelLink writes assignments in one extended link.
func labelLink(as []assigned) *XLink {
	x := &XLink{Role: "http://www.xbrl.org/2003/role/link"}
	seen := map[*Concept]bool{}
	for i, a := range as {
		if !seen[a.c] {
			seen[a.c] = true
			x.Locs = append(x.Locs, Loc{locLabel(a.c), a.c.href()})
		}
		x.Labels = append(x.Labels, LabelRes{"lab" + itoa(i), a.role, a.lang, a.text})
		x.Arcs = append(x.Arcs, Arc{Arcrole: arcLab, From: locLabel(a.c), To: "lab" + itoa(i), Order: "1"})
	}
	return x
}

// p15World shows items, dimensions, members and effective members.
type p15World struct {
	f      *Filing
	places []*Concept
	names  []string
}

func newP15World(rich bool) *p15World {
	f, cs := basic(3)
	total, a, b := cs[0], cs[1], taxConcept(0)
	threeGrids(f, total, a, b)
	w := &p15World{f: f}
	add := func(n string, c *Concept) *Concept {
		w.names = append(w.names, n)
		w.places = append(w.places, c)
		return c
	}
	add("total", total)
	add("item", a)
	add("taxonomy item", b)
	s := f.Schemas[0]
	mk := func(n string) *Concept { return s.add(&Concept{ID: "ent_" + n, Name: n}) }
	ctx := f.Inst.Contexts[0]
	for _, k := range []*Concept{total, a, b} {
		f.addFact(k, ctx)
	}
	if !rich {
		return w
	}
	dim := add("dimension", mk("Dim"))
	mem := add("member", mk("Mem"))
	tdom := add("typed domain", mk("TDom"))
	tdim := mk("TDim")
	tdim.TypedRef = "#" + tdom.ID
	add("typed dimension", tdim)
	cube := mk("Cube")
	edim := add("effective dimension", mk("EDim"))
	dom := add("effective domain", mk("EDom"))
	emem := add("effective member", mk("EMem"))
	edef := add("effective default", mk("EDef"))
	second := add("second total", mk("Tot2"))
	contrib := add("second contributor", mk("Con2"))
	add("unshown", mk("Out"))
	ctx.Seg = []Member{{Dim: dim, Mem: mem}}
	ctx.Scen = []Member{{Dim: tdim, Typed: tdom, Value: "v"}}
	d := f.D[0].Links[0]
	for _, c := range []*Concept{cube, edim, dom, emem, edef} {
		d.Locs = append(d.Locs, Loc{locLabel(c), c.href()})
	}
	arc := func(role string, x, y *Concept) {
		d.Arcs = append(d.Arcs, Arc{Arcrole: role, From: locLabel(x), To: locLabel(y), Order: "1"})
	}
	arc(arcAll, a, cube)
	arc(arcHD, cube, edim)
	arc(arcDD, edim, dom)
	arc(arcDM, dom, emem)
	arc(arcDef, edim, edef)
	c := f.C[0].Links[0]
	for _, k := range []*Concept{second, contrib} {
		c.Locs = append(c.Locs, Loc{locLabel(k), k.href()})
	}
	c.Arcs = append(c.Arcs, Arc{Arcrole: arcSI, From: locLabel(second), To: locLabel(contrib), Order: "1", Weight: "1"})
	f.addFact(contrib, ctx)
	return w
}

var labelRoles15 = []string{roleLabel, roleTerse, roleVerbose, roleDoc}
var labelLangs15 = []string{"en-US", "es", "en", "fr"}

func chooseLabel(c *Chooser, k *Concept, i int) assigned {
	a := assigned{c: k, role: labelRoles15[c.Choose(4)], lang: labelLangs15[c.Choose(4)]}
	a.text = fmt.Sprintf("L%d %s <&> ñ", i, k.Name)
	return a
}

func clash(as []assigned) bool {
	seen := map[string]bool{}
	for _, a := range as {
		l := langName(a.lang)
		if l == "" {
			l = a.lang
		}
		k := a.c.href() + a.role + l
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// p15Assign gives items labels in every role and language.
func p15Assign(nLabels int) Family {
	return Family{Name: fmt.Sprintf("assign%d", nLabels), Bounds: fmt.Sprintf("%d labels, each of either of 2 concepts, in any of 4 roles and 4 languages", nLabels),
		Gen: func(c *Chooser) Exec {
			w := newP15World(false)
			var as []assigned
			last := -1
			for i := 0; i < nLabels; i++ {
				k := c.Choose(32)
				if k <= last {
					return nil // the order of labels is varied elsewhere
				}
				last = k
				kc := []*Concept{w.places[1], w.places[2]}[k/16]
				as = append(as, assigned{kc, labelRoles15[k/4%4], labelLangs15[k%4], fmt.Sprintf("L%d %s <&> ñ", i, kc.Name)})
			}
			if clash(as) {
				return nil
			}
			w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
			return runP15(w.f, as)
		}}
}

var labelTexts = []string{" led and trailed ", "two  words", "a\nline\n", "\ttab", "<b>x</b>", "]]>", "&amp;", "x [Member]", "#", "e\u0301 é 😀", "\u200fright", "0", "-", "null", "\"q\" 'q'", "http://e.example/x#y", "\u00a0"}

var labelLangs = []string{"en", "en-US", "es", "en-GB", "en-CA", "fr", "de", "hi", "e", "eng", "est", "x-en", "x-es", "us", "US-en"}

// p15Langs gives labels in many languages.
func p15Langs() Family {
	return Family{Name: "languages", Bounds: fmt.Sprintf("2 labels of one concept or of two, in any two of %d languages and any of 3 roles", len(labelLangs)),
		Gen: func(c *Chooser) Exec {
			w := newP15World(false)
			as := []assigned{
				{w.places[1], labelRoles15[c.Choose(3)], labelLangs[c.Choose(len(labelLangs))], "one"},
				{w.places[1+c.Choose(2)], roleLabel, labelLangs[c.Choose(len(labelLangs))], "two"},
			}
			if clash(as) {
				return nil
			}
			w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
			return runP15(w.f, as)
		}}
}

// p15Texts gives labels of many forms.
func p15Texts() Family {
	return Family{Name: "texts", Bounds: fmt.Sprintf("2 labels in any of 3 roles and 2 languages on one concept or on two, with any two of %d texts, written out plainly or in CDATA sections", len(labelTexts)),
		Gen: func(c *Chooser) Exec {
			w := newP15World(false)
			as := []assigned{
				{w.places[1], labelRoles15[c.Choose(3)], pick(c, "en", "es"), labelTexts[c.Choose(len(labelTexts))]},
				{w.places[1+c.Choose(2)], roleTerse, "en-US", labelTexts[c.Choose(len(labelTexts))]},
			}
			if clash(as) {
				return nil
			}
			s := 7 * c.Choose(2)
			w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
			exec := runP15(w.f, as)
			return func(e *Env) string {
				spelling = s
				defer func() { spelling = 0 }()
				return exec(e)
			}
		}}
}

// p15Places puts labels on everything a network shows.
func p15Places() Family {
	return Family{Name: "places", Bounds: "2 labels in any of 3 roles and 3 languages on any 2 of the concepts shown as row, total, dimension, member, typed domain, effective dimension, member or default, or not shown, the explicit member in the segment and the typed one in the scenario or the other way round",
		Gen: func(c *Chooser) Exec {
			w := newP15World(true)
			if c.Bool() {
				ctx := w.f.Inst.Contexts[0]
				ctx.Seg, ctx.Scen = ctx.Scen, ctx.Seg
			}
			var as []assigned
			p := c.Choose(len(w.places))
			q := c.Choose(len(w.places))
			if q < p {
				return nil
			}
			for i, k := range []int{p, q} {
				as = append(as, assigned{w.places[k], labelRoles15[c.Choose(3)], labelLangs15[c.Choose(3)], fmt.Sprintf("L%d", i)})
			}
			if clash(as) {
				return nil
			}
			w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
			return runP15(w.f, as)
		}}
}

// p15Files spreads labels over links and files, with shared resources.
func p15Files() Family {
	return Family{Name: "files", Bounds: "3 labels in every order spread in every way over 2 links in one or two files, 6 spellings of links, foreign arcs, shared resources and shared locator labels",
		Gen: func(c *Chooser) Exec {
			w := newP15World(false)
			as := []assigned{
				{w.places[1], roleLabel, "en-US", "one"},
				{w.places[2], roleLabel, "es", "two"},
				{w.places[1], roleTerse, pick(c, "en-US", "es"), "three"},
			}
			perm := c.Perm(3)
			parts := make([][]assigned, 2)
			for _, k := range perm {
				p := c.Choose(2)
				parts[p] = append(parts[p], as[k])
			}
			twoFiles := c.Bool()
			variant := c.Choose(6)
			x, y := labelLink(parts[0]), labelLink(parts[1])
			switch variant {
			case 1: // arcs that are not label arcs
				for _, l := range []*XLink{x, y} {
					if len(l.Locs) > 0 {
						l.Labels = append(l.Labels, LabelRes{"other", roleVerbose, "en-US", "no"})
						l.Arcs = append([]Arc{{Arcrole: "http://www.xbrl.org/2003/arcrole/concept-reference", From: l.Locs[0].Label, To: "other", Order: "1"}}, l.Arcs...)
					}
				}
			case 2: // all labels of a concept share one resource label
				for _, l := range []*XLink{x, y} {
					group := map[string]string{}
					var arcs []Arc
					for i, a := range l.Arcs {
						if group[a.From] == "" {
							group[a.From] = "res_" + a.From
							a.To = group[a.From]
							arcs = append(arcs, a)
						}
						l.Labels[i].Label = group[a.From]
					}
					l.Arcs = arcs
				}
			case 3: // one resource for two concepts
				extra := assigned{w.places[0], roleVerbose, "en-US", "shared"}
				extra2 := extra
				extra2.c = w.places[1]
				for _, l := range []*XLink{x, y} {
					l.Labels = append(l.Labels, LabelRes{"sh", roleVerbose, "en-US", "shared"})
					l.Locs = append(l.Locs, Loc{"z1", extra.c.href()}, Loc{"z2", extra2.c.href()})
					l.Arcs = append(l.Arcs, Arc{Arcrole: arcLab, From: "z1", To: "sh", Order: "1"}, Arc{Arcrole: arcLab, From: "z2", To: "sh", Order: "1"})
				}
				as = append(as, extra, extra2)
			case 4: // resources nobody refers to
				for _, l := range []*XLink{x, y} {
					l.Labels = append(l.Labels, LabelRes{"dangling", roleVerbose, "es", "no"})
					l.Locs = append(l.Locs, Loc{"unused", w.places[0].href()})
				}
			case 5: // resource labels equal to locator labels of others
				for _, l := range []*XLink{x, y} {
					for i := range l.Arcs {
						l.Arcs[i].To = locLabel(w.places[(i+1)%3])
						l.Labels[i].Label = l.Arcs[i].To
					}
				}
			}
			if twoFiles {
				// Links of different files may reuse labels freely.
				w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{x}}, {File: "k.xml", Links: []*XLink{y}}}
			} else {
				for i := range y.Labels {
					y.Labels[i].Label += "_y"
				}
				for i := range y.Arcs {
					y.Arcs[i].To += "_y"
				}
				w.f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{x, y}}}
			}
			return runP15(w.f, as)
		}}
}

func init() {
	register(&Check{ID: "P15",
		Rule: "labels, advertised languages and roles, and the languages of facts and headings equal those computed from the chosen label assignments",
		Families: func(thorough bool) []Family {
			fams := []Family{p15Assign(1), p15Sizes(40), p15Lengths(), p15Alike(), p15Langs(), p15Texts(), p15Assign(2), p15Files(), p15Places(), p15Assign(3), spelled(p15Assign(1))}
			if thorough {
				fams = append(fams, p15Assign(4))
			}
			return fams
		}})
}
