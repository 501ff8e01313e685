package main

import (
	"fmt"
	"sort"
	"strings"

	"ecksbee.com/telefacts/pkg/renderables"
)

// discovery is a filing of n schemas, each with a role, a concept with a fact
// and one linkbase of every kind of its own.
type discovery struct {
	f     *Filing
	cs    []*Concept
	edges [][]int
}

func role(i int) string { return "http://e.example/role/" + itoa(i+1) }

// newDiscovery makes the schemas without references between them.
func newDiscovery(n int, shared bool) *discovery {
	d := &discovery{f: &Filing{Inst: &Instance{}}, edges: make([][]int, n)}
	d.f.Inst.Contexts = []*Context{{ID: "c0", Scheme: scheme1, Entity: "0001", Instant: "2020-12-31"}}
	for i := 0; i < n; i++ {
		ns := nsEnt
		if !shared && i > 0 {
			ns += itoa(i + 1)
		}
		s := newSchema("s"+itoa(i)+".xsd", ns)
		s.NoAuto = true
		s.Roles = []Role{{ID: "r" + itoa(i), URI: role(i), Def: fmt.Sprintf("%04d - Role", i)}}
		c := s.add(&Concept{ID: "ent_C" + itoa(i), Name: "C" + itoa(i)})
		d.cs = append(d.cs, c)
		d.f.Schemas = append(d.f.Schemas, s)
		rows := []*Concept{c, taxConcept(0)}
		p, q, r := linkOver(role(i), rows), linkOver(role(i), rows), linkOver(role(i), rows)
		p.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(c), To: locLabel(rows[1]), Order: "1"}}
		q.Arcs = []Arc{{Arcrole: arcDM, From: locLabel(c), To: locLabel(rows[1]), Order: "1"}}
		r.Arcs = []Arc{{Arcrole: arcSI, From: locLabel(c), To: locLabel(rows[1]), Order: "1", Weight: "1"}}
		d.f.P = append(d.f.P, &Linkbase{File: "p" + itoa(i) + ".xml", Links: []*XLink{p}})
		d.f.D = append(d.f.D, &Linkbase{File: "d" + itoa(i) + ".xml", Links: []*XLink{q}})
		d.f.C = append(d.f.C, &Linkbase{File: "c" + itoa(i) + ".xml", Links: []*XLink{r}})
		l := linkOver("http://www.xbrl.org/2003/role/link", rows[:1])
		l.Labels = []LabelRes{{Label: "lab", Role: roleLabel, Lang: "en-US", Text: "Label " + itoa(i)}}
		l.Arcs = []Arc{{Arcrole: arcLab, From: locLabel(c), To: "lab", Order: "1"}}
		d.f.L = append(d.f.L, &Linkbase{File: "l" + itoa(i) + ".xml", Links: []*XLink{l}})
		d.f.addFact(c, d.f.Inst.Contexts[0])
	}
	return d
}

// ownLinkbases lets every schema refer to its own linkbases.
func (d *discovery) ownLinkbases() *discovery {
	for i, s := range d.f.Schemas {
		k := itoa(i)
		s.LBRefs = []LBRef{{refPres, "p" + k + ".xml"}, {refDef, "d" + k + ".xml"}, {refCalc, "c" + k + ".xml"}, {refLabel, "l" + k + ".xml"}}
	}
	return d
}

// refer adds a reference: 1 import, 2 include.
func (d *discovery) refer(i, j, kind int) {
	a, b := d.f.Schemas[i], d.f.Schemas[j]
	switch kind {
	case 1:
		a.Imports = append(a.Imports, Import{b.NS, b.File})
	case 2:
		a.Includes = append(a.Includes, b.File)
	default:
		return
	}
	d.edges[i] = append(d.edges[i], j)
}

func (d *discovery) reach(from ...int) []bool {
	r := make([]bool, len(d.edges))
	for len(from) > 0 {
		i := from[0]
		from = from[1:]
		if !r[i] {
			r[i] = true
			from = append(from, d.edges[i]...)
		}
	}
	return r
}

// decide loads the filing and judges what was taken in. linked tells, per
// kind of linkbase, which ones are to be taken in.
func (d *discovery) decide(e *Env, reached []bool, linked [4][]bool) string {
	h, err := e.open(d.f)
	if err != nil {
		return "loading failed: " + err.Error()
	}
	cat, err := e.catalog(h)
	if err != nil {
		return "no catalog: " + err.Error()
	}
	var got, want []string
	for _, s := range cat.RelationshipSets {
		got = append(got, s.RoleURI)
	}
	for i, r := range reached {
		if r {
			want = append(want, role(i))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("roles of the schemas taken in: %v, expected %v", got, want)
	}
	for i, r := range reached {
		if !r {
			continue
		}
		b, err := renderables.MarshalRenderable(cat.Networks[scheme1+"/0001"][role(i)], h)
		if err != nil {
			return "rendering failed: " + err.Error()
		}
		e.outcome += string(b)
		n, err := parseNetwork(b)
		if err != nil {
			return err.Error()
		}
		rows := []string{d.cs[i].href(), taxConcept(0).href()}
		seen := [3]int{len(n.PGrid.IndentedLabels), len(n.DGrid.RootDomains), len(n.CGrid.SummationItems)}
		for k, name := range []string{"presentation", "definition", "calculation"} {
			if (seen[k] > 0) != linked[k][i] {
				return fmt.Sprintf("%s linkbase of %s taken in: %v, expected %v", name, role(i), seen[k] > 0, linked[k][i])
			}
		}
		for _, g := range n.grids() {
			if len(g.rows) == 0 {
				continue
			}
			a, b := append([]string{}, g.rows...), append([]string{}, rows...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, " ") != strings.Join(b, " ") {
				return fmt.Sprintf("%s of %s has rows %v, expected %v", g.name, role(i), g.rows, rows)
			}
			if msg := d.f.checkCells(scheme1+"/0001", g); msg != "" {
				return role(i) + ": " + msg
			}
		}
		var label LabelPack
		switch {
		case linked[0][i]:
			label = n.PGrid.IndentedLabels[0].Label
		case linked[1][i]:
			label = n.DGrid.RootDomains[0].Label
		case linked[2][i]:
			label = n.CGrid.SummationItems[0].Label
		default:
			continue
		}
		text := ""
		for lang, t := range label["Default"] {
			if strings.HasPrefix(lang, "en") {
				text = t
			}
		}
		exp := ""
		if linked[3][i] {
			exp = "Label " + itoa(i)
		}
		if text != exp {
			return fmt.Sprintf("English label of %s is %q, expected %q", d.cs[i].href(), text, exp)
		}
	}
	return ""
}

func (d *discovery) exec(refs ...int) Exec {
	d.f.Inst.SchemaRefs = nil
	for _, i := range refs {
		d.f.Inst.SchemaRefs = append(d.f.Inst.SchemaRefs, d.f.Schemas[i].File)
	}
	r := d.reach(refs...)
	return func(e *Env) string { return d.decide(e, r, [4][]bool{r, r, r, r}) }
}

func p01Graphs3() Family {
	return Family{Name: "graphs3", Bounds: "3 schemas, every choice of no reference, import or include for all 9 pairs, separate or shared namespaces",
		Gen: func(c *Chooser) Exec {
			d := newDiscovery(3, c.Bool()).ownLinkbases()
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					d.refer(i, j, c.Choose(3))
				}
			}
			// references of unreached schemas do not vary
			r := d.reach(0)
			for i := range r {
				if !r[i] && len(d.edges[i]) > 0 && len(d.edges[i]) < 3 {
					return nil
				}
			}
			return d.exec(0)
		}}
}

func p01Graphs4() Family {
	return Family{Name: "graphs4", Bounds: "4 schemas, every set of references between them, all imports, all includes or mixed; one or two schemas referenced by the instance",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(3)
			refs := pick(c, []int{0}, []int{1, 0})
			d := newDiscovery(4, kind == 1).ownLinkbases()
			for i := 0; i < 4; i++ {
				for j := 0; j < 4; j++ {
					if i != j && c.Bool() {
						d.refer(i, j, []int{1, 2, 1 + (i+j)%2}[kind])
					}
				}
			}
			r := d.reach(refs...)
			for i := range r {
				if !r[i] && len(d.edges[i]) > 0 {
					return nil
				}
			}
			return d.exec(refs...)
		}}
}

var brokenRefs = []string{
	``,
	`<xsd:import namespace="http://x.example/1" schemaLocation="missing.xsd"/>`,
	`<xsd:import namespace="http://e.example/ent" schemaLocation="missing.xsd"/>`,
	`<xsd:import namespace="http://e.example/ent2" schemaLocation="torn.xsd"/>`,
	`<xsd:import namespace="http://e.example/ent3" schemaLocation="empty.xsd"/>`,
	`<xsd:import namespace="http://e.example/ent" schemaLocation="p0.xml"/>`,
	`<xsd:import namespace="http://e.example/ent2" schemaLocation="http://t.example/tax/2020/none.xsd"/>`,
	`<xsd:import namespace="http://t.example/tax" schemaLocation="http://t.example/tax/2020/tax.xsd"/>`,
	`<xsd:import schemaLocation="missing.xsd"/>`,
	`<xsd:import namespace="http://x.example/1"/>`,
	`<xsd:import namespace="http://e.example/ent" schemaLocation=""/>`,
	`<xsd:include schemaLocation="missing.xsd"/>`,
	`<xsd:include schemaLocation="torn.xsd"/>`,
	`<xsd:include schemaLocation="http://t.example/tax/2020/none.xsd"/>`,
	`<xsd:include/>`,
	`<xsd:include schemaLocation="s0.xsd"/>`,
	`<xsd:import namespace="http://e.example/ent4" schemaLocation="s3.xsd"/>`,
	`<xsd:include schemaLocation="."/>`,
}

func (d *discovery) addBroken() {
	d.f.Raw = map[string][]byte{
		"torn.xsd":  []byte(`<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" targetNamespace="http://e.example/ent2"><xsd:element id="ent_C1" name="C1"`),
		"empty.xsd": {},
		"other.xsd": []byte(d.f.Schemas[0].emit(d.f)),
	}
}

// p01Broken puts references that cannot be followed between good ones.
func p01Broken(two bool) Family {
	name := "broken"
	if two {
		name = "broken2"
	}
	return Family{Name: name, Bounds: fmt.Sprintf("4 schemas in a diamond, %d kinds of bad or repeated references before or after the good ones of any schema (two at once: %v), separate or shared namespaces", len(brokenRefs), two),
		Gen: func(c *Chooser) Exec {
			d := newDiscovery(4, c.Bool()).ownLinkbases()
			kind := 1 + c.Choose(2)
			d.refer(0, 1, kind)
			d.refer(0, 2, 3-kind)
			d.refer(1, 3, kind)
			d.refer(2, 3, kind)
			d.addBroken()
			place := func() {
				s := d.f.Schemas[c.Choose(4)]
				ref := brokenRefs[c.Choose(len(brokenRefs))]
				if c.Bool() {
					s.After += ref
				} else {
					s.Before += ref
				}
			}
			place()
			if two {
				place()
			}
			return d.exec(0)
		}}
}

var badSchemaRefs = []string{"", "missing.xsd", "torn.xsd", "empty.xsd", "p0.xml", urlTx, "http://t.example/tax/2020/none.xsd", "s0.xsd", "."}

// p01Entry varies the schema references of the instance.
func p01Entry() Family {
	return Family{Name: "entry", Bounds: "instances with any two bad or repeated schema references around references to any subset of 3 unconnected or chained schemas",
		Gen: func(c *Chooser) Exec {
			d := newDiscovery(3, c.Bool()).ownLinkbases()
			if c.Bool() {
				d.refer(0, 1, 1)
			}
			d.addBroken()
			var good []int
			var refs []string
			a, b := badSchemaRefs[c.Choose(len(badSchemaRefs))], badSchemaRefs[c.Choose(len(badSchemaRefs))]
			refs = append(refs, a)
			for i := 0; i < 3; i++ {
				if c.Bool() {
					good = append(good, i)
					refs = append(refs, d.f.Schemas[i].File)
				}
			}
			refs = append(refs, b)
			if a == "s0.xsd" || b == "s0.xsd" {
				good = append(good, 0)
			}
			d.f.Inst.SchemaRefs = refs
			if len(refs)%2 == 0 {
				d.f.Entry = "f.xbrl"
			}
			r := d.reach(good...)
			return func(e *Env) string { return d.decide(e, r, [4][]bool{r, r, r, r}) }
		}}
}

func badLinkbaseRef(arcrole, href, role, typ string) string {
	return fmt.Sprintf(`<link:linkbaseRef xlink:arcrole="%s" xlink:href="%s" xlink:role="%s" xlink:type="%s"/>`, arcrole, href, role, typ)
}

const arcLB = "http://www.w3.org/1999/xlink/properties/linkbase"

var badLinkbaseRefs = []string{
	"",
	badLinkbaseRef(arcLB, "missing.xml", refPres, "simple"),
	badLinkbaseRef(arcLB, "torn.xsd", refDef, "simple"),
	badLinkbaseRef(arcLB, "empty.xsd", refCalc, "simple"),
	badLinkbaseRef(arcLB, "http://t.example/tax/2020/none.xml", refLabel, "simple"),
	badLinkbaseRef(arcLB, "p2.xml", "http://www.xbrl.org/2003/role/referenceLinkbaseRef", "simple"),
	`<link:linkbaseRef/>`,
	"</xsd:appinfo><xsd:appinfo>",
	"</xsd:appinfo></xsd:annotation><xsd:annotation><xsd:appinfo>",
}

// p01Linkbases varies which schema refers to which linkbase.
func p01Linkbases() Family {
	return Family{Name: "linkbases", Bounds: "3 schemas in a chain; every kind of linkbase of the first network referenced by any of them or by none, bad references or new annotation sections before or after",
		Gen: func(c *Chooser) Exec {
			d := newDiscovery(3, c.Bool())
			d.refer(0, 1, 1)
			d.refer(1, 2, 2)
			d.addBroken()
			var linked [4][]bool
			for k, ref := range [][2]string{{refPres, "p"}, {refDef, "d"}, {refCalc, "c"}, {refLabel, "l"}} {
				linked[k] = make([]bool, 3)
				by := c.Choose(4)
				if by < 3 {
					d.f.Schemas[by].LBRefs = append(d.f.Schemas[by].LBRefs, LBRef{ref[0], ref[1] + "0.xml"})
					linked[k][0] = true
				}
				// the other networks are referenced by the last schema
				d.f.Schemas[2].LBRefs = append(d.f.Schemas[2].LBRefs, LBRef{ref[0], ref[1] + "1.xml"})
				linked[k][1] = true
			}
			bad := badLinkbaseRefs[c.Choose(len(badLinkbaseRefs))]
			at := c.Choose(4)
			d.f.Schemas[at/2*2].RefMark[at%2] = bad
			d.f.Inst.SchemaRefs = []string{"s0.xsd"}
			all := []bool{true, true, true}
			return func(e *Env) string { return d.decide(e, all, linked) }
		}}
}

// p01Sizes has large regular reference graphs.
func p01Sizes(chain, complete int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("chains and stars of up to %d schemas, complete graphs of up to %d, rings closing on any earlier schema", chain, complete),
		Gen: func(c *Chooser) Exec {
			shape := c.Choose(4)
			kind := 1 + c.Choose(2)
			max := chain
			if shape == 2 {
				max = complete
			}
			n := 2 + c.Choose(max-1)
			d := newDiscovery(n, true).ownLinkbases()
			for i := 0; i < n; i++ {
				switch shape {
				case 0:
					if i+1 < n {
						d.refer(i, i+1, 1+(i+kind)%2)
					}
				case 1:
					if i > 0 {
						d.refer(0, i, kind)
					}
				case 2:
					for j := 0; j < n; j++ {
						d.refer(i, j, kind)
					}
				case 3:
					d.refer(i, (i+1)%n, kind)
					d.refer(i, 0, kind)
				}
			}
			return d.exec(0)
		}}
}

// p01Alike has files whose names look alike.
func p01Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as files of 2 of 3 schemas, with every set of references between them, or as linkbase files of one kind, referred to by one or by both schemas",
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(6)
			names := chooseAlike(c)
			d := newDiscovery(3, kind%2 == 0).ownLinkbases()
			rename := func(i int, file string) {
				s := d.f.Schemas[i]
				s.File, s.Concepts[0].schemaLoc = file, file
				for _, lbs := range [][]*Linkbase{d.f.P, d.f.D, d.f.C, d.f.L} {
					lbs[i].Links[0].Locs[0].Href = s.Concepts[0].href()
				}
			}
			if kind < 2 {
				for i, n := range names {
					rename(i+kind, n+".xsd")
				}
				for i := 0; i < 3; i++ {
					for j := 1; j < 3; j++ {
						if i != j {
							d.refer(i, j, c.Choose(3))
						}
					}
				}
				return d.exec(0)
			}
			lbs := [][]*Linkbase{d.f.P, d.f.D, d.f.C, d.f.L}[kind-2]
			for i, n := range names {
				lbs[i+1].File = n + ".xml"
				d.f.Schemas[i+1].LBRefs[kind-2].Href = n + ".xml"
			}
			d.refer(0, 1, 1)
			d.refer(1, 2, 2)
			linked := [4][]bool{}
			for k := range linked {
				linked[k] = []bool{true, true, true}
			}
			switch c.Choose(4) {
			case 1: // both in one schema
				d.f.Schemas[1].LBRefs = append(d.f.Schemas[1].LBRefs, d.f.Schemas[2].LBRefs...)
				d.f.Schemas[2].LBRefs = nil
			case 2: // the first is not referred to
				d.f.Schemas[1].LBRefs = append(d.f.Schemas[1].LBRefs[:kind-2:kind-2], d.f.Schemas[1].LBRefs[kind-1:]...)
				linked[kind-2][1] = false
			case 3: // the second is not
				d.f.Schemas[2].LBRefs = append(d.f.Schemas[2].LBRefs[:kind-2:kind-2], d.f.Schemas[2].LBRefs[kind-1:]...)
				linked[kind-2][2] = false
			}
			return func(e *Env) string { return d.decide(e, []bool{true, true, true}, linked) }
		}}
}

func init() {
	register(&Check{ID: "P01",
		Rule:   "the roles, linkbases, labels and facts shown are exactly those of the files reachable in the reference graph chosen",
		Assume: []string{"all files of a filing lie in one folder and are referred to by their plain names", "schemas name their target namespace"},
		Families: func(thorough bool) []Family {
			fams := []Family{p01Sizes(24, 6), p01Alike(), p01Entry(), p01Linkbases(), p01Broken(false), p01Graphs3(), spelled(p01Entry())}
			if thorough {
				fams = append(fams, p01Graphs4(), p01Broken(true), p01Sizes(60, 9))
			}
			return fams
		}})
}
