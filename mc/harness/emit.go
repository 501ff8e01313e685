package main

import (
	"encoding/json"
	"fmt"
	"html"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func itoa(i int) string { return strconv.Itoa(i) }

func esc(s string) string { return html.EscapeString(s) }

const linkHead = `<?xml version="1.0" encoding="UTF-8"?>
<link:linkbase xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldt="http://xbrl.org/2005/xbrldt">
`

func (s *Schema) emit(f *Filing) string {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>
<xsd:schema xmlns:xsd="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:num="http://www.xbrl.org/dtr/type/numeric" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric"`)
	if s.NS != "" {
		fmt.Fprintf(&b, ` targetNamespace="%s"`, esc(s.NS))
	}
	b.WriteString(">\n" + s.Before)
	for _, i := range s.Imports {
		fmt.Fprintf(&b, `<xsd:import namespace="%s" schemaLocation="%s"/>`+"\n", esc(i.NS), esc(i.Loc))
	}
	for _, i := range s.Includes {
		fmt.Fprintf(&b, `<xsd:include schemaLocation="%s"/>`+"\n", esc(i))
	}
	b.WriteString(s.After + "<xsd:annotation><xsd:appinfo>\n" + s.RefMark[0])
	refs := s.LBRefs
	if !s.NoAuto && len(refs) == 0 && len(f.Schemas) > 0 && f.Schemas[0] == s {
		for _, l := range f.P {
			refs = append(refs, LBRef{refPres, l.File})
		}
		for _, l := range f.D {
			refs = append(refs, LBRef{refDef, l.File})
		}
		for _, l := range f.C {
			refs = append(refs, LBRef{refCalc, l.File})
		}
		for _, l := range f.L {
			refs = append(refs, LBRef{refLabel, l.File})
		}
	}
	for _, r := range refs {
		fmt.Fprintf(&b, `<link:linkbaseRef xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:href="%s" xlink:role="%s" xlink:type="simple"/>`+"\n", esc(r.Href), r.Role)
	}
	b.WriteString(s.RefMark[1])
	for i, r := range s.Roles {
		if i > 0 && s.Split == 1 {
			b.WriteString("</xsd:appinfo><xsd:appinfo>\n")
		}
		if i > 0 && s.Split == 2 {
			b.WriteString("</xsd:appinfo></xsd:annotation><xsd:annotation><xsd:appinfo>\n")
		}
		fmt.Fprintf(&b, `<link:roleType id="%s" roleURI="%s"><link:definition>%s</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>`+"\n", esc(r.ID), esc(r.URI), esc(r.Def))
	}
	b.WriteString("</xsd:appinfo></xsd:annotation>\n")
	for _, c := range s.Concepts {
		b.WriteString(c.emit())
	}
	b.WriteString("</xsd:schema>\n")
	return b.String()
}

func (c *Concept) emit() string {
	typ := c.Type
	if typ == "" {
		typ = "xbrli:monetaryItemType"
	}
	sub := c.Subst
	if sub == "" {
		sub = "xbrli:item"
	}
	s := fmt.Sprintf(`<xsd:element id="%s" name="%s" type="%s" substitutionGroup="%s" nillable="true" xbrli:periodType="instant"`, esc(c.ID), esc(c.Name), typ, sub)
	if c.Abstract {
		s += ` abstract="true"`
	}
	if c.Balance != "" {
		s += ` xbrli:balance="` + c.Balance + `"`
	}
	if c.TypedRef != "" {
		s += ` xbrldt:typedDomainRef="` + esc(c.TypedRef) + `"`
	}
	return s + "/>\n"
}

func (l *Linkbase) emit(linkElem, arcElem string) string {
	var b strings.Builder
	b.WriteString(linkHead)
	refs := l.Refs
	if refs == nil {
		seen := map[string]bool{}
		for _, x := range l.Links {
			if !seen[x.Role] {
				seen[x.Role] = true
				refs = append(refs, x.Role)
			}
		}
	}
	for _, r := range refs {
		fmt.Fprintf(&b, `<link:roleRef roleURI="%s" xlink:href="e.xsd#r" xlink:type="simple"/>`+"\n", esc(r))
	}
	for _, x := range l.Links {
		fmt.Fprintf(&b, `<link:%s xlink:role="%s" xlink:type="extended">`+"\n", linkElem, esc(x.Role))
		for _, loc := range x.Locs {
			fmt.Fprintf(&b, `<link:loc xlink:type="locator" xlink:href="%s" xlink:label="%s"/>`+"\n", esc(loc.Href), esc(loc.Label))
		}
		for _, r := range x.Labels {
			fmt.Fprintf(&b, `<link:label xlink:type="resource" xlink:label="%s" xlink:role="%s" xml:lang="%s">%s</link:label>`+"\n", esc(r.Label), r.Role, r.Lang, esc(r.Text))
		}
		for _, a := range x.Arcs {
			fmt.Fprintf(&b, `<link:%s xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s"`, arcElem, a.Arcrole, esc(a.From), esc(a.To))
			if a.Order != "" {
				fmt.Fprintf(&b, ` order="%s"`, a.Order)
			}
			if a.Weight != "" {
				fmt.Fprintf(&b, ` weight="%s"`, a.Weight)
			}
			for _, kv := range a.Attrs {
				fmt.Fprintf(&b, ` %s="%s"`, kv[0], esc(kv[1]))
			}
			b.WriteString("/>\n")
		}
		fmt.Fprintf(&b, "</link:%s>\n", linkElem)
	}
	b.WriteString("</link:linkbase>\n")
	return b.String()
}

func (c *Context) emit() string {
	var b strings.Builder
	fmt.Fprintf(&b, `<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="%s">%s</xbrli:identifier>`, esc(c.ID), esc(c.Scheme), c.Pad+esc(c.Entity)+c.Pad)
	members := func(ms []Member) {
		for _, m := range ms {
			if m.Mem != nil {
				fmt.Fprintf(&b, `<xbrldi:explicitMember dimension="%s">%s</xbrldi:explicitMember>`, m.Dim.qname(), c.Pad+m.Mem.qname()+c.Pad)
			} else {
				fmt.Fprintf(&b, `<xbrldi:typedMember dimension="%s"><%s>%s</%s></xbrldi:typedMember>`, m.Dim.qname(), m.Typed.qname(), c.Pad+esc(m.Value)+c.Pad, m.Typed.qname())
			}
		}
	}
	if len(c.Seg) > 0 {
		b.WriteString("<xbrli:segment>")
		members(c.Seg)
		b.WriteString("</xbrli:segment>")
	}
	b.WriteString("</xbrli:entity><xbrli:period>")
	if c.Instant != "" {
		fmt.Fprintf(&b, "<xbrli:instant>%s</xbrli:instant>", c.Pad+esc(c.Instant)+c.Pad)
	}
	if c.Start != "" || c.End != "" {
		fmt.Fprintf(&b, "<xbrli:startDate>%s</xbrli:startDate><xbrli:endDate>%s</xbrli:endDate>", c.Pad+esc(c.Start)+c.Pad, c.Pad+esc(c.End)+c.Pad)
	}
	b.WriteString("</xbrli:period>")
	if len(c.Scen) > 0 {
		b.WriteString("<xbrli:scenario>")
		members(c.Scen)
		b.WriteString("</xbrli:scenario>")
	}
	b.WriteString("</xbrli:context>\n")
	return b.String()
}

func (f *Filing) emitInstance() string {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>
<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"`)
	for _, p := range instancePrefixes {
		fmt.Fprintf(&b, ` xmlns:%s="%s"`, p[0], p[1])
	}
	b.WriteString(">\n")
	refs := f.Inst.SchemaRefs
	if refs == nil && len(f.Schemas) > 0 {
		refs = []string{f.Schemas[0].File}
	}
	for _, r := range refs {
		fmt.Fprintf(&b, `<link:schemaRef xlink:href="%s" xlink:type="simple"/>`+"\n", esc(r))
	}
	for _, c := range f.Inst.Contexts {
		b.WriteString(c.emit())
	}
	for _, u := range f.Inst.Units {
		if u.Den == "" {
			fmt.Fprintf(&b, `<xbrli:unit id="%s"><xbrli:measure>%s</xbrli:measure></xbrli:unit>`+"\n", u.ID, u.Pad+u.Num+u.Pad)
		} else {
			fmt.Fprintf(&b, `<xbrli:unit id="%s"><xbrli:divide><xbrli:unitNumerator><xbrli:measure>%s</xbrli:measure></xbrli:unitNumerator><xbrli:unitDenominator><xbrli:measure>%s</xbrli:measure></xbrli:unitDenominator></xbrli:divide></xbrli:unit>`+"\n", u.ID, u.Pad+u.Num+u.Pad, u.Pad+u.Den+u.Pad)
		}
	}
	for _, x := range f.Inst.Facts {
		fmt.Fprintf(&b, `<%s contextRef="%s"`, x.Concept.qname(), esc(x.ctx()))
		if x.ID != "" {
			fmt.Fprintf(&b, ` id="%s"`, esc(x.ID))
		}
		if x.Unit != "" {
			fmt.Fprintf(&b, ` unitRef="%s"`, x.Unit)
		}
		if x.Decimals != "" {
			fmt.Fprintf(&b, ` decimals="%s"`, x.Decimals)
		}
		if x.Nil != "" {
			fmt.Fprintf(&b, ` xsi:nil="%s"`, x.Nil)
		}
		fmt.Fprintf(&b, `>%s</%s>`+"\n", x.Inner, x.Concept.qname())
	}
	for _, l := range f.Inst.FootLinks {
		fmt.Fprintf(&b, `<link:footnoteLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link"`)
		if l.Title != "" {
			fmt.Fprintf(&b, ` xlink:title="%s"`, esc(l.Title))
		}
		b.WriteString(">\n")
		for _, loc := range l.Locs {
			fmt.Fprintf(&b, `<link:loc xlink:type="locator" xlink:href="%s" xlink:label="%s"/>`, esc(loc.Href), esc(loc.Label))
		}
		for _, n := range l.Notes {
			fmt.Fprintf(&b, `<link:footnote xlink:type="resource" id="%s" xlink:label="%s" xlink:role="http://www.xbrl.org/2003/role/footnote" xml:lang="%s">%s</link:footnote>`, esc(n.ID), esc(n.Label), n.Lang, n.Inner)
		}
		for _, a := range l.Arcs {
			fmt.Fprintf(&b, `<link:footnoteArc xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s"/>`, arcFoot, esc(a[0]), esc(a[1]))
		}
		b.WriteString("</link:footnoteLink>\n")
	}
	b.WriteString("</xbrli:xbrl>\n")
	return b.String()
}

func (x *Fact) ctx() string {
	if x.CtxRef != "" {
		return x.CtxRef
	}
	return x.Ctx.ID
}

func (d *Inline) emit() string {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>
<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrli="http://www.xbrl.org/2003/instance"`)
	for _, p := range d.Prefixes {
		fmt.Fprintf(&b, ` xmlns:%s="%s"`, p[0], p[1])
	}
	b.WriteString("><head><title>t</title></head><body>\n<div style=\"display:none\"><ix:header><ix:references><link:schemaRef xlink:type=\"simple\" xlink:href=\"e.xsd\"/></ix:references><ix:resources></ix:resources></ix:header></div>\n")
	for _, e := range d.Elems {
		el := "nonNumeric"
		if e.Numeric {
			el = "nonFraction"
		}
		fmt.Fprintf(&b, `<p><ix:%s name="%s" contextRef="%s"`, el, esc(e.Name), esc(e.Ctx))
		if e.ID != "" {
			fmt.Fprintf(&b, ` id="%s"`, esc(e.ID))
		}
		fmt.Fprintf(&b, `>%s</ix:%s></p>`+"\n", e.Text, el)
	}
	b.WriteString(d.Body)
	b.WriteString("</body></html>\n")
	return b.String()
}

func (f *Filing) entry() string {
	if f.Entry != "" {
		return f.Entry
	}
	if f.Inline != nil {
		return "f.xhtml"
	}
	return "f.xml"
}

// files returns the folder content by file name.
func (f *Filing) files() map[string][]byte {
	m := map[string][]byte{}
	for _, s := range f.Schemas {
		m[s.File] = respell([]byte(s.emit(f)))
	}
	for _, l := range f.P {
		m[l.File] = respell([]byte(l.emit("presentationLink", "presentationArc")))
	}
	for _, l := range f.D {
		m[l.File] = respell([]byte(l.emit("definitionLink", "definitionArc")))
	}
	for _, l := range f.C {
		m[l.File] = respell([]byte(l.emit("calculationLink", "calculationArc")))
	}
	for _, l := range f.L {
		m[l.File] = respell([]byte(l.emit("labelLink", "labelArc")))
	}
	if f.Inst != nil {
		name := f.entry()
		if f.Inline != nil {
			name += ".xml"
		}
		m[name] = respell([]byte(f.emitInstance()))
	}
	if f.Inline != nil {
		m[f.entry()] = []byte(f.Inline.emit())
	}
	for k, v := range f.Extra {
		m[k] = v
	}
	for k, v := range f.Raw {
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	meta, _ := json.Marshal(map[string]string{"Entry": f.entry(), "Note": ""})
	if _, ok := m["_"]; !ok {
		m["_"] = meta
	}
	return m
}

func writeFiles(dir string, files map[string][]byte) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal(err)
	}
	for name, data := range files {
		p := filepath.Join(dir, name)
		if strings.Contains(name, "/") {
			os.MkdirAll(filepath.Dir(p), 0o755)
		}
		if err := os.WriteFile(p, data, 0o644); err != nil {
			fatal(err)
		}
	}
}
