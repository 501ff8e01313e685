package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strconv"
	"strings"
)

// spelling is the way files are written out: the same content in other XML.
// Inline documents
// and the content of facts and footnotes, which is shown verbatim, are left
// alone.
var spelling int

var spellings = []string{
	"as it is",
	"elements of the root's namespace without prefix",
	"other prefixes",
	"attributes in reverse order between line breaks and in single quotes",
	"comments, instructions and white space between elements",
	"optional attributes, documentation and elements of another namespace added",
	"line ends of two characters after a byte order mark",
	"text in CDATA sections and character references",
	"truth values as digits and numbers with signs and zeros",
}

// spelled runs the leaves of a family in every spelling.
func spelled(f Family) Family {
	return Family{Name: f.Name + "-spelled", Bounds: f.Bounds + "; the files written in each of these ways: " + strings.Join(spellings[1:], ", "),
		Gen: func(c *Chooser) Exec {
			s := 1 + c.Choose(len(spellings)-1)
			exec := f.Gen(c)
			if exec == nil {
				return nil
			}
			return func(e *Env) string {
				spelling = s
				defer func() { spelling = 0 }()
				return exec(e)
			}
		}}
}

// qnameAttrs and qnameTexts hold prefixed names.
var qnameAttrs = map[string]bool{"type": true, "substitutionGroup": true, "dimension": true}
var qnameTexts = map[string]bool{"measure": true, "explicitMember": true}

// truthAttrs and numberAttrs hold values that can be written in several ways.
var truthAttrs = map[string]bool{"abstract": true, "nillable": true, "nil": true, "closed": true, "usable": true}
var numberAttrs = map[string]bool{"order": true, "weight": true, "decimals": true}

// otherValue writes a truth value or a number in another way.
func otherValue(name, v string) string {
	if truthAttrs[name] {
		switch v {
		case "true":
			return "1"
		case "false":
			return "0"
		}
	}
	if _, err := strconv.ParseFloat(v, 64); err == nil && numberAttrs[name] && v != "INF" {
		sign := "+"
		if v[0] == '-' || v[0] == '+' {
			sign, v = v[:1], v[1:]
		}
		if name != "decimals" {
			if !strings.Contains(v, ".") {
				v += "."
			}
			v += "0"
		}
		return sign + "0" + v
	}
	return v
}

// otherPrefix begins the prefixes of the second spelling.
const otherPrefix = "q.9-"

// reference writes every character as a reference.
func reference(s string) string {
	var b strings.Builder
	for _, r := range s {
		fmt.Fprintf(&b, "&#x%x;", r)
	}
	return b.String()
}

// respell writes a file in the chosen spelling.
func respell(data []byte) []byte {
	if spelling == 0 {
		return data
	}
	d := xml.NewDecoder(bytes.NewReader(data))
	var b strings.Builder
	var open []string
	root := ""
	prefix := func(p string) string {
		switch {
		case p == "" || p == "xml" || p == "xmlns":
			return p
		case spelling == 2:
			return otherPrefix + p
		}
		return p
	}
	element := func(n xml.Name) string {
		p := prefix(n.Space)
		if spelling == 1 && n.Space == root {
			p = ""
		}
		if p == "" {
			return n.Local
		}
		return p + ":" + n.Local
	}
	qname := func(v string) string {
		p, l, ok := strings.Cut(v, ":")
		switch {
		case !ok:
			return v
		case spelling == 2:
			return strings.Replace(v, strings.TrimSpace(p), otherPrefix+strings.TrimSpace(p), 1)
		case spelling == 1 && strings.TrimSpace(p) == root:
			return strings.Replace(v, strings.TrimSpace(p)+":"+l, l, 1)
		}
		return v
	}
	// nothing is added inside elements with text
	loose := map[string]bool{"xbrl": true, "context": true, "entity": true, "segment": true, "scenario": true, "period": true, "unit": true, "divide": true, "linkbase": true, "presentationLink": true, "definitionLink": true, "calculationLink": true, "labelLink": true, "footnoteLink": true, "schema": true, "appinfo": true, "roleType": true}
	filler := func() {
		if len(open) > 0 && loose[open[len(open)-1]] && spelling == 4 {
			b.WriteString("\n<!-- <x> -->\t<?note x?>\n")
		}
	}
	// the content of facts and footnotes is shown as written
	verbatim := -1
	structure := map[string]bool{"schemaRef": true, "context": true, "unit": true, "footnoteLink": true}
	for {
		from := d.InputOffset()
		t, err := d.RawToken()
		if err != nil {
			break
		}
		if verbatim >= 0 {
			switch t.(type) {
			case xml.StartElement:
				open = append(open, "")
			case xml.EndElement:
				if len(open) > verbatim {
					open = open[:len(open)-1]
				} else {
					verbatim = -1
				}
			}
			if verbatim >= 0 {
				b.Write(data[from:d.InputOffset()])
				continue
			}
		}
		switch x := t.(type) {
		case xml.ProcInst:
			fmt.Fprintf(&b, "<?%s %s?>\n", x.Target, x.Inst)
			if spelling == 4 {
				b.WriteString("<!-- a file -->\n")
			}
		case xml.StartElement:
			filler()
			if len(open) == 0 {
				root = x.Name.Space
			}
			b.WriteString("<" + element(x.Name))
			var attrs []string
			for _, a := range x.Attr {
				name, value := a.Name.Local, a.Value
				switch {
				case a.Name.Space == "xmlns":
					if spelling == 1 && a.Name.Local == root && len(open) == 0 {
						attrs = append(attrs, `xmlns="`+esc(a.Value)+`"`)
					}
					name = "xmlns:" + prefix(a.Name.Local)
					if spelling == 2 {
						// prefixes that differ only in case are different
						attrs = append(attrs, `xmlns:`+strings.ToUpper(prefix(a.Name.Local))+`="http://decoy.example/`+a.Name.Local+`"`)
					}
				case a.Name.Space != "":
					name = prefix(a.Name.Space) + ":" + a.Name.Local
				case qnameAttrs[a.Name.Local]:
					value = qname(value)
				}
				if spelling == 8 {
					value = otherValue(a.Name.Local, value)
				}
				value = esc(value)
				if spelling == 7 && a.Name.Space != "xmlns" {
					value = reference(a.Value)
				}
				attrs = append(attrs, name+`="`+value+`"`)
			}
			if spelling == 5 {
				if len(open) == 0 {
					attrs = append(attrs, `xmlns:other="http://other.example/o"`)
				}
				attrs = append(attrs, `other:note="n"`)
				if strings.HasSuffix(x.Name.Local, "Arc") {
					attrs = append(attrs, `use="optional"`, `priority="0"`)
				}
			}
			for i := range attrs {
				if spelling == 3 {
					a := attrs[len(attrs)-1-i]
					if !strings.Contains(a, "'") {
						a = strings.ReplaceAll(a, `"`, "'")
					}
					b.WriteString("\n  " + a)
				} else {
					b.WriteString(" " + attrs[i])
				}
			}
			b.WriteString(">")
			open = append(open, x.Name.Local)
			if x.Name.Local == "footnote" || len(open) == 2 && open[0] == "xbrl" && !structure[x.Name.Local] {
				verbatim = len(open)
			}
			if spelling == 5 {
				switch x.Name.Local {
				case "schema":
					p := x.Name.Space
					fmt.Fprintf(&b, "<%s:annotation><%s:documentation>d</%s:documentation></%s:annotation>", p, p, p, p)
				case "linkbase", "presentationLink", "definitionLink", "calculationLink", "labelLink":
					b.WriteString("<link:documentation>d</link:documentation>")
				case "appinfo":
					b.WriteString(`<other:thing id="x"><other:roleType roleURI="u" id="y"/><other:linkbaseRef/></other:thing>`)
				}
			}
		case xml.EndElement:
			filler()
			open = open[:len(open)-1]
			b.WriteString("</" + element(x.Name) + ">")
		case xml.CharData:
			s := string(x)
			if len(open) > 0 && qnameTexts[open[len(open)-1]] {
				s = qname(s)
			}
			switch {
			case spelling == 7 && len(open) > 0 && strings.TrimSpace(s) != "":
				h := len(s) / 2
				for h > 0 && s[h]&0xc0 == 0x80 {
					h--
				}
				b.WriteString(reference(s[:h]))
				b.WriteString("<![CDATA[" + strings.ReplaceAll(s[h:], "]]>", "]]]]><![CDATA[>") + "]]>")
			default:
				b.WriteString(strings.ReplaceAll(esc(s), "&#34;", "\""))
			}
		}
	}
	s := b.String()
	if spelling == 6 {
		s = "\ufeff" + strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}
