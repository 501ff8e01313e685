package main

import (
	"fmt"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/pkg/renderables"
)

// Files of the same names lie in the folder and around it. Each carries the
// mark of its place, which shows in the output when the file is taken in.
var p23Inside = []string{"in", "sub"}
var p23Outside = []string{"folders", "wd", "top", "other"}

func p23Dir(e *Env, place string) string {
	switch place {
	case "folders":
		return filepath.Join(e.wd, "folders")
	case "wd":
		return e.wd
	case "top":
		return e.dir
	}
	return filepath.Join(e.wd, "folders", "other")
}

func mark(place string) string { return "MARK-" + place + "." }

const role2 = "http://e.example/role/2"

func p23Filing() *Filing {
	f, cs := basic(1)
	s := f.Schemas[0]
	s.Roles = append(s.Roles, Role{ID: "r2", URI: role2, Def: "0002 - Two"})
	for _, p := range append(append([]string{}, p23Inside...), p23Outside...) {
		s.add(&Concept{ID: mark(p), Name: "M" + p})
	}
	l := linkOver(role1, []*Concept{cs[0], taxConcept(0)})
	l.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(cs[0]), To: locLabel(taxConcept(0)), Order: "1"}}
	f.P = []*Linkbase{{File: "p0.xml", Links: []*XLink{l}}}
	f.addFact(cs[0], f.Inst.Contexts[0])
	return f
}

// p23Files are the files of one place.
func p23Files(place string) map[string][]byte {
	f := p23Filing()
	c := f.Schemas[0].Concepts[0]
	var m *Concept
	for _, k := range f.Schemas[0].Concepts {
		if k.ID == mark(place) {
			m = k
		}
	}
	s := newSchema("t.xsd", nsEnt)
	s.NoAuto = true
	s.Roles = []Role{{ID: "m", URI: "http://e.example/role/" + place, Def: mark(place)}}
	rows := []*Concept{c, m}
	mk := func(arcrole, weight string) *Linkbase {
		l := linkOver(role2, rows)
		l.Arcs = []Arc{{Arcrole: arcrole, From: locLabel(c), To: locLabel(m), Order: "1", Weight: weight}}
		return &Linkbase{Links: []*XLink{l}}
	}
	lab := linkOver("http://www.xbrl.org/2003/role/link", rows[:1])
	lab.Labels = []LabelRes{{Label: "lab", Role: roleLabel, Lang: "en-US", Text: mark(place)}}
	lab.Arcs = []Arc{{Arcrole: arcLab, From: locLabel(c), To: "lab", Order: "1"}}
	return map[string][]byte{
		"t.xsd": []byte(s.emit(f)),
		"p.xml": []byte(mk(arcPC, "").emit("presentationLink", "presentationArc")),
		"d.xml": []byte(mk(arcDM, "").emit("definitionLink", "definitionArc")),
		"c.xml": []byte(mk(arcSI, "1").emit("calculationLink", "calculationArc")),
		"l.xml": []byte((&Linkbase{Links: []*XLink{lab}}).emit("labelLink", "labelArc")),
	}
}

func p23Setup(e *Env) {
	for _, p := range p23Outside {
		writeFiles(p23Dir(e, p), p23Files(p))
	}
	for i, p := range p23Globals {
		name := filepath.Join(e.gts, "concepts", p)
		os.MkdirAll(filepath.Dir(name), 0o755)
		if err := os.WriteFile(name, []byte(p23Schema(i)), 0o644); err != nil {
			fatal(err)
		}
	}
}

var p23Positions = []string{"schemaRef", "import", "include", "p", "d", "c", "l"}

func p23Decide(pos int, ref string, must string) Exec {
	return func(e *Env) string {
		ref := strings.ReplaceAll(ref, "$WD", e.wd)
		f := p23Filing()
		for _, p := range p23Inside {
			for name, b := range p23Files(p) {
				if p == "sub" {
					name = "sub/" + name
				}
				if f.Extra == nil {
					f.Extra = map[string][]byte{}
				}
				f.Extra[name] = b
			}
		}
		s := f.Schemas[0]
		s.NoAuto = true
		s.LBRefs = []LBRef{{refPres, "p0.xml"}}
		file := "t.xsd"
		switch pos {
		case 0:
			f.Inst.SchemaRefs = []string{"e.xsd", ref + file}
		case 1:
			s.Imports = append(s.Imports, Import{nsEnt, ref + file})
		case 2:
			s.Includes = append(s.Includes, ref+file)
		default:
			file = p23Positions[pos] + ".xml"
			s.LBRefs = append(s.LBRefs, LBRef{[]string{refPres, refDef, refCalc, refLabel}[pos-3], ref + file})
		}
		e.desc = p23Positions[pos] + " " + ref + file
		h, err := e.open(f)
		if err != nil {
			return "loading failed: " + err.Error()
		}
		cat, err := e.catalog(h)
		if err != nil {
			return "no catalog: " + err.Error()
		}
		for _, r := range sortedKeys(cat.Networks[scheme1+"/0001"]) {
			b, err := renderables.MarshalRenderable(cat.Networks[scheme1+"/0001"][r], h)
			if err != nil {
				return "rendering failed: " + err.Error()
			}
			e.outcome += string(b)
		}
		for _, p := range p23Outside {
			if strings.Contains(e.outcome, mark(p)) {
				return fmt.Sprintf("%s of %q shows a file of %s", p23Positions[pos], ref+file, p23Dir(e, p))
			}
		}
		if must != "" && !strings.Contains(e.outcome, mark(must)) {
			return fmt.Sprintf("%s of %q is not shown", p23Positions[pos], ref+file)
		}
		return ""
	}
}

var p23Segments = []string{"..", "sub", ".", "", "other", "folders", "wd", "%2e%2e", "..%2f..", `..\..`, "...", "~", ".. "}

func p23Paths(max int, alphabet []string) Family {
	return Family{Name: fmt.Sprintf("paths%d", len(alphabet)), Bounds: fmt.Sprintf("references of up to %d steps from %q before the file name, in every referencing position", max, alphabet),
		Gen: func(c *Chooser) Exec {
			pos := c.Choose(len(p23Positions))
			n := c.Choose(max + 1)
			ref := ""
			for i := 0; i < n; i++ {
				ref += alphabet[c.Choose(len(alphabet))] + "/"
			}
			must := ""
			if ref == "" {
				must = "in"
			} else if ref == "sub/" {
				must = "sub"
			}
			return p23Decide(pos, ref, must)
		}}
}

func p23Absolute() Family {
	heads := []string{"$WD/", "file://$WD/", "file:$WD/", "file://localhost$WD/", "file:///$WD/", "http://t.example/../../../wd/", "http://../../../wd/", "//$WD/", "/../../../../../../../../../../../../..$WD/"}
	return Family{Name: "absolute", Bounds: fmt.Sprintf("absolute spellings %q, continued to each place outside, in every position", heads),
		Gen: func(c *Chooser) Exec {
			return p23Decide(c.Choose(len(p23Positions)), heads[c.Choose(len(heads))]+pick(c, "", "folders/", "folders/other/", "../", "folders/../", "../wd/"), "")
		}}
}

// Taxonomy URLs.

var p23Globals = []string{"http/t.example/x.xsd", "http/t.example/a/x.xsd", "http/t.example/a/a/x.xsd", "https/t.example/x.xsd", "https/t.example/a/x.xsd",
	"http/u.example/x.xsd", "http/u.example/a/x.xsd", "http/x.xsd", "http/a/x.xsd", "x.xsd", "a/x.xsd", "../x.xsd", "../../x.xsd", "../../wd/x.xsd", "http/t.example/b/y.xsd",
	"http/t.example/A/x.xsd", "http/t.example/X.xsd", "http/t.example/a/X.xsd", "http/t.example/a b/x.xsd", "http/t.example/a+b/x.xsd", "http/t.example/a.a/x.xsd"}

const nsGlobal = nsEnt + "4"

func p23Schema(i int) string {
	s := newSchema("x.xsd", nsGlobal)
	s.NoAuto = true
	s.add(&Concept{ID: "S_" + itoa(i), Name: "S"})
	return s.emit(&Filing{})
}

type p23URL struct {
	text     string
	required bool
	allowed  int // index of the file the URL names, or -1
}

// urlParts are the steps and endings of taxonomy URLs.
type urlParts struct {
	name          string
	steps, ending []string
}

var (
	urlSpellings = urlParts{"urls", []string{"a", "..", ".", "", "%2e%2e", "..%2f..", "%61", "a%2f..", "t.example", "x.xsd"}, []string{"x.xsd", "x.xsd?q=../y", "..", "b", ""}}
	urlNames     = urlParts{"names", []string{"a", "A", "a%20b", "a+b", "a%2Bb", "a.a", ".."}, []string{"x.xsd", "X.xsd", "x.XSD", "x%2Exsd", "x.xsd#a"}}
)

func p23ChooseURL(c *Chooser, max int, parts urlParts) p23URL {
	scheme := pick(c, "http", "https", "HTTP", "ftp")
	host := pick(c, "t.example", "u.example", "v.example", "..", ".", "t.example:80", "u@t.example")
	u := p23URL{text: scheme + "://" + host + "/", allowed: -1}
	plain := (scheme == "http" || scheme == "https") && strings.HasSuffix(host, ".example")
	n := c.Choose(max + 1)
	for i := 0; i < n; i++ {
		seg := pick(c, parts.steps...)
		u.text += seg + "/"
		plain = plain && !strings.Contains(seg, "%") && strings.Trim(seg, ".") != ""
	}
	u.text += pick(c, parts.ending...)
	if p, err := url.Parse(u.text); err == nil && p.Hostname() != ".." && p.Hostname() != "." {
		want := p.Scheme + "/" + p.Hostname() + path.Clean("/"+p.Path)
		for i, g := range p23Globals {
			if g == want {
				u.allowed = i
			}
		}
		if strings.HasSuffix(p.Path, "/") {
			plain = false
		}
	}
	u.required = plain && u.allowed >= 0
	return u
}

func p23Global(max int, parts urlParts) Family {
	return Family{Name: parts.name, Bounds: fmt.Sprintf("taxonomy URLs over 4 schemes, 7 hosts, up to %d steps of %q and endings %q, as the location of an import", max, parts.steps, parts.ending),
		Gen: func(c *Chooser) Exec {
			u := p23ChooseURL(c, max, parts)
			return func(e *Env) string {
				e.desc = u.text
				f, cs := basic(1)
				s := f.Schemas[0]
				s.Imports = append(s.Imports, Import{nsGlobal, u.text})
				l := linkOver(role1, cs)
				con := &Concept{Name: "S", ns: nsGlobal, ID: "S", schemaLoc: u.text}
				for i := range p23Globals {
					l.Locs = append(l.Locs, Loc{Label: "g" + itoa(i), Href: u.text + "#S_" + itoa(i)})
					l.Arcs = append(l.Arcs, Arc{Arcrole: arcPC, From: locLabel(cs[0]), To: "g" + itoa(i), Order: itoa(i)})
				}
				f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{l}}}
				f.addFact(cs[0], f.Inst.Contexts[0])
				f.addFact(con, f.Inst.Contexts[0])
				n, err := e.render(f)
				if err != nil {
					return "loading failed: " + err.Error()
				}
				shown := -1
				for r, row := range n.PGrid.IndentedLabels {
					k := strings.LastIndex(row.Href, "#S_")
					if k < 0 {
						continue
					}
					for _, cell := range n.PGrid.FactualQuadrant[r] {
						if cell["Unlabelled"].Core+cell["unlabelled"].Core != "" || anyText(cell) {
							fmt.Sscanf(row.Href[k:], "#S_%d", &shown)
						}
					}
				}
				if shown >= 0 && shown != u.allowed {
					return fmt.Sprintf("%s shows the concept of %s", u.text, p23Globals[shown])
				}
				if u.required && shown != u.allowed {
					return fmt.Sprintf("%s does not show the concept of %s", u.text, p23Globals[u.allowed])
				}
				return ""
			}
		}}
}

func anyText(cell map[string]Expr) bool {
	for _, x := range cell {
		if x.Core != "" || x.InnerHtml != "" {
			return true
		}
	}
	return false
}

// globalFile is the loader of taxonomy files, when it has its usual form.
var globalFile func(string) ([]byte, error)

func p23Errors(max int, parts urlParts) Family {
	return Family{Name: parts.name + "-errors", Bounds: fmt.Sprintf("the URLs of the family %s with up to %d steps, asked from the taxonomy file loader", parts.name, max),
		Gen: func(c *Chooser) Exec {
			u := p23ChooseURL(c, max, parts)
			return func(e *Env) string {
				e.desc = u.text
				b, err := globalFile(u.text)
				e.outcome += fmt.Sprint(string(b), err != nil)
				switch {
				case err != nil && u.required:
					return fmt.Sprintf("%s: %v", u.text, err)
				case err == nil && u.allowed < 0:
					return fmt.Sprintf("%s has no file and gives %d bytes and no error", u.text, len(b))
				case err == nil && string(b) != p23Schema(u.allowed):
					return fmt.Sprintf("%s does not give the content of %s", u.text, p23Globals[u.allowed])
				}
				return ""
			}
		}}
}

func init() {
	register(&Check{ID: "P23", Setup: p23Setup,
		Rule:   "nothing from files around the folder or the taxonomy directory shows up, plain references and URLs show their file, and URLs without a file are errors",
		Assume: []string{"no symbolic links inside the folder or the taxonomy directory", "only the content of files is judged, not whether a file outside is opened"},
		Families: func(thorough bool) []Family {
			n, m, k := 3, 5, 3
			if thorough {
				n, m, k = 4, 7, 4
			}
			fams := []Family{p23Paths(n, p23Segments), p23Paths(m, p23Segments[:4]), p23Absolute(), p23Global(k, urlSpellings), p23Global(2, urlNames)}
			if globalFile != nil {
				fams = append(fams, p23Errors(k+1, urlSpellings), p23Errors(3, urlNames))
			}
			return fams
		}})
}
