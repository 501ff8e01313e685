package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
)

// A span is an element of a file: its name without the prefix, the bytes of
// the whole and of its start tag, and its parent.
type span struct {
	name            string
	from, head, end int
	parent          int
}

func spansOf(data []byte) []span {
	var out []span
	var open []int
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = false
	for {
		from := int(d.InputOffset())
		tok, err := d.RawToken()
		if err != nil {
			return out
		}
		switch t := tok.(type) {
		case xml.StartElement:
			parent := -1
			if len(open) > 0 {
				parent = open[len(open)-1]
			}
			open = append(open, len(out))
			out = append(out, span{t.Name.Local, from, int(d.InputOffset()), 0, parent})
		case xml.EndElement:
			out[open[len(open)-1]].end = int(d.InputOffset())
			open = open[:len(open)-1]
		}
	}
}

// A lack turns an entry into one that lacks something, "" if it cannot.
type lack struct {
	what string
	make func(entry string) string
}

// without takes an attribute away from the start tag.
func without(attr string) lack {
	re := regexp.MustCompile(`^(<[^<>]*?)\s(?:[A-Za-z]+:)?` + attr + `="[^"]*"`)
	return lack{"without " + attr, func(s string) string {
		if !re.MatchString(s) {
			return ""
		}
		return re.ReplaceAllString(s, "$1")
	}}
}

// having gives an attribute of the start tag another value.
func having(attr, value string) lack {
	re := regexp.MustCompile(`^(<[^<>]*?\s(?:[A-Za-z]+:)?` + attr + `=")[^"]*"`)
	return lack{fmt.Sprintf("with %s=%q", attr, value), func(s string) string {
		if !re.MatchString(s) {
			return ""
		}
		return re.ReplaceAllString(s, "${1}"+value+`"`)
	}}
}

// inside changes the first match of a pattern inside the entry.
func inside(what, pattern, with string) lack {
	re := regexp.MustCompile("(?s)" + pattern)
	return lack{what, func(s string) string {
		m := re.FindStringSubmatchIndex(s)
		if m == nil {
			return ""
		}
		return s[:m[0]] + string(re.ExpandString(nil, with, s, m)) + s[m[1]:]
	}}
}

// lacking has an attribute taken away and left blank.
func lacking(attrs ...string) (out []lack) {
	for _, a := range attrs {
		out = append(out, without(a), having(a, ""))
	}
	return out
}

var (
	noText  = inside("without text", `>[^<]+<`, "><")
	lacksOf = map[string][]lack{}
	foreign = lack{"of another namespace", func(s string) string {
		name := regexp.MustCompile(`^<([-\w]+:)?([-\w]+)`).FindStringSubmatch(s)
		s = "<zz:" + name[2] + ` xmlns:zz="http://zz.example"` + s[len(name[0]):]
		if i := strings.LastIndex(s, "</"); i >= 0 {
			s = s[:i] + "</zz:" + name[2] + ">"
		}
		return s
	}}
)

func init() {
	for _, k := range []string{"presentation", "definition", "calculation", "label", "footnote"} {
		lacksOf[k+"Link"] = append(lacking("type", "role"), having("type", "simple"))
		lacksOf[k+"Arc"] = append(lacking("type", "arcrole", "from", "to"), having("type", "locator"))
	}
	lacksOf["calculationArc"] = append(lacksOf["calculationArc"], lacking("weight")...)
	lacksOf["loc"] = append(lacking("type", "label", "href"), having("type", "arc"))
	lacksOf["label"] = lacking("label", "role", "lang")
	lacksOf["footnote"] = append(lacking("type", "label"), having("type", "locator"))
	lacksOf["roleRef"] = append(lacking("roleURI", "href"), foreign)
	lacksOf["roleType"] = append(lacking("roleURI"), foreign)
	lacksOf["element"] = append(lacking("id", "name", "type"), foreign)
	lacksOf["linkbaseRef"] = lacking("href")
	lacksOf["import"] = lacking("schemaLocation")
	lacksOf["context"] = append(lacking("id"), foreign,
		inside("without entity", `<xbrli:entity.*</xbrli:entity>`, ""),
		inside("without identifier", `<xbrli:identifier.*</xbrli:identifier>`, ""),
		inside("without text in identifier", `(<xbrli:identifier[^>]*>)[^<]*<`, "$1<"),
		inside("with a blank identifier", `(<xbrli:identifier[^>]*>)[^<]*<`, "$1 \n<"),
		inside("without scheme", `<xbrli:identifier[^>]*>`, "<xbrli:identifier>"),
		inside("with an empty scheme", `<xbrli:identifier[^>]*>`, `<xbrli:identifier scheme="">`))
	lacksOf["unit"] = append(lacking("id"), foreign)
	lacksOf["explicitMember"] = append(lacking("dimension"), having("dimension", "ent:Zz"), having("dimension", "zz:Dim"), having("dimension", "Dim"), noText,
		inside("with an undeclared member", `>[^<]+<`, ">ent:Zz<"), inside("with an undeclared prefix", `>[^<]+<`, ">zz:Mem<"))
	lacksOf["typedMember"] = append(lacking("dimension"), having("dimension", "ent:Zz"), having("dimension", "zz:TDim"), having("dimension", "TDim"))
	lacksOf["fact"] = append(lacking("contextRef"), having("contextRef", "zz"), foreign)
	lacksOf["nonFraction"] = append(lacking("name", "contextRef"), having("name", "ent:Zz"), having("name", "C0"), having("contextRef", "zz"))
	lacksOf["nonNumeric"] = lacksOf["nonFraction"]
}

// kindOf is the kind of entry an element is.
func p27Kind(file string, spans []span, i int) string {
	s := spans[i]
	if s.parent == 0 && spans[0].name == "xbrl" && s.name != "context" && s.name != "unit" && s.name != "footnoteLink" && s.name != "schemaRef" {
		return "fact"
	}
	return s.name
}

// An addition is an incomplete entry and where it goes.
type addition struct {
	file, what string
	at         int
	text       string
	core       bool
}

// additionsTo lists the incomplete entries made from the entries of a file:
// of the first most and the last of a kind with the same parent, each before
// the first, after the first, after the second and after the last of them.
func additionsTo(file string, data []byte, most int) []addition {
	spans := spansOf(data)
	var out []addition
	type group struct {
		parent int
		kind   string
	}
	members := map[group][]int{}
	var order []group
	for i := range spans {
		g := group{spans[i].parent, p27Kind(file, spans, i)}
		if len(lacksOf[g.kind]) == 0 {
			continue
		}
		if members[g] == nil {
			order = append(order, g)
		}
		members[g] = append(members[g], i)
	}
	fresh := regexp.MustCompile(`^(<[^<>]*?\sid=")[^"]+"`)
	seen := map[string]bool{}
	for _, g := range order {
		ids := members[g]
		places := []int{spans[ids[0]].from}
		for k, i := range ids {
			if k < 2 || k == len(ids)-1 {
				places = append(places, spans[i].end)
			}
		}
		for k, i := range ids {
			if k >= most && k < len(ids)-1 {
				continue
			}
			entry := string(data[spans[i].from:spans[i].end])
			for _, l := range lacksOf[g.kind] {
				text := l.make(entry)
				if text == "" {
					continue
				}
				text = fresh.ReplaceAllString(text, `${1}zz0"`)
				if g.kind == "context" {
					text += `<ent:C0 id="zz1" contextRef="zz0" unitRef="usd" decimals="0">77</ent:C0>`
				}
				for p, at := range places {
					key := fmt.Sprint(text, at)
					if seen[key] {
						continue
					}
					seen[key] = true
					out = append(out, addition{file, fmt.Sprintf("%s: <%s> %d %s, place %d, %d there", file, spans[i].name, k+1, l.what, p, len(ids)), at, text, k == 0 && p == 0})
				}
			}
		}
	}
	return out
}

// everything is all that is shown of a loaded filing.
func everything(h *hydratables.Hydratable, facts [][2]string) string {
	var out strings.Builder
	b, err := renderables.MarshalCatalog(h)
	fmt.Fprintf(&out, "catalog: %s %v\n", b, err)
	var c Catalog
	if err == nil && json.Unmarshal(b, &c) == nil {
		for _, k := range sortedKeys(c.Networks) {
			for _, r := range sortedKeys(c.Networks[k]) {
				b, err := renderables.MarshalRenderable(c.Networks[k][r], h)
				fmt.Fprintf(&out, "network of %s, %s: %s %v\n", k, r, b, err)
			}
		}
	}
	for _, x := range facts {
		b, err := renderables.MarshalExpressable(x[0], x[1], h)
		fmt.Fprintf(&out, "fact %s, %s: %s %v\n", x[0], x[1], b, err)
	}
	return out.String()
}

// whole is a complete filing, what is shown of it and what can be added.
type whole struct {
	name  string
	files map[string][]byte
	facts [][2]string
	shown string
	adds  []addition
}

func makeWhole(e *Env, name string, f *Filing, most int) *whole {
	if f.Inline != nil {
		// names the context and the concept of incomplete contexts
		f.Inline.Elems = append(f.Inline.Elems, InlineElem{Name: "ent:C0", Ctx: "zz0", Text: "1", Numeric: true})
	}
	w := &whole{name: name, files: f.files()}
	if f.Inline != nil {
		for _, x := range f.Inline.Elems {
			w.facts = append(w.facts, [2]string{x.Name, x.Ctx})
		}
	}
	for _, n := range sortedKeys(w.files) {
		if f.Inline != nil && !strings.HasPrefix(n, f.entry()) {
			continue
		}
		if strings.HasSuffix(n, ".xsd") || strings.HasSuffix(n, ".xml") || strings.HasSuffix(n, ".xhtml") {
			w.adds = append(w.adds, additionsTo(n, w.files[n], most)...)
		}
	}
	shown, err := w.show(e, w.files)
	if err != nil || !strings.Contains(shown, "network of") {
		fatal(fmt.Errorf("the complete filing: %v %s", err, shown))
	}
	w.shown = shown
	e.end()
	return w
}

func (w *whole) show(e *Env, files map[string][]byte) (string, error) {
	e.n++
	id := fmt.Sprintf("x%d", e.n)
	e.ids = append(e.ids, id)
	writeFiles(filepath.Join(e.wd, "folders", id), files)
	h, err := e.load(id)
	if err != nil {
		return "", err
	}
	return everything(h, w.facts), nil
}

func (w *whole) with(xs ...addition) Exec {
	return func(e *Env) string {
		files := map[string][]byte{}
		for k, v := range w.files {
			files[k] = v
		}
		what := ""
		for _, x := range xs {
			// additions to one file are ordered by place, last first
			data := files[x.file]
			files[x.file] = []byte(string(data[:x.at]) + x.text + string(data[x.at:]))
			what += x.what + " (" + clip(x.text, 300) + "); "
		}
		e.desc = w.name + " " + what
		got, err := w.show(e, files)
		if err != nil {
			return fmt.Sprintf("%s: loading failed: %v", what, err)
		}
		e.outcome += got
		if got != w.shown {
			a, b := firstDifference(w.shown, got)
			return fmt.Sprintf("%s changes what is shown from\n%s\nto\n%s", what, a, b)
		}
		return ""
	}
}

// firstDifference is the surroundings of the first difference.
func firstDifference(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 120
	if from < 0 {
		from = 0
	}
	return clip(a[from:], 400), clip(b[from:], 400)
}

var wholes []*whole

func p27Setup(e *Env) {
	wholes = []*whole{makeWhole(e, "rich", richFiling(false), 100), makeWhole(e, "wide", wideFiling(false), 1), makeWhole(e, "inline", wideFiling(true), 100)}
}

func p27One(w *whole) Family {
	return Family{Name: w.name + "-one", Bounds: fmt.Sprintf("the %s filing with one incomplete copy of one of its entries, next to each entry of the kind with the same parent: %d", w.name, len(w.adds)),
		Gen: func(c *Chooser) Exec { return w.with(w.adds[c.Choose(len(w.adds))]) }}
}

// p27Two adds two incomplete entries of the first place of their kinds.
func p27Two(w *whole) Family {
	var core []addition
	for _, x := range w.adds {
		if x.core {
			core = append(core, x)
		}
	}
	return Family{Name: w.name + "-two", Bounds: fmt.Sprintf("the %s filing with any two of %d incomplete entries, each a copy of the first of its kind put before it", w.name, len(core)),
		Gen: func(c *Chooser) Exec {
			i := c.Choose(len(core))
			j := c.Choose(len(core))
			if j < i {
				return nil
			}
			x, y := core[i], core[j]
			if x.file == y.file && x.at < y.at {
				x, y = y, x
			}
			return w.with(x, y)
		}}
}

func init() {
	register(&Check{ID: "P27",
		Rule:  "what is shown of the filing without the incomplete entries",
		Setup: p27Setup,
		Families: func(thorough bool) []Family {
			fams := []Family{p27One(wholes[0]), p27One(wholes[1]), p27One(wholes[2]), p27Two(wholes[0])}
			if thorough {
				fams = append(fams, p27Two(wholes[1]))
			}
			return fams
		}})
}
