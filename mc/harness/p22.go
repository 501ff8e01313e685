//go:build verifweb

package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"regexp"
	"strings"

	"ecksbee.com/telefacts/internal/web"
)

// An edit replaces bytes [from, to) of a file.
type edit struct {
	file     string
	from, to int
	with     string
	what     string
	core     bool // part of the pairs
}

var (
	attrRE    = regexp.MustCompile(`\s([A-Za-z_:][-A-Za-z0-9_:.]*)="([^"]*)"`)
	badValues = []string{"", "x", ":", "#", "a:b", "e.xsd#", "-1", "999999999", "-999999999", "1e999999999", "INF", "NaN", "2020-13-45", "true", "&#233;"}
	badTexts  = []string{"", "x", ":", "a:b", "-", "1e999999999", "-1e-999999999", "Inf", "NaN", "0x1p-2", "1_000", "9999999999999999999999999999999999999999", ".", "2020-02-30", "2020-12-31T24:00:00", "&lt;", "&lt;td colspan=&quot;999999999&quot;&gt;", "&#233;"}
)

// editsOf lists the single edits of a well-formed file.
func editsOf(file string, data []byte) []edit {
	var out []edit
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = false
	type open struct {
		name              string
		start, inner, num int
		leaf              bool
	}
	var stack []open
	n := 0
	add := func(from, to int, with, what string, core bool) {
		out = append(out, edit{file, from, to, with, what, core})
	}
	for {
		from := int(d.InputOffset())
		tok, err := d.RawToken()
		if err != nil {
			break
		}
		to := int(d.InputOffset())
		switch t := tok.(type) {
		case xml.StartElement:
			n++
			name := t.Name.Local
			if t.Name.Space != "" {
				name = t.Name.Space + ":" + name
			}
			if len(stack) > 0 {
				stack[len(stack)-1].leaf = false
			}
			tag := string(data[from:to])
			stack = append(stack, open{name, from, to, n, true})
			for _, m := range attrRE.FindAllStringSubmatchIndex(tag, -1) {
				an := tag[m[2]:m[3]]
				where := fmt.Sprintf("%s: attribute %s of <%s> (%d)", file, an, name, n)
				add(from+m[0], from+m[1], "", where+" removed", true)
				for _, v := range badValues {
					add(from+m[4], from+m[5], v, fmt.Sprintf("%s set to %q", where, v), v == "x")
				}
				add(from+m[1], from+m[1], tag[m[0]:m[1]], where+" repeated", false)
			}
		case xml.EndElement:
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			where := fmt.Sprintf("%s: element <%s> (%d)", file, o.name, o.num)
			whole := string(data[o.start:to])
			add(o.start, to, "", where+" removed", true)
			add(o.start, to, "x", where+" replaced by text", false)
			add(to, to, whole, where+" repeated", false)
			if o.inner <= from && from < to {
				add(o.inner, from, "", where+" emptied", true)
				add(o.start, to, string(data[o.inner:from]), where+" unwrapped", false)
				renamed := strings.Replace(string(data[o.start:o.inner]), o.name, "zz", 1) + string(data[o.inner:from]) + "</zz>"
				add(o.start, to, renamed, where+" renamed", false)
				// the element moved into itself once more
				add(o.inner, o.inner, whole, where+" nested", false)
				if o.leaf {
					for _, v := range badTexts {
						add(o.inner, from, v, fmt.Sprintf("%s with text %q", where, v), false)
					}
				}
			}
		}
	}
	return append(out, crossedEdits(file, data)...)
}

// crossedEdits gives each attribute and simple text the values that other
// attributes and texts of the same kind have in the file.
func crossedEdits(file string, data []byte) []edit {
	kind := func(name string) string {
		if i := strings.IndexByte(name, ':'); i >= 0 && !strings.HasPrefix(name, "xmlns") {
			name = name[i+1:]
		}
		switch name {
		case "from", "to", "label":
			return "label"
		}
		return name
	}
	values := map[string][]string{}
	seen := map[string]bool{}
	note := func(k, v string) {
		if !seen[k+" "+v] {
			seen[k+" "+v] = true
			values[k] = append(values[k], v)
		}
	}
	attrs := attrRE.FindAllSubmatchIndex(data, -1)
	for _, m := range attrs {
		note(kind(string(data[m[2]:m[3]])), string(data[m[4]:m[5]]))
	}
	texts := textRE.FindAllSubmatchIndex(data, -1)
	for _, m := range texts {
		note("<"+string(data[m[2]:m[3]]), string(data[m[4]:m[5]]))
	}
	var out []edit
	for _, m := range attrs {
		for _, v := range values[kind(string(data[m[2]:m[3]]))] {
			if v != string(data[m[4]:m[5]]) {
				out = append(out, edit{file, m[4], m[5], v, fmt.Sprintf("%s: attribute %s at %d set to %q", file, data[m[2]:m[3]], m[2], v), false})
			}
		}
	}
	for _, m := range texts {
		for _, v := range values["<"+string(data[m[2]:m[3]])] {
			if v != string(data[m[4]:m[5]]) {
				out = append(out, edit{file, m[4], m[5], v, fmt.Sprintf("%s: text of <%s> at %d set to %q", file, data[m[2]:m[3]], m[2], v), false})
			}
		}
	}
	return out
}

var textRE = regexp.MustCompile(`<([A-Za-z_][-A-Za-z0-9_:.]*)(?:\s[^<>]*)?>([^<>]+)</`)

func (x edit) apply(data []byte) []byte {
	out := append([]byte{}, data[:x.from]...)
	out = append(out, x.with...)
	return append(out, data[x.to:]...)
}

// brokenBase is a filing with its single edits.
type brokenBase struct {
	name   string
	files  map[string][]byte
	inline bool
	facts  [][2]string
	edits  []edit
	core   []edit
}

var bases []*brokenBase

func makeBases() {
	if bases != nil {
		return
	}
	for _, inline := range []bool{false, true} {
		f := richFiling(inline)
		b := &brokenBase{name: "plain", files: f.files(), inline: inline}
		if inline {
			b.name = "inline"
			for _, e := range f.Inline.Elems {
				b.facts = append(b.facts, [2]string{e.Name, e.Ctx})
			}
			b.facts = append(b.facts, [2]string{"x", "c0"}, [2]string{"ent:C0", "x"}, [2]string{":", ":"}, [2]string{"a:b", "c0"}, [2]string{"", ""})
		}
		for _, name := range sortedKeys(b.files) {
			if name == "_" || name == "i.png" || inline && !strings.HasPrefix(name, "f.xhtml") {
				continue
			}
			b.edits = append(b.edits, editsOf(name, b.files[name])...)
		}
		for _, x := range b.edits {
			if x.core && !strings.Contains(x.what, "attribute xmlns") && !strings.Contains(x.what, "xlink:type") {
				b.core = append(b.core, x)
			}
		}
		bases = append(bases, b)
	}
}

// calm is the answer for the untouched filing loaded next to the broken one.
var calm string

func p22Setup(e *Env) {
	webSetup(e)
	router = web.NewRouter()
	makeBases()
	w := newWorld(e)
	for _, b := range bases {
		w.e.n++
		id := fmt.Sprintf("x%d", w.e.n)
		e.ids = append(e.ids, id)
		writeFiles(filepath.Join(e.wd, "folders", id), b.files)
		if msg := w.visit(id, b); msg != "" {
			fatal(fmt.Errorf("the untouched filing: %s", msg))
		}
		code, body, _ := w.fetch("/folders/" + id)
		var c Catalog
		if code != 200 || json.Unmarshal([]byte(body), &c) != nil || len(c.Networks) == 0 {
			fatal(fmt.Errorf("the untouched filing has no catalog: %d %s", code, body))
		}
	}
	_, calm, _ = w.fetch("/folders/" + w.id("A") + "/" + slug1)
	settle()
	e.end()
}

func (w *world) fetch(target string) (code int, body, problem string) {
	path, query, _ := strings.Cut(target, "?")
	req := &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: query}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "h", Body: http.NoBody}
	rec := httptest.NewRecorder()
	defer func() {
		if p := recover(); p != nil {
			problem = fmt.Sprintf("GET %s crashed: %v\n%s", target, p, stackHere())
		}
	}()
	router.ServeHTTP(rec, req)
	return rec.Code, rec.Body.String(), ""
}

// visit makes every request on a folder and judges the answers.
func (w *world) visit(id string, b *brokenBase) string {
	slugs := []string{slug1}
	if b.inline {
		slugs = append(slugs, "f.xhtml")
	}
	targets := []string{"/folders/" + id}
	for i := 0; i < len(targets); i++ {
		t := targets[i]
		code, body, problem := w.fetch(t)
		if problem != "" {
			return problem
		}
		kind := "network"
		switch {
		case strings.Contains(t, "/facts?"):
			kind = "fact"
		case strings.HasSuffix(t, "/f.xhtml"):
			kind = "document"
		}
		w.e.outcome += fmt.Sprintf("%d %d;", code, len(body))
		switch {
		case code == 500:
			if strings.TrimSpace(body) == "" {
				return fmt.Sprintf("GET %s answers 500 without a message", t)
			}
		case code != 200:
			return fmt.Sprintf("GET %s answers %d %q", t, code, clip(body, 200))
		case kind == "document" || kind == "fact" && body == "":
		case !json.Valid([]byte(body)):
			return fmt.Sprintf("GET %s answers 200 with %q", t, clip(body, 200))
		}
		if i == 0 {
			var c Catalog
			if code == 200 && json.Unmarshal([]byte(body), &c) == nil {
				for _, k := range sortedKeys(c.Networks) {
					for _, r := range sortedKeys(c.Networks[k]) {
						if v := c.Networks[k][r]; v != slug1 {
							slugs = append(slugs, v)
						}
					}
				}
			}
			for _, v := range slugs {
				targets = append(targets, "/folders/"+id+"/"+v)
			}
			for _, v := range b.facts {
				targets = append(targets, "/folders/"+id+"/facts?name="+url.QueryEscape(v[0])+"&contextref="+url.QueryEscape(v[1]))
			}
		}
	}
	return ""
}

// broken runs all requests on a filing with edited files.
func (b *brokenBase) broken(what string, change map[string][]byte) Exec {
	return func(e *Env) string {
		w := newWorld(e)
		e.desc = what
		files := map[string][]byte{}
		for k, v := range b.files {
			files[k] = v
		}
		for k, v := range change {
			if v == nil {
				delete(files, k)
			} else {
				files[k] = v
			}
		}
		e.n++
		id := fmt.Sprintf("x%d", e.n)
		e.ids = append(e.ids, id)
		writeFiles(filepath.Join(e.wd, "folders", id), files)
		if msg := w.visit(id, b); msg != "" {
			return what + ": " + msg
		}
		settle()
		_, body, problem := w.fetch("/folders/" + w.id("A") + "/" + slug1)
		settle()
		if problem != "" || body != calm {
			return fmt.Sprintf("%s: afterwards another filing answers %q %s, expected %q", what, clip(body, 300), problem, clip(calm, 300))
		}
		return ""
	}
}

func p22Singles(b *brokenBase) Family {
	return Family{Name: b.name + "-single", Bounds: fmt.Sprintf("each of %d edits of the %s filing: an element removed, emptied, repeated, unwrapped, renamed, nested or given one of %d texts, an attribute removed, repeated or given one of %d values or another value of its kind in the file", len(b.edits), b.name, len(badTexts), len(badValues)),
		Gen: func(c *Chooser) Exec {
			x := b.edits[c.Choose(len(b.edits))]
			return b.broken(x.what, map[string][]byte{x.file: x.apply(b.files[x.file])})
		}}
}

func p22Cuts(b *brokenBase, step int) Family {
	var names []string
	for _, n := range sortedKeys(b.files) {
		if !b.inline || strings.HasPrefix(n, "f.xhtml") || n == "_" || n == "i.png" {
			names = append(names, n)
		}
	}
	return Family{Name: b.name + "-cut", Bounds: fmt.Sprintf("each file of the %s filing missing, empty, replaced by another file or cut after every %d bytes", b.name, step),
		Gen: func(c *Chooser) Exec {
			n := names[c.Choose(len(names))]
			data := b.files[n]
			switch c.Choose(4) {
			case 0:
				return b.broken(n+" missing", map[string][]byte{n: nil})
			case 1:
				o := names[c.Choose(len(names))]
				return b.broken(n+" replaced by "+o, map[string][]byte{n: b.files[o]})
			case 2:
				v := pick(c, "null", "[]", `{"Entry":""}`, `{"Entry":"."}`, `{"Entry":"_"}`, `{"Entry":7}`, `{"Entry":"p.xml"}`, `{"Entry":"e.xsd"}`, `{"Entry":"missing.xml"}`, `{"Entry":"missing.xhtml"}`, `{"Entry":"f.xhtml.xml"}`, `{}`, "<a/>", "<a>", "\xff\xfe", "\x00")
				return b.broken(fmt.Sprintf("%s replaced by %q", n, v), map[string][]byte{n: []byte(v)})
			}
			k := c.Choose(len(data)/step+1) * step
			return b.broken(fmt.Sprintf("%s cut after %d bytes", n, k), map[string][]byte{n: data[:k]})
		}}
}

func p22Pairs(b *brokenBase, stride int) Family {
	var core []edit
	for i, x := range b.core {
		if i%stride == 0 {
			core = append(core, x)
		}
	}
	return Family{Name: b.name + "-pair", Bounds: fmt.Sprintf("each pair of %d removals, emptyings and corruptions of the %s filing", len(core), b.name),
		Gen: func(c *Chooser) Exec {
			i := c.Choose(len(core))
			if i+1 >= len(core) {
				return nil
			}
			j := i + 1 + c.Choose(len(core)-i-1)
			x, y := core[i], core[j]
			change := map[string][]byte{}
			if x.file != y.file {
				change[x.file] = x.apply(b.files[x.file])
				change[y.file] = y.apply(b.files[y.file])
			} else {
				if x.from > y.from {
					x, y = y, x
				}
				if x.to > y.from || x.from == y.from {
					return nil // one edit inside the other
				}
				change[x.file] = x.apply(y.apply(b.files[x.file]))
			}
			return b.broken(x.what+" and "+y.what, change)
		}}
}

// p22Arcs builds networks from arbitrary arcs, circles included.
func p22Arcs(name string, nodes int, kinds []string, linkbase byte) Family {
	return Family{Name: name, Bounds: fmt.Sprintf("every network of %d concepts with each ordered pair (a concept with itself included) connected by one of %d kinds of arcs or none", nodes, len(kinds)),
		Gen: func(c *Chooser) Exec {
			f, cs := basic(nodes)
			l := linkOver(role1, cs)
			what := name
			for i := range cs {
				for j := range cs {
					k := c.Choose(len(kinds) + 1)
					if k == 0 {
						continue
					}
					what += fmt.Sprintf(" %d-%s-%d", i, kinds[k-1][strings.LastIndexByte(kinds[k-1], '/')+1:], j)
					l.Arcs = append(l.Arcs, Arc{Arcrole: kinds[k-1], From: locLabel(cs[i]), To: locLabel(cs[j]), Order: itoa(j + 1), Weight: "1"})
				}
			}
			lb := []*Linkbase{{File: "x.xml", Links: []*XLink{l}}}
			switch linkbase {
			case 'p':
				f.P = lb
			case 'c':
				f.C = lb
			default:
				f.D = lb
			}
			for _, k := range cs {
				f.addFact(k, f.Inst.Contexts[0])
			}
			b := &brokenBase{name: name, files: f.files()}
			return b.broken(what, nil)
		}}
}

// p22Prefixes declares a reserved prefix for another namespace after n of the
// prefixes that could replace it.
func p22Prefixes(n int) Family {
	return Family{Name: "prefixes", Bounds: fmt.Sprintf("inline documents that take a reserved prefix and up to %d of its replacements", n),
		Gen: func(c *Chooser) Exec {
			reserved := pick(c, "xlink", "link", "iso4217", "xsi", "xbrldi")
			k := c.Choose(n + 1)
			f := inlineFiling("12")
			for i := 0; i < k; i++ {
				suffix := ""
				for j := i; ; j -= 26 {
					if j < 26 {
						suffix += string(rune('a' + j))
						break
					}
					suffix += "z"
				}
				f.Inline.Prefixes = append(f.Inline.Prefixes, [2]string{reserved + "-" + suffix, "http://e.example/" + itoa(i)})
			}
			doc := strings.Replace(f.Inline.emit(), "><head>", fmt.Sprintf(" xmlns:%s=\"http://e.example/last\"><head>", reserved), 1)
			doc = strings.Replace(doc, " xmlns:"+reserved+`="http://www.w3.org/1999/xlink"`, "", 1)
			doc = strings.Replace(doc, " xmlns:"+reserved+`="http://www.xbrl.org/2003/linkbase"`, "", 1)
			f.Raw = map[string][]byte{"f.xhtml": []byte(doc)}
			b := &brokenBase{name: "prefixes", files: f.files(), inline: true, facts: [][2]string{{"ent:C0", "c0"}}}
			return b.broken(fmt.Sprintf("prefix %s taken with %d replacements", reserved, k), nil)
		}}
}

func p22ArcFamilies(thorough bool) []Family {
	dims := []string{arcDM, arcDD, arcDef, arcHD, arcAll, arcNot}
	fams := []Family{p22Arcs("circles-p", 3, []string{arcPC}, 'p'), p22Arcs("circles-c", 3, []string{arcSI}, 'c'), p22Arcs("circles-d", 3, []string{arcDM}, 'd'), p22Arcs("circles-dim", 2, dims, 'd')}
	fams = append(fams, p22Prefixes(60))
	if thorough {
		fams = append(fams, p22Arcs("circles-dim3", 3, []string{arcDM, arcAll, arcDD}, 'd'))
	}
	return fams
}

func init() {
	register(&Check{ID: "P22", Setup: p22Setup,
		Rule:   "every request on the broken filing is answered with 200 and well-formed data or 500 and a message, and another filing is answered as before",
		Assume: []string{"requests are handed to the router of the server without a network connection", "a run without progress for 100 s or with more than 3 GB in use counts as endless"},
		Families: func(thorough bool) []Family {
			makeBases()
			if thorough {
				return append(p22ArcFamilies(true), p22Singles(bases[0]), p22Singles(bases[1]), p22Cuts(bases[0], 1), p22Cuts(bases[1], 1), p22Pairs(bases[1], 1), p22Pairs(bases[0], 1))
			}
			return append(p22ArcFamilies(false), p22Singles(bases[0]), p22Singles(bases[1]), p22Cuts(bases[0], 3), p22Cuts(bases[1], 3), p22Pairs(bases[1], 3), p22Pairs(bases[0], 5))
		}})
}
