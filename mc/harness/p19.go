package main

import (
	"fmt"
	"html"
	"io"
	"runtime"
	"slices"
	"strings"

	nethtml "golang.org/x/net/html"
)

// piece is a piece of HTML with the text and the table structure it stands
// for.
type piece struct {
	src    string
	text   string
	layout string
	block  bool // begins on a new line
	opaque bool // text inside is not judged
}

var htmlPieces = []piece{
	{src: "one"},
	{src: "x &lt;b&gt; y", text: "x <b> y"},
	{src: "&amp;lt;i&amp;gt;", text: "&lt;i&gt;"},
	{src: "1 < 2", text: "1 < 2"},
	{src: "&lt;5", text: "<5"},
	{src: ">"},
	{src: "é&nbsp;&quot;z&#39;", text: "é \"z'"},
	{src: "<p>", text: "-", block: true},
	{src: "</p>", text: "-"},
	{src: `<div onclick="x()" style="a">`, text: "-", block: true},
	{src: "<h1>", text: "-", block: true},
	{src: "<h4 id='q'>", text: "-", block: true},
	{src: "<b>", text: "-"},
	{src: "<br/>", text: "-"},
	{src: "<img src=x onerror=y>", text: "-"},
	{src: "<!-- c <b> -->", text: "-"},
	{src: "<a href='javascript:x'>", text: "-"},
	{src: "<TABLE border=1>", text: "-", layout: "<table>"},
	{src: "</table>", text: "-", layout: "</table>"},
	{src: `<tr class="&lt;b&gt;">`, text: "-", layout: "<tr>"},
	{src: "</tr>", text: "-", layout: "</tr>"},
	{src: "<td>", text: "-", layout: "<td>"},
	{src: "<td colspan='2'>", text: "-", layout: "<td><td>"},
	{src: "</td>", text: "-", layout: "</td>"},
	{src: `<th colspan="3" onclick=x>`, text: "-", layout: "<th><th><th>"},
	{src: "<td colspan='1'>", text: "-", layout: "<td>"},
	{src: "<td colspan='x'>", text: "-", layout: "<td>"},
}

var rawPieces = []piece{
	{src: "one"},
	{src: "<script>alert('<b>')</script>", opaque: true},
	{src: "<style>a<i>{}</style>", opaque: true},
	{src: "<textarea><img src=x></textarea>", opaque: true},
	{src: "<title></b><img onerror=x></title>", opaque: true},
	{src: "<svg onload=x>", opaque: true},
	{src: "<script>", opaque: true},
	{src: "&lt;script&gt;", opaque: true},
	{src: "&#60;img src=x&#62;", opaque: true},
	{src: "&amp;#60;img&amp;#62;", opaque: true},
	{src: "<", opaque: true},
	{src: "<img ", opaque: true},
	{src: ">", opaque: true},
	{src: "<td>", opaque: true},
	{src: "&l", opaque: true},
	{src: "t;", opaque: true},
	{src: "<![CDATA[", opaque: true},
	{src: "]]", opaque: true},
	{src: "<!--", opaque: true},
	{src: "-->", opaque: true},
}

var safeTags = map[string]bool{"table": true, "tr": true, "td": true, "th": true, "br": true}

// flow is the words of a text with the tables and line breaks between them.
// Line breaks within tables and repeated ones do not count, and none do once
// more tables were closed than opened.
type flow struct {
	text  string
	depth int
	loose bool
}

func (f *flow) mark(tag string) {
	switch tag {
	case "<table>":
		f.depth++
	case "</table>":
		f.depth--
		f.loose = f.loose || f.depth < 0
	case "<br>":
		if f.depth > 0 {
			tag = ""
		}
	case "</td>", "</th>": // these are doubled for spans
		tag = ""
	}
	f.text += " " + tag + " "
}

func (f *flow) lines(loose bool) string {
	var out []string
	for _, w := range strings.Fields(f.text) {
		if w == "<br>" && (loose || len(out) > 0 && out[len(out)-1] == w) {
			continue
		}
		out = append(out, w)
	}
	return strings.Join(out, " ")
}

// readMarkup reads shown markup: its text without spaces, its tables and its
// words and lines.
func readMarkup(s string) (text, layout string, fl flow, bad string) {
	z := nethtml.NewTokenizer(strings.NewReader(s))
	for {
		tt := z.Next()
		if tt == nethtml.ErrorToken {
			if z.Err() != io.EOF {
				bad = z.Err().Error()
			}
			return
		}
		t := z.Token()
		switch tt {
		case nethtml.TextToken:
			text += strings.Join(strings.Fields(t.Data), "")
			fl.text += strings.ReplaceAll(t.Data, "<", "\\<")
		case nethtml.StartTagToken, nethtml.SelfClosingTagToken, nethtml.EndTagToken:
			if !safeTags[t.Data] {
				bad = "element " + t.Data
			}
			if len(t.Attr) > 0 {
				bad = "attribute " + t.Attr[0].Key
			}
			if t.Data == "br" {
				fl.mark("<br>")
				continue
			}
			if tt == nethtml.EndTagToken {
				layout += "</" + t.Data + ">"
				fl.mark("</" + t.Data + ">")
			} else {
				layout += "<" + t.Data + ">"
				fl.mark("<" + t.Data + ">")
			}
		default:
			bad = "markup " + t.String()
		}
	}
}

// dropCellEnds leaves the ends of cells out, they are doubled for spans.
func dropCellEnds(s string) string {
	return strings.NewReplacer("</td>", "", "</th>", "").Replace(s)
}

func checkTextBlock(ps []piece, e Expr) string {
	var src, text, layout string
	var fl flow
	opaque := false
	for _, p := range ps {
		src += p.src
		t := p.text
		if t == "" {
			t = p.src
		}
		if t == "-" {
			t = ""
			fl.text += " "
		}
		text += t
		fl.text += strings.ReplaceAll(t, "<", "\\<")
		if p.block {
			fl.mark("<br>")
		}
		for _, tag := range strings.SplitAfter(p.layout, ">") {
			if tag != "" {
				fl.mark(tag)
			}
		}
		layout += p.layout
		opaque = opaque || p.opaque
	}
	if e.Head != "" || e.Core != "" || e.Tail != "" {
		return fmt.Sprintf("text block %q is shown as %q %q %q", src, e.Head, e.Core, e.Tail)
	}
	gotText, gotLayout, gotFlow, bad := readMarkup(e.InnerHtml)
	if bad != "" {
		return fmt.Sprintf("text block %q is shown as %q with %s", src, e.InnerHtml, bad)
	}
	if opaque {
		return ""
	}
	if gotText != strings.Join(strings.Fields(text), "") {
		return fmt.Sprintf("text block %q is shown as %q: its text is %q", src, e.InnerHtml, text)
	}
	if dropCellEnds(gotLayout) != dropCellEnds(layout) {
		return fmt.Sprintf("text block %q is shown as %q: its tables are %q", src, e.InnerHtml, layout)
	}
	if got, want := gotFlow.lines(fl.loose), fl.lines(fl.loose); got != want {
		return fmt.Sprintf("text block %q is shown as %q: its words and lines are %q", src, e.InnerHtml, want)
	}
	return ""
}

const (
	encEscaped = iota
	encCDATA
	encMixed
	encodings
)

func encode(ps []piece, enc int) string {
	s := ""
	for i, p := range ps {
		switch {
		case enc == encEscaped || enc == encMixed && i%2 == 0 || strings.Contains(p.src, "]]"):
			s += html.EscapeString(p.src)
		default:
			s += "<![CDATA[" + p.src + "]]>"
		}
	}
	return s
}

func runP19(blocks [][]piece, enc int) Exec {
	return func(e *Env) string {
		var cases []numCase
		for _, ps := range blocks {
			cases = append(cases, numCase{encode(ps, enc), ""})
		}
		f, cs := numFiling(cases, "nonnum:textBlockItemType")
		facts, msg := e.presentationFacts(f)
		if msg != "" {
			return msg
		}
		for i, ps := range blocks {
			all := facts[cs[i].href()]
			if len(all) == 0 {
				return "a text block is missing"
			}
			for lang, x := range all {
				if msg := checkTextBlock(ps, x); msg != "" {
					return lang + ": " + msg
				}
			}
		}
		return ""
	}
}

// p19Pieces: one leaf holds all continuations of a prefix.
func p19Pieces(name string, alphabet []piece, length int) Family {
	return Family{Name: fmt.Sprintf("%s%d", name, length), Bounds: fmt.Sprintf("every sequence of %d pieces out of %d, %d ways to put them into XML", length, len(alphabet), encodings),
		Gen: func(c *Chooser) Exec {
			enc := c.Choose(encodings)
			tail := min(length, 2)
			var prefix []piece
			for i := 0; i < length-tail; i++ {
				prefix = append(prefix, alphabet[c.Choose(len(alphabet))])
			}
			if tail == 2 {
				prefix = append(prefix, alphabet[c.Choose(len(alphabet))])
			}
			var blocks [][]piece
			for _, p := range alphabet {
				blocks = append(blocks, append(append([]piece{}, prefix...), p))
			}
			return runP19(blocks, enc)
		}}
}

// p19Table takes well-formed tables of every shape.
func p19Table(rows, cols int) Family {
	return Family{Name: fmt.Sprintf("tables%dx%d", rows, cols), Bounds: fmt.Sprintf("tables of up to %d rows and %d cells, every choice of header or data cell and of spans 1 to 3, text or a nested table in a cell", rows, cols),
		Gen: func(c *Chooser) Exec {
			nested := c.Bool()
			ps := []piece{{src: "<table>", text: "-", layout: "<table>"}}
			n := 1 + c.Choose(rows)
			for r := 0; r < n; r++ {
				ps = append(ps, piece{src: "<tr>", text: "-", layout: "<tr>"})
				for k := c.Choose(cols + 1); k > 0; k-- {
					el := pick(c, "td", "th")
					span := 1 + c.Choose(3)
					ps = append(ps, piece{src: fmt.Sprintf(`<%s colspan="%d">`, el, span), text: "-", layout: strings.Repeat("<"+el+">", span)})
					ps = append(ps, piece{src: fmt.Sprintf("t%d.%d", r, k)})
					if nested && r == 0 && k == 1 {
						ps = append(ps, piece{src: "<table><tr><td>", text: "-", layout: "<table><tr><td>"}, piece{src: "in"}, piece{src: "</td></tr></table>", text: "-", layout: "</td></tr></table>"})
					}
					ps = append(ps, piece{src: "</" + el + ">", text: "-", layout: strings.Repeat("</"+el+">", span)})
				}
				ps = append(ps, piece{src: "</tr>", text: "-", layout: "</tr>"})
			}
			ps = append(ps, piece{src: "</table>", text: "-", layout: "</table>"}, piece{src: "<p>", text: "-", block: true}, piece{src: "end"})
			return runP19([][]piece{ps}, encEscaped)
		}}
}

// p19Elements takes every element in every form.
func p19Elements() Family {
	blocks := []string{"p", "div", "h1", "h2", "h3", "h4", "h5", "h6"}
	others := []string{"span", "section", "article", "ul", "ol", "li", "dl", "dd", "thead", "tbody", "tfoot", "caption", "colgroup", "pre", "blockquote", "center", "b", "i", "u", "em", "strong", "sup", "sub", "font", "small", "a", "hr", "br", "form", "label", "button", "h7", "h", "th2", "tdx", "tables", "trr", "header", "ix:nonNumeric", "x"}
	tables := []string{"table", "tr", "td", "th"}
	names := append(append(append([]string{}, blocks...), tables...), others...)
	return Family{Name: "elements", Bounds: fmt.Sprintf("each of %d elements in each of 6 forms and 4 places, around a word, in %d ways to put it into XML", len(names), encodings),
		Gen: func(c *Chooser) Exec {
			k := c.Choose(len(names))
			form, place, enc := c.Choose(6), c.Choose(4), c.Choose(encodings)
			tag := func(s string) piece { return piece{src: s, text: "-", layout: s} }
			n := names[k]
			layout := ""
			if k >= len(blocks) && k < len(blocks)+len(tables) {
				layout = n
			}
			begin := piece{text: "-", block: k < len(blocks)}
			end := piece{src: "</" + n + ">", text: "-"}
			if layout != "" {
				begin.layout, end.layout = "<"+n+">", "</"+n+">"
			}
			switch form {
			case 0:
				begin.src = "<" + n + ">"
			case 1:
				begin.src = "<" + strings.ToUpper(n) + ">"
				end.src = "</" + strings.ToUpper(n) + ">"
			case 2:
				begin.src = "<" + n + " class='x' style=\"y: z\" onclick=q hidden>"
			case 3:
				begin.src = "<" + n + "\n\tid='a'\n>"
				end.src = "</" + n + " >"
			case 4: // nothing inside
				begin.src = "<" + n + "/>"
				end.src, end.layout = "", ""
			case 5:
				begin.src = "<" + n + " id='b' />"
				end.src, end.layout = "", ""
			}
			if form > 3 && (n == "table" || n == "tr") {
				return nil // an empty table has no end
			}
			ps := []piece{{src: "one"}, begin, {src: "two"}, end, {src: "three"}}
			switch place {
			case 1:
				ps = append([]piece{tag("<table>"), tag("<tr>"), tag("<td>")}, append(ps, tag("</td>"), tag("</tr>"), tag("</table>"))...)
			case 2:
				ps = append([]piece{tag("<table>"), tag("<tr>"), tag("<td>"), {src: "zero"}, tag("</td>"), tag("</tr>"), tag("</table>")}, ps...)
			case 3:
				ps = append([]piece{{src: "<p>", text: "-", block: true}}, append(ps, piece{src: "<p>", text: "-", block: true}, piece{src: "four"})...)
			}
			if end.src == "" {
				ps = slices.DeleteFunc(ps, func(p piece) bool { return p.src == "" })
			}
			return runP19([][]piece{ps}, enc)
		}}
}

func p19Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number up to %d of paragraphs, of rows, of cells in a row, of columns spanned, of tables side by side and of tables within each other, in %d ways to put them into XML, and words of each of %d lengths up to %d", max, encodings, len(lengths), lengths[len(lengths)-1]),
		Gen: func(c *Chooser) Exec {
			tag := func(s string) piece { return piece{src: s, text: "-", layout: s} }
			var ps []piece
			kind, enc := c.Choose(7), c.Choose(encodings)
			if kind == 6 {
				n := lengths[c.Choose(len(lengths))]
				w := longName(n, 0, scripts[c.Choose(len(scripts))])
				return runP19([][]piece{{{src: w}, tag("<table>"), tag("<tr>"), tag("<td>"), {src: w}, tag("</table>"), {src: "<p>", text: "-", block: true}, {src: "end"}}}, enc)
			}
			n := 1 + c.Choose(max)
			open := kind > 0 && kind < 4
			if open {
				ps = append(ps, tag("<table>"))
			}
			if kind == 2 {
				ps = append(ps, tag("<tr>"))
			}
			for i := 0; i < n; i++ {
				word := piece{src: fmt.Sprintf("w%d &lt; &amp;", i), text: fmt.Sprintf("w%d < &", i)}
				switch kind {
				case 0:
					ps = append(ps, piece{src: []string{"<p>", "<div>", "<h3>"}[i%3], text: "-", block: true}, word)
				case 1:
					ps = append(ps, tag("<tr>"), tag("<td>"), word, tag("</td>"), tag("</tr>"))
				case 2:
					el := []string{"td", "th"}[i%2]
					ps = append(ps, tag("<"+el+">"), word, tag("</"+el+">"))
				case 3:
					if i == n-1 {
						ps = append(ps, tag("<tr>"), piece{src: fmt.Sprintf("<td colspan='%d'>", n), text: "-", layout: strings.Repeat("<td>", n)}, word, tag("</td>"), tag("</tr>"))
					}
				case 4:
					ps = append(ps, tag("<table>"), tag("<tr>"), tag("<td>"), word, tag("</td>"), tag("</tr>"), tag("</table>"), piece{src: "<p>", text: "-", block: true}, word)
				case 5:
					ps = append(ps, tag("<table>"), tag("<tr>"), tag("<td>"), word)
				}
			}
			if kind == 5 {
				for i := 0; i < n; i++ {
					ps = append(ps, tag("</td>"), tag("</tr>"), tag("</table>"), piece{src: fmt.Sprintf("x%d", i)})
				}
			}
			if open {
				ps = append(ps, tag("</table>"))
			}
			ps = append(ps, piece{src: "<p>", text: "-", block: true}, piece{src: "end"})
			return runP19([][]piece{ps}, enc)
		}}
}

// p19Cost compares the memory taken for a block and for one many times as
// long.
func p19Cost() Family {
	units := []string{"<p>word</p>", "<table><tr><td>1</td></tr></table>", "<td colspan='3'>x</td>", "&amp;lt;", "<b>a", "<![CDATA[a]]>"}
	spans := []string{"100000", "2000000000", "9999999999999999999", "-5", "0"}
	return Family{Name: "cost", Bounds: fmt.Sprintf("%d repeated units at 500 and 8000 repetitions, %d large column spans", len(units), len(spans)),
		Gen: func(c *Chooser) Exec {
			k := c.Choose(len(units) + len(spans))
			return func(e *Env) string {
				measure := func(content string) (uint64, string) {
					f, cs := numFiling([]numCase{{content, ""}}, "nonnum:textBlockItemType")
					id := e.put(f)
					h, err := e.load(id)
					if err != nil {
						return 0, err.Error()
					}
					var a, b runtime.MemStats
					runtime.ReadMemStats(&a)
					n, err := e.network(h, scheme1+"/0001", role1)
					runtime.ReadMemStats(&b)
					e.outcome = ""
					if err != nil {
						return 0, err.Error()
					}
					_ = n
					_ = cs
					return b.TotalAlloc - a.TotalAlloc, ""
				}
				if k >= len(units) {
					span := spans[k-len(units)]
					used, msg := measure(html.EscapeString("<table><tr><td colspan='" + span + "'>x</td></tr></table>"))
					if msg != "" {
						return msg
					}
					if used > 64<<20 {
						return fmt.Sprintf("a cell with column span %s takes %d bytes", span, used)
					}
					return ""
				}
				unit := html.EscapeString(units[k])
				small, msg := measure(strings.Repeat(unit, 500))
				if msg != "" {
					return msg
				}
				large, msg := measure(strings.Repeat(unit, 8000))
				if msg != "" {
					return msg
				}
				if large > 64*small+(8<<20) {
					return fmt.Sprintf("%q: %d bytes for 500 repetitions but %d for 8000", units[k], small, large)
				}
				return ""
			}
		}}
}

func init() {
	register(&Check{ID: "P19",
		Rule: "the shown markup read back gives the text and the tables of the block, only table, tr, td, th and br elements without attributes, memory proportional to the content",
		Families: func(thorough bool) []Family {
			fams := []Family{p19Pieces("pieces", htmlPieces, 1), p19Pieces("pieces", htmlPieces, 2), p19Pieces("raw", rawPieces, 2), p19Cost(), p19Sizes(40), p19Elements(), p19Table(1, 3), p19Table(2, 2), p19Pieces("pieces", htmlPieces, 3), p19Pieces("raw", rawPieces, 3)}
			if thorough {
				fams = append(fams, p19Pieces("pieces", htmlPieces, 4), p19Pieces("raw", rawPieces, 4), p19Table(3, 2))
			}
			return fams
		}})
}
