package main

import (
	"bytes"
	"encoding/base64"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"ecksbee.com/telefacts/pkg/cache"
)

var (
	pngBytes = append([]byte("\x89PNG\x0D\x0A\x1A\x0A\x00\x00\x00\x0DIHDR<&\"'"), 0, 1, 2, 254, 255)
	jpgBytes = append([]byte("\xFF\xD8\xFF\xE0\x00\x10JFIF"), 9, 8, 7, '<', '&')
	gifBytes = []byte("GIF89a\x01\x00\x01\x00")
)

type imageFile struct {
	name string
	data []byte
	kind string // "" if not embedded
}

// imageFiles is the alphabet of folder files.
var imageFiles = []imageFile{
	{"a.png", pngBytes, "image/png"},
	{"b.jpg", jpgBytes, "image/jpeg"},
	{"none.gif", gifBytes, ""},
	{"text.png", []byte("not an image"), ""},
	{"c.dat", append(append([]byte{}, pngBytes...), 7), "image/png"},
	{"a b.png", jpgBytes, "image/jpeg"},
	{"empty.png", nil, ""},
}

func dataURI(kind string, data []byte) string {
	return "data:" + kind + ";base64," + base64.StdEncoding.EncodeToString(data)
}

// event is an XML event of a document, comments and declarations aside.
type event struct {
	kind, name string
	attrs      string
	src        string // source of an image element
	hasSrc     bool
}

func xmlEvents(b []byte) ([]event, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var out []event
	text := ""
	flush := func() {
		if t := strings.Join(strings.Fields(text), " "); t != "" {
			out = append(out, event{kind: "text", name: t})
		}
		text = ""
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			flush()
			return out, nil
		}
		if err != nil {
			return out, err
		}
		switch x := t.(type) {
		case xml.CharData:
			text += string(x)
		case xml.StartElement:
			flush()
			e := event{kind: "start", name: x.Name.Space + ":" + x.Name.Local}
			var as []string
			for _, a := range x.Attr {
				if x.Name.Local == "img" && a.Name.Local == "src" && a.Name.Space == "" {
					e.src, e.hasSrc = a.Value, true
					continue
				}
				as = append(as, a.Name.Space+":"+a.Name.Local+"="+a.Value)
			}
			sort.Strings(as)
			e.attrs = strings.Join(as, "|")
			out = append(out, e)
		case xml.EndElement:
			flush()
			out = append(out, event{kind: "end", name: x.Name.Space + ":" + x.Name.Local})
		}
	}
}

var bodyPieces = []string{
	`<img src="a.png"/>`,
	`<img alt="x &lt; y" src='b.jpg' width="1"></img>`,
	`<img src="none.gif"/>`,
	`<img src=""/>`,
	`<img src="data:image/png;base64,AAAA" alt="a.png"/>`,
	`<img alt="a.png"/>`,
	`<a href="a.png">x &amp;amp; y</a>`,
	`<p title="a &amp; b &quot;c&quot;">t &lt;img src="a.png"&gt; 1 &gt; 0</p>`,
	`<div/>`,
	`<a id="q"/>tail`,
	`<table><tbody><tr><td/><td><img src="a.png"/></td></tr></tbody></table>`,
	`<ix:nonNumeric name="ent:C0" contextRef="c0"><img src="b.jpg" id="i"/></ix:nonNumeric>`,
	`<ix:nonNumeric name="ent:C0" contextRef="c0"/>`,
	`<!-- <img src="a.png"/> -->`,
	`<![CDATA[1 > 0 <img src="a.png"/>]]>`,
	`<script src="x"/>`,
	`<title/>`,
	`<svg:image xmlns:svg="http://www.w3.org/2000/svg" href="a.png"/>`,
	`<img src="c.dat"/>`,
	`<img src="a b.png"/>`,
	`<img src="missing.png"/>`,
	`<img src="text.png"/>`,
	`<IMAGE src="a.png"/>`,
	`<p>é ü &#8364;</p>`,
	`<br/><hr class="x"/>`,
}

// present gives the chosen folder files.
func present(chosen []bool) []imageFile {
	var out []imageFile
	for i, yes := range chosen {
		if yes {
			out = append(out, imageFiles[i])
		}
	}
	return out
}

// decideImages compares the served document with the stored one.
func decideImages(pieces []string, files []imageFile, declared int) Exec {
	return func(e *Env) string {
		f, _ := basic(1)
		f.Inline = &Inline{Prefixes: [][2]string{{"ent", nsEnt}}, Body: strings.Join(pieces, "")}
		doc := f.Inline.emit()
		switch declared {
		case 1:
			doc = doc[strings.Index(doc, "<html"):]
		case 2:
			doc = "<!DOCTYPE html>\n" + doc[strings.Index(doc, "<html"):]
		}
		if len(pieces)%2 == 1 {
			f.Entry = "f.htm"
		}
		f.Raw = map[string][]byte{f.entry(): []byte(doc)}
		f.Extra = map[string][]byte{}
		embedded := map[string]string{}
		for _, k := range files {
			f.Extra[k.name] = k.data
			if k.kind != "" {
				embedded[k.name] = dataURI(k.kind, k.data)
			}
		}
		id := e.put(f)
		got, err := cache.MarshalRenderable(id, f.entry())
		if err != nil {
			return "no document: " + err.Error()
		}
		e.outcome = string(got)
		if len(embedded) == 0 {
			if string(got) != doc {
				return fmt.Sprintf("stored %q, served %q", doc, got)
			}
			return ""
		}
		want, err := xmlEvents([]byte(doc))
		if err != nil {
			return "generated document: " + err.Error()
		}
		have, err := xmlEvents(got)
		if err != nil {
			return fmt.Sprintf("the served document is not well-formed: %v: %q", err, got)
		}
		for i := range want {
			if i >= len(have) {
				return fmt.Sprintf("the served document ends before %v: %q", want[i], got)
			}
			w, h := want[i], have[i]
			if w.kind == "start" && w.name == ":img" && w.hasSrc {
				if d, ok := embedded[w.src]; ok {
					w.src = d
				}
			}
			if w != h {
				return fmt.Sprintf("event %d is %+v, expected %+v, in %q", i, h, w, got)
			}
		}
		if len(have) > len(want) {
			return fmt.Sprintf("the served document has more: %v", have[len(want)])
		}
		return ""
	}
}

func p25Pieces(n int, fileSets int) Family {
	return Family{Name: fmt.Sprintf("pieces%d", n), Bounds: fmt.Sprintf("every sequence of %d of %d document pieces, %d sets of folder files, with and without XML declaration or doctype", n, len(bodyPieces), fileSets),
		Gen: func(c *Chooser) Exec {
			var ps []string
			for i := 0; i < n; i++ {
				ps = append(ps, bodyPieces[c.Choose(len(bodyPieces))])
			}
			set := c.Choose(fileSets)
			files := make([]bool, len(imageFiles))
			for i := range files {
				switch set {
				case 0: // all
					files[i] = true
				case 1: // a png only
					files[i] = i == 0
				case 2: // no image
					files[i] = imageFiles[i].kind == ""
				case 3: // a jpeg and text
					files[i] = i == 1 || i == 3
				}
			}
			return decideImages(ps, present(files), c.Choose(3))
		}}
}

func p25Files() Family {
	return Family{Name: "files", Bounds: fmt.Sprintf("every subset of %d folder files with a document naming all of them", len(imageFiles)),
		Gen: func(c *Chooser) Exec {
			var ps []string
			for _, k := range imageFiles {
				ps = append(ps, `<p><img src="`+k.name+`" alt="`+k.name+`"/></p>`)
			}
			return decideImages(ps, present(c.Subset(len(imageFiles))), 0)
		}}
}

func p25Sizes(max int) Family {
	return Family{Name: "sizes", Bounds: fmt.Sprintf("every number of images up to %d, of two kinds and growing sizes, named in order or in reverse, once or twice, side by side or nested, every fourth missing", max),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(max)
			reverse, twice, nested := c.Bool(), c.Bool(), c.Bool()
			var files []imageFile
			var ps []string
			for i := 0; i < n; i++ {
				k := imageFile{name: fmt.Sprintf("i%d.png", i), data: pngBytes, kind: "image/png"}
				if i%3 == 1 {
					k = imageFile{name: fmt.Sprintf("i%d.jpg", i), data: jpgBytes, kind: "image/jpeg"}
				}
				k.data = append(append([]byte{}, k.data...), bytes.Repeat([]byte{byte(i), 255}, i*i)...)
				if i%4 != 3 {
					files = append(files, k)
				}
				p := `<img src="` + k.name + `"/>`
				if twice {
					p += fmt.Sprintf(`<p>t%d</p><img alt="q" src="%s"></img>`, i, k.name)
				}
				if reverse {
					ps = append([]string{p}, ps...)
				} else {
					ps = append(ps, p)
				}
			}
			if nested {
				ps = []string{strings.Repeat("<div>", n), strings.Join(ps, "</div>"), "</div>"}
			}
			return decideImages(ps, files, 0)
		}}
}

func p25Lengths() Family {
	return Family{Name: "lengths", Bounds: fmt.Sprintf("an image of each of %d sizes or with a file name of each of %d lengths, in a document with or without a text of the same length", len(lengths), len(lengths)-12),
		Gen: func(c *Chooser) Exec {
			n := c.Choose(len(lengths))
			name := c.Bool()
			k := imageFile{name: "a.png", data: append(append([]byte{}, pngBytes...), bytes.Repeat([]byte{3, 200}, lengths[n])...), kind: "image/png"}
			if name {
				if lengths[n] > 200 {
					return nil
				}
				k.name = longName(lengths[n], 0, "abc") + ".png"
				k.data = pngBytes
			}
			ps := []string{`<p><img src="` + k.name + `" alt="` + k.name + `"/></p>`}
			if c.Bool() {
				ps = append(ps, "<p>"+strings.Repeat("t ", lengths[n])+"</p>")
			}
			return decideImages(ps, []imageFile{k}, 0)
		}}
}

func p25Alike() Family {
	return Family{Name: "alike", Bounds: alikeText() + " as names of image files in the folder, one or both there, an image naming each of the names",
		Gen: func(c *Chooser) Exec {
			names := chooseAlike(c)
			there := 1 + c.Choose(3)
			var files []imageFile
			for i, n := range names {
				if there&(1<<i) != 0 {
					files = append(files, imageFile{name: n + ".png", data: append(append([]byte{}, pngBytes...), byte(i), 200), kind: "image/png"})
				}
			}
			var ps []string
			for _, n := range alikes {
				ps = append(ps, `<img src="`+n+`.png"/>`)
			}
			return decideImages(ps, files, 0)
		}}
}

var imageNames = []string{".h.png", "A.PNG", "noext", "é.png", "a.png.jpg", "-x.png", "~a.png", "a~", "#a.png", "a%20b.png", "a+b.png", "a&b.png", "a;b.png", "a=b.png", "x.svg", "x.htm.png", "meta.png", "1", "..a.png", "a..png", "图.png", "😀.png", "a'b.png", "Thumbs.db"}

// p25Names gives images file names of many forms.
func p25Names() Family {
	return Family{Name: "names", Bounds: fmt.Sprintf("images of any two of %d file names, or only the first of them, in a document naming all of them in double or in single quotes", len(imageNames)),
		Gen: func(c *Chooser) Exec {
			i, j := c.Choose(len(imageNames)), c.Choose(len(imageNames))
			files := []imageFile{{name: imageNames[i], data: pngBytes, kind: "image/png"}}
			if i != j {
				files = append(files, imageFile{name: imageNames[j], data: jpgBytes, kind: "image/jpeg"})
			}
			single := c.Bool()
			var ps []string
			for _, n := range imageNames {
				p := `<img src="` + esc(n) + `"/>`
				if single {
					p = `<img id='x' src='` + strings.ReplaceAll(esc(n), "'", "&#39;") + `'></img>`
				}
				ps = append(ps, p)
			}
			return decideImages(ps, files, 0)
		}}
}

func init() {
	register(&Check{ID: "P25",
		Rule: "the XML events of the served document are those of the stored one except for the sources of images in the folder",
		Setup: func(e *Env) {
			cache.NewCache(true)
		},
		Families: func(thorough bool) []Family {
			fams := []Family{p25Files(), p25Sizes(40), p25Lengths(), p25Alike(), p25Names(), p25Pieces(1, 4), p25Pieces(2, 4), p25Pieces(3, 1)}
			if thorough {
				fams = append(fams, p25Pieces(3, 4))
			}
			return fams
		},
		Assume: []string{"sources with a path or scheme in front of a file name of the folder are not judged"}})
}
