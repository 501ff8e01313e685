//go:build verifweb

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

// A template is the content of a folder, before and after its repair.
type template struct {
	files, repaired map[string][]byte // nil: no such folder
	inline          bool
	doc             string
	slug            string
}

var templates map[string]*template

// plainFiling shows one value in a network whose slug is the same for all.
func plainFiling(value string) *Filing {
	f, cs := basic(2)
	l := linkOver(role1, cs)
	l.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(cs[0]), To: locLabel(cs[1]), Order: "1"}}
	f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{l}}}
	f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31"})
	for i, k := range cs {
		for j, x := range f.Inst.Contexts {
			f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: fmt.Sprintf("f%d%d", i, j), Concept: k, Ctx: x, Unit: "usd", Decimals: "0", Inner: fmt.Sprintf("%s%d%d", value, i, j)})
		}
	}
	return f
}

func inlineFiling(value string) *Filing {
	f := plainFiling(value)
	f.Inline = &Inline{Prefixes: [][2]string{{"ent", nsEnt}}}
	for _, x := range f.Inst.Facts {
		f.Inline.Elems = append(f.Inline.Elems, InlineElem{Numeric: true, Name: x.Concept.qname(), Ctx: x.Ctx.ID, ID: x.ID, Text: x.Inner})
	}
	return f
}

func makeTemplates() {
	torn := func(m map[string][]byte, name string) map[string][]byte {
		r := map[string][]byte{}
		for k, v := range m {
			r[k] = v
		}
		r[name] = r[name][:len(r[name])/2]
		return r
	}
	htm := inlineFiling("44")
	htm.Entry = "f.htm"
	badPrefix := inlineFiling("77")
	badPrefix.Inline.Elems[1].Name = "nope:C0"
	// a filing that takes the unit registry for a schema
	odd := plainFiling("99")
	odd.Schemas[0].Imports = append(odd.Schemas[0].Imports, Import{nsGlobal, "http://www.xbrl.org/utr/utr.xml"})
	odd.addFact(&Concept{Name: "S", ns: nsGlobal, ID: "S", schemaLoc: "http://www.xbrl.org/utr/utr.xml"}, odd.Inst.Contexts[0])
	templates = map[string]*template{
		"gap": {files: withGap(plainFiling("12")).files()},
		"U":   {files: odd.files()},
		"A":   {files: plainFiling("11").files()},
		"B":   {files: plainFiling("22").files()},
		"I":   {files: inlineFiling("33").files(), inline: true, doc: "f.xhtml"},
		"J":   {files: htm.files(), inline: true, doc: "f.htm"},
		"new": {files: nil, repaired: plainFiling("55").files()},
		"ins": {files: torn(inlineFiling("66").files(), "f.xhtml.xml"), repaired: inlineFiling("66").files(), inline: true, doc: "f.xhtml"},
		"doc": {files: badPrefix.files(), repaired: inlineFiling("77").files(), inline: true, doc: "f.xhtml"},
		"_":   {files: torn(plainFiling("88").files(), "_"), repaired: plainFiling("88").files()},
	}
}

// world is a set of folders with fresh ids over one cache.
type world struct {
	e        *Env
	ids      map[string]string
	repaired map[string]bool
}

var (
	appCache  *gocache.Cache
	goroutine int
	expected  map[string]answer
	slug1     string
)

type answer struct {
	data []byte
	err  bool
}

func (a answer) String() string {
	if a.err {
		return "an error"
	}
	return fmt.Sprintf("%q", clip(string(a.data), 400))
}

func webSetup(e *Env) {
	makeTemplates()
	expected = map[string]answer{}
	appCache = cache.NewCache(false)
	hydratables.InjectCache(appCache)
	h, err := e.open(plainFiling("1"))
	if err != nil {
		fatal(err)
	}
	c, err := e.catalog(h)
	if err != nil {
		fatal(err)
	}
	slug1 = c.Networks[scheme1+"/0001"][role1]
	e.end()
	time.Sleep(20 * time.Millisecond)
	goroutine = runtime.NumGoroutine()
}

// controlled is whether a scheduler decides when background work runs.
var controlled bool

// settle waits for background work to end.
func settle() {
	if controlled {
		return
	}
	for i := 0; i < 40000; i++ {
		if runtime.NumGoroutine() <= goroutine {
			return
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	goroutine = runtime.NumGoroutine()
}

func newWorld(e *Env) *world {
	settle()
	if appCache != nil {
		appCache.Flush()
	}
	return &world{e: e, ids: map[string]string{}, repaired: map[string]bool{}}
}

// id is the folder id of a template, made when first used.
func (w *world) id(t string) string {
	if _, ok := templates[t]; !ok {
		return t
	}
	if id, ok := w.ids[t]; ok {
		return id
	}
	w.e.n++
	id := fmt.Sprintf("x%d", w.e.n)
	w.ids[t] = id
	w.e.ids = append(w.e.ids, id)
	w.write(t, id)
	return id
}

func (w *world) write(t, id string) {
	files := templates[t].files
	if w.repaired[t] {
		files = templates[t].repaired
	}
	if files != nil {
		writeFiles(filepath.Join(w.e.wd, "folders", id), files)
	}
}

func (w *world) repair(t string) {
	id := w.id(t)
	w.repaired[t] = true
	w.write(t, id)
}

// A request names folders by template, as "A" or as "A/..." .
type request struct {
	kind string // catalog, network, fact, repair
	id   string
	arg  string // slug, document name or fact name
	ctx  string
}

func (r request) String() string {
	return fmt.Sprintf("%s %s %q %q", r.kind, r.id, r.arg, r.ctx)
}

// folder resolves a folder named by template.
func (w *world) folder(id string) string {
	if strings.HasPrefix(id, "^") {
		return strings.ToUpper(w.folder(id[1:]))
	}
	head, rest, found := strings.Cut(id, "/")
	if _, ok := templates[head]; !ok || !found {
		return w.id(id)
	}
	return w.id(head) + "/" + w.text(rest)
}

// text resolves $T placeholders for folder ids. A leading ^ asks for capitals.
func (w *world) text(s string) string {
	if strings.HasPrefix(s, "^") {
		return strings.ToUpper(w.text(s[1:]))
	}
	for t := range templates {
		if strings.Contains(s, "$"+t+"$") {
			s = strings.ReplaceAll(s, "$"+t+"$", w.id(t))
		}
	}
	return strings.ReplaceAll(s, "$slug", slug1)
}

// fresh is the answer without any cache.
func (w *world) fresh(r request) answer {
	key := fmt.Sprintf("%q", r) + fmt.Sprint(w.repaired[strings.Split(r.id, "/")[0]])
	if a, ok := expected[key]; ok {
		return a
	}
	settle()
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	defer func() {
		settle()
		hydratables.InjectCache(appCache)
	}()
	data, err := func() ([]byte, error) {
		id := w.folder(r.id)
		folder, err := serializables.Discover(id)
		if err != nil {
			return nil, err
		}
		h, err := hydratables.Hydrate(folder)
		if err != nil {
			return nil, err
		}
		switch r.kind {
		case "catalog":
			return renderables.MarshalCatalog(h)
		case "fact":
			return renderables.MarshalExpressable(w.text(r.arg), w.text(r.ctx), h)
		}
		t := templates[r.id]
		if t != nil && t.inline && r.arg == t.doc {
			return os.ReadFile(filepath.Join(w.e.wd, "folders", id, t.doc))
		}
		return renderables.MarshalRenderable(w.text(r.arg), h)
	}()
	a := answer{data: bytes.Clone(data), err: err != nil}
	expected[key] = a
	return a
}

// ask sends a request through the cache.
func (w *world) ask(r request) answer {
	var data []byte
	var err error
	switch r.kind {
	case "catalog":
		data, err = cache.MarshalCatalog(w.folder(r.id))
	case "fact":
		data, err = cache.MarshalExpressable(w.folder(r.id), w.text(r.arg), w.text(r.ctx))
	default:
		data, err = cache.MarshalRenderable(w.folder(r.id), w.text(r.arg))
	}
	return answer{data: data, err: err != nil}
}

func judge(got, want answer) bool {
	if got.err != want.err {
		return false
	}
	if got.err {
		return len(got.data) == 0
	}
	return bytes.Equal(got.data, want.data)
}

var p05All = []request{
	{"catalog", "A", "", ""}, {"network", "A", "$slug", ""}, {"network", "A", "bogus", ""}, {"network", "A", "", ""}, {"network", "A", "f.xml", ""}, {"fact", "A", "ent:C0", "c0"},
	{"catalog", "B", "", ""}, {"network", "B", "$slug", ""},
	{"catalog", "I", "", ""}, {"network", "I", "$slug", ""}, {"network", "I", "f.xhtml", ""}, {"network", "I", "g.xhtml", ""}, {"network", "I", "", ""},
	{"fact", "I", "ent:C0", "c0"}, {"fact", "I", "ent:C0", "c1"}, {"fact", "I", "ent:C01", "c0"}, {"fact", "I", "ent", "C0:c0"}, {"fact", "I", "ent:C0:c0", ""}, {"fact", "I", "ent:C9", "c0"}, {"fact", "I", "", ""},
	{"fact", "J", "ent:C0", "c0"}, {"network", "J", "f.xhtml", ""}, {"network", "J", "f.htm", ""},
	{"catalog", "A/$slug", "", ""}, {"catalog", "A/", "", ""}, {"network", "A/$slug", "", ""}, {"fact", "A/$slug", "ent:C0", "c0"}, {"network", "I/facts", "ent:C0:c0", ""},
	{"catalog", "names.json", "", ""}, {"network", "names.json", "$slug", ""},
	{"catalog", urlTx, "", ""}, {"catalog", "http://www.xbrl.org/utr/utr.xml", "", ""},
	{"fact", "I", "ENT:C0", "c0"}, {"fact", "I", "ent:c0", "c0"}, {"fact", "I", "ent:C0", "C0"}, {"fact", "I", " ent:C0", "c0"}, {"fact", "I", "ent:C0", "c0 "}, {"network", "A", "^$slug", ""}, {"catalog", "^A", "", ""}, {"network", "I", "F.XHTML", ""},
	{"catalog", "U", "", ""}, {"network", "U", "$slug", ""}, {"network", "gap", "$slug", ""},
	{"catalog", "new", "", ""}, {"network", "new", "$slug", ""}, {"repair", "new", "", ""},
	{"network", "ins", "f.xhtml", ""}, {"fact", "ins", "ent:C0", "c0"}, {"repair", "ins", "", ""},
	{"catalog", "doc", "", ""}, {"network", "doc", "$slug", ""}, {"fact", "doc", "ent:C0", "c0"}, {"repair", "doc", "", ""},
	{"catalog", "_", "", ""}, {"repair", "_", "", ""},
}

// p05Core is a smaller alphabet for longer histories.
var p05Core = []request{
	{"catalog", "A", "", ""}, {"network", "A", "$slug", ""}, {"network", "A", "bogus", ""}, {"network", "A", "", ""}, {"network", "B", "$slug", ""},
	{"fact", "I", "ent:C0", "c0"}, {"fact", "I", "ent", "C0:c0"}, {"network", "I", "f.xhtml", ""}, {"catalog", "names.json", "", ""},
	{"catalog", "doc", "", ""}, {"network", "doc", "$slug", ""}, {"fact", "doc", "ent:C01", "c1"}, {"repair", "doc", "", ""}, {"network", "new", "$slug", ""}, {"repair", "new", "", ""},
}

func history(c *Chooser, alphabet []request, n int) []request {
	var out []request
	repaired := map[string]bool{}
	for i := 0; i < n; i++ {
		r := alphabet[c.Choose(len(alphabet))]
		if r.kind == "repair" {
			if repaired[r.id] || i == n-1 {
				return nil
			}
			repaired[r.id] = true
		}
		out = append(out, r)
	}
	return out
}

func p05Histories(name string, alphabet []request, n int) Family {
	return Family{Name: name, Bounds: fmt.Sprintf("all sequences of %d of %d steps (%d folders, requests of every kind, keys that run together, repairs on disk), background work finished between steps", n, len(alphabet), len(templates)),
		Gen: func(c *Chooser) Exec {
			h := history(c, alphabet, n)
			if h == nil {
				return nil
			}
			return func(e *Env) string {
				w := newWorld(e)
				for i, r := range h {
					if r.kind == "repair" {
						w.repair(r.id)
						continue
					}
					want := w.fresh(r)
					got := w.ask(r)
					e.outcome += fmt.Sprintf("%s: %v %d\n", r, got.err, len(got.data))
					if !judge(got, want) {
						return fmt.Sprintf("after %v: %s gives %s, a fresh server gives %s", h[:i], r, got, want)
					}
					settle()
				}
				return ""
			}
		}}
}

// p05Dry runs histories without caching answers.
func p05Dry(n int) Family {
	f := p05Histories("dry", p05Core, n)
	gen := f.Gen
	f.Bounds += ", with the cache switched off"
	f.Gen = func(c *Chooser) Exec {
		run := gen(c)
		if run == nil {
			return nil
		}
		return func(e *Env) string {
			settle()
			cache.NewCache(true)
			defer func() {
				settle()
				cache.NewCache(false)
			}()
			return run(e)
		}
	}
	return f
}

// p05Registry loses and regains the unit registry.
func p05Registry(n int) Family {
	steps := []request{{"catalog", "A", "", ""}, {"network", "A", "$slug", ""}, {"catalog", "B", "", ""}, {"fact", "I", "ent:C0", "c0"}, {"network", "I", "f.xhtml", ""}, {"repair", "registry", "", ""}}
	return Family{Name: "registry", Bounds: fmt.Sprintf("all sequences of %d of %d steps, starting without the unit registry and restoring it at any time", n, len(steps)),
		Gen: func(c *Chooser) Exec {
			h := history(c, steps, n)
			if h == nil {
				return nil
			}
			return func(e *Env) string {
				w := newWorld(e)
				utr := filepath.Join(e.gts, "concepts", "http", "www.xbrl.org", "utr", "utr.xml")
				if err := os.Rename(utr, utr+".away"); err != nil {
					fatal(err)
				}
				back := func() {
					if _, err := os.Stat(utr + ".away"); err == nil {
						os.Rename(utr+".away", utr)
					}
				}
				defer back()
				there := false
				for i, r := range h {
					if r.kind == "repair" {
						back()
						there = true
						continue
					}
					want := answer{err: true}
					if there {
						want = w.fresh(r)
					}
					got := w.ask(r)
					e.outcome += fmt.Sprintf("%s: %v %d\n", r, got.err, len(got.data))
					if !judge(got, want) {
						return fmt.Sprintf("without the unit registry, after %v: %s gives %s, a fresh server gives %s", h[:i], r, got, want)
					}
					settle()
				}
				return ""
			}
		}}
}

func init() {
	register(&Check{ID: "P05", Setup: webSetup,
		Rule:   "every answer equals the one computed for that request alone without a cache, errors stay errors until the repair and end with it",
		Assume: []string{"folder content changes only by repairing a failing folder", "background cache filling has ended before the next request; P06 covers the other schedules"},
		Families: func(thorough bool) []Family {
			makeTemplates()
			if thorough {
				return []Family{p05Registry(5), p05Dry(4), p05Histories("pairs", p05All, 2), p05Histories("triples", p05All, 3), p05Histories("core5", p05Core, 5)}
			}
			return []Family{p05Registry(4), p05Dry(3), p05Histories("pairs", p05All, 2), p05Histories("core4", p05Core, 4), p05Histories("triples", p05All, 3)}
		}})
}
