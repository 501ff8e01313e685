//go:build verifsched

package main

import (
	"bytes"
	"fmt"
	"strings"
)

// p03Elems is the alphabet of tagged facts.
var p03Elems = []struct {
	what, markup string
}{
	{"number", `<ix:nonFraction name="ent:C0" contextRef="c0" id="f0" unitRef="usd" decimals="0" format="x">1</ix:nonFraction>`},
	{"text", `<ix:nonNumeric name="ent:C01" contextRef="c0" id="f1">a</ix:nonNumeric>`},
	{"text again", `<ix:nonNumeric name="ent:C0" contextRef="c1" id="f0">b</ix:nonNumeric>`},
	{"undeclared number", `<ix:nonFraction name="nope:C0" contextRef="c0" id="f2">1</ix:nonFraction>`},
	{"undeclared text", `<ix:nonNumeric name="nope:C01" contextRef="c1" id="f3">1</ix:nonNumeric>`},
	{"no prefix", `<ix:nonNumeric name="C01" contextRef="c0">a</ix:nonNumeric>`},
	{"no name", `<ix:nonFraction contextRef="c0" id="f5">1</ix:nonFraction>`},
	{"no context", `<ix:nonNumeric name="ent:C01" id="f6">1</ix:nonNumeric>`},
	{"other prefix", `<ix:nonFraction name="e:C01" contextRef="c1" id="f7">1</ix:nonFraction>`},
	{"nested", `<ix:nonNumeric name="ent:C01" contextRef="c1" id="f8">x <ix:exclude>y</ix:exclude><ix:nonFraction name="ent:C01" contextRef="c0" id="f9">2</ix:nonFraction></ix:nonNumeric>`},
	{"footnote", `<ix:relationship arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" fromRefs="f0 f1" toRefs="n1"/><ix:footnote id="n1">n</ix:footnote>`},
}

// p03Kind is a folder whose document has the given elements.
func p03Kind(root string, elems ...int) *folderKind {
	f := plainLean("33")
	f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c1", Scheme: scheme1, Entity: "0001", Instant: "2021-12-31"})
	f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: "f7", Concept: f.Schemas[0].Concepts[1], Ctx: f.Inst.Contexts[1], Unit: "usd", Decimals: "0", Inner: "77"})
	f.Inline = &Inline{Prefixes: [][2]string{{"ent", nsEnt}, {"e", nsEnt}}}
	var what []string
	for _, i := range elems {
		f.Inline.Body += "<p>" + p03Elems[i].markup + "</p>"
		what = append(what, p03Elems[i].what)
	}
	k := kindOf(fmt.Sprintf("%s document with [%s]", root, strings.Join(what, ", ")), f)
	if root != "html" {
		k.files["f.xhtml"] = bytes.ReplaceAll(bytes.ReplaceAll(k.files["f.xhtml"], []byte("<html"), []byte("<"+root)), []byte("</html"), []byte("</"+root))
	}
	for _, n := range []string{"ent:C0", "ent:C01", "e:C01", "nope:C0", "C01"} {
		for _, c := range []string{"c0", "c1"} {
			k.facts = append(k.facts, [2]string{n, c})
		}
	}
	return k
}

func p03Families(thorough bool) []Family {
	n := len(p03Elems)
	var singles, pairs, triples, pictures []*scenario
	singles = append(singles, loading(false, p03Kind("html")), loading(false, p03Kind("page", 0)), loading(false, p03Kind("page", 3, 4)))
	for i := 0; i < n; i++ {
		singles = append(singles, loading(false, p03Kind("html", i)))
		for j := 0; j < n; j++ {
			pairs = append(pairs, loading(false, p03Kind("html", i, j)))
			if i <= j {
				for k := j; k < n; k++ {
					triples = append(triples, loading(false, p03Kind("html", i, j, k)))
				}
			}
		}
	}
	both2 := loading(false, p03Kind("html", 0, 1), p03Kind("html", 1, 3))
	same := loading(false, p03Kind("html", 0, 9), p03Kind("html", 0, 9))
	pictures = append(pictures, loading(false, kindOf("rich inline", richFiling(true))), loading(false, kindOf("wide inline", wideFiling(true))))
	if thorough {
		return build(
			orders("orders", append(append([]*scenario{}, singles...), pairs...)...),
			schedules("any-1", 1, true, both(append(append(append([]*scenario{both2, same}, singles...), pairs...), pictures...)...)...),
			schedules("triples", 1, false, triples...),
			schedules("next-2", 2, false, both(append(append([]*scenario{both2, same}, singles...), pairs...)...)...),
			schedules("next-3", 3, false, both(singles...)...),
			schedules("race-any-1", 1, true, both(append([]*scenario{both2, same}, singles...)...)...),
			schedules("race-next-1", 1, false, both(append(append([]*scenario{both2, same}, pairs...), pictures...)...)...),
		)
	}
	var some []*scenario
	for i, s := range pairs {
		if i%2 == 0 {
			some = append(some, s)
		}
	}
	return build(
		orders("orders", append(append([]*scenario{}, singles...), pairs...)...),
		schedules("any-1", 1, true, both(append([]*scenario{both2, same}, singles...)...)...),
		schedules("pairs", 1, true, pairs...),
		schedules("next-1", 1, false, both(append(append([]*scenario{}, triples...), pictures...)...)...),
		schedules("next-2", 2, false, both(singles[:3]...)...),
		schedules("race-next-1", 1, false, append(both(append([]*scenario{both2, same}, singles...)...), some...)...),
	)
}

func init() {
	register(&Check{ID: "P03", Race: true, Setup: schedSetup,
		Rule:     "after every run the catalog, the network and every fact of the document are those of the default schedule, or loading fails like there; no data race, deadlock or crash",
		Assume:   schedAssume,
		Families: p03Families})
}
