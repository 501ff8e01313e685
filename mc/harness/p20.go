package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"ecksbee.com/telefacts/pkg/renderables"
)

const scheme2 = "http://standards.iso.org/iso/17442"

var registeredNames = map[string]map[string]string{
	scheme1: {"0001": "Alpha Inc", "0003": "Beta <Ltd>"},
	scheme2: {"0001": "Gamma SA", "00012": ""},
}

var p20Entities = [][2]string{{scheme1, "0001"}, {scheme2, "0001"}, {scheme1, "0002"}, {scheme1, "00012"}, {scheme2, "0003"}, {scheme1, "0003"}}

var p20Roles = []Role{
	{"r1", role1, "0001 - One"},
	{"r2", "http://e.example/role/2", "0001 - One"},
	{"r3", "http://e.example/role/10", "0000 - Zero"},
	{"r4", "http://a.example/role/2", ""},
	{"r5", role1, "Other title"},
}

// decideCatalog renders the catalog and all its networks and judges them. Role
// k of the alphabet shows concept k.
func decideCatalog(e *Env, f *Filing, cs []*Concept, alphabet, roles []Role, names map[string]map[string]string) string {
	h, err := e.open(f)
	if err != nil {
		return "cannot load: " + err.Error()
	}
	cat, err := e.catalog(h)
	if err != nil {
		return "no catalog: " + err.Error()
	}
	ents := map[[2]string]bool{}
	for _, c := range f.Inst.Contexts {
		ents[[2]string{c.Scheme, c.Entity}] = true
	}
	var wantE [][2]string
	for k := range ents {
		wantE = append(wantE, k)
	}
	sort.Slice(wantE, func(i, j int) bool {
		return wantE[i][0] < wantE[j][0] || wantE[i][0] == wantE[j][0] && wantE[i][1] < wantE[j][1]
	})
	nameOf := func(k [2]string) string {
		if n, ok := names[k[0]][k[1]]; ok {
			return n
		}
		return k[0] + "/" + k[1]
	}
	if len(cat.Subjects) != len(wantE) {
		return fmt.Sprintf("%d subjects listed for %d entities", len(cat.Subjects), len(wantE))
	}
	for i, s := range cat.Subjects {
		k := [2]string{s.Entity.Scheme, s.Entity.CharData}
		if k != wantE[i] {
			return fmt.Sprintf("subject %d is %v, expected %v", i, k, wantE[i])
		}
		if s.Name != nameOf(k) {
			return fmt.Sprintf("subject %v is named %q, expected %q", k, s.Name, nameOf(k))
		}
	}
	sets := map[RelSet]bool{}
	uris := map[string]bool{}
	var wantS []RelSet
	for _, r := range roles {
		k := RelSet{Title: r.Def, RoleURI: r.URI}
		if !sets[k] {
			sets[k] = true
			uris[r.URI] = true
			wantS = append(wantS, k)
		}
	}
	sort.Slice(wantS, func(i, j int) bool {
		return wantS[i].Title < wantS[j].Title || wantS[i].Title == wantS[j].Title && wantS[i].RoleURI < wantS[j].RoleURI
	})
	if fmt.Sprint(cat.RelationshipSets) != fmt.Sprint(wantS) {
		return fmt.Sprintf("relationship sets listed: %v, expected %v", cat.RelationshipSets, wantS)
	}
	if len(cat.Networks) != len(wantE) {
		return fmt.Sprintf("networks of %d entities listed, expected %d", len(cat.Networks), len(wantE))
	}
	slugs := map[string]bool{}
	for _, k := range wantE {
		m := cat.Networks[k[0]+"/"+k[1]]
		if len(m) != len(uris) {
			return fmt.Sprintf("%d networks listed for %v, expected %d", len(m), k, len(uris))
		}
		for uri := range uris {
			slug := m[uri]
			if slug == "" {
				return fmt.Sprintf("no slug for %v %s", k, uri)
			}
			if slugs[slug] {
				return fmt.Sprintf("slug %s is listed twice", slug)
			}
			slugs[slug] = true
			b, err := renderables.MarshalRenderable(slug, h)
			if err != nil {
				return fmt.Sprintf("the listed slug of %v %s gives an error: %v", k, uri, err)
			}
			n, err := parseNetwork(b)
			if err != nil {
				return err.Error()
			}
			if got := [2]string{n.Subject.Entity.Scheme, n.Subject.Entity.CharData}; got != k || n.Subject.Name != nameOf(k) {
				return fmt.Sprintf("the slug of %v gives the network of %v named %q", k, got, n.Subject.Name)
			}
			if n.RelationshipSet.RoleURI != uri || !sets[n.RelationshipSet] {
				return fmt.Sprintf("the slug of %s gives the network of %v", uri, n.RelationshipSet)
			}
			if msg := p20Content(f, cs, alphabet, k, uri, n); msg != "" {
				return msg
			}
		}
	}
	for slug := range slugs {
		for _, bad := range []string{"", slug[1:], slug[:len(slug)-1], slug + "0", strings.ToUpper(slug) + "x", "f" + slug, wantE[0][0] + "/" + wantE[0][1]} {
			if slugs[bad] {
				continue
			}
			if b, err := renderables.MarshalRenderable(bad, h); err == nil {
				return fmt.Sprintf("slug %q is not listed but gives %.100s", bad, b)
			}
		}
	}
	return ""
}

func p20Content(f *Filing, cs []*Concept, alphabet []Role, k [2]string, uri string, n *Network) string {
	var c *Concept
	for i, r := range alphabet {
		if r.URI == uri {
			c = cs[i]
			break
		}
	}
	linked := false
	for _, l := range f.P[0].Links {
		linked = linked || l.Role == uri
	}
	if !linked {
		if len(n.PGrid.IndentedLabels) != 0 {
			return fmt.Sprintf("the network of %s shows rows", uri)
		}
		return ""
	}
	if len(n.PGrid.IndentedLabels) != 2 || n.PGrid.IndentedLabels[1].Href != c.href() {
		return fmt.Sprintf("the network of %s shows %v, expected %s", uri, n.PGrid.IndentedLabels, c.href())
	}
	var want, got []string
	for _, x := range f.Inst.Facts {
		if x.Concept == c && x.Ctx.Scheme == k[0] && x.Ctx.Entity == k[1] {
			want = append(want, x.Inner)
		}
	}
	for _, x := range n.PGrid.FactualQuadrant[1] {
		got = append(got, x[langPlain].Core)
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("the network of %v %s shows facts %v, expected %v", k, uri, got, want)
	}
	return ""
}

// p20Filing links a root and concept k under role k of the alphabet.
func p20Filing(ents [][2]string, inLocal, inImported []int, linked []bool, split int) (*Filing, []*Concept, []Role) {
	f, cs := basic(len(p20Roles))
	s := f.Schemas[0]
	root := s.add(&Concept{ID: "ent_Root", Name: "Root", Abstract: true})
	s2 := newSchema("e2.xsd", nsEnt+"2")
	s.Imports = append(s.Imports, Import{s2.NS, s2.File})
	s2.add(&Concept{ID: "ent2_X", Name: "X"})
	f.Schemas = append(f.Schemas, s2)
	s.Roles, s2.Roles = nil, nil
	s.Split, s2.Split = split, split
	var roles []Role
	for _, i := range inLocal {
		s.Roles = append(s.Roles, p20Roles[i])
		roles = append(roles, p20Roles[i])
	}
	for _, i := range inImported {
		s2.Roles = append(s2.Roles, p20Roles[i])
		roles = append(roles, p20Roles[i])
	}
	p := &Linkbase{File: "p.xml"}
	seen := map[string]bool{}
	for i, r := range p20Roles {
		if seen[r.URI] || !linked[i] {
			continue
		}
		seen[r.URI] = true
		x := linkOver(r.URI, []*Concept{root, cs[i]})
		x.Arcs = []Arc{{Arcrole: arcPC, From: locLabel(root), To: locLabel(cs[i]), Order: "1"}}
		p.Links = append(p.Links, x)
	}
	f.P = []*Linkbase{p}
	f.Inst.Contexts = nil
	for j, k := range ents {
		f.Inst.Contexts = append(f.Inst.Contexts, &Context{ID: "c" + itoa(j), Scheme: k[0], Entity: k[1], Instant: fmt.Sprintf("20%02d-12-31", 10+j), Pad: pad(j)})
		for i, c := range cs {
			f.Inst.Facts = append(f.Inst.Facts, &Fact{ID: fmt.Sprintf("f%d-%d", j, i), Concept: c, Ctx: f.Inst.Contexts[j], Inner: fmt.Sprintf("v%d.%d", j, i)})
		}
	}
	return f, cs, roles
}

func p20Family(name string, nEnt, nRole int, register bool) Family {
	return Family{Name: name, Bounds: fmt.Sprintf("up to %d contexts over %d entities in every order, up to %d of %d roles declared in two schemas (equal titles, equal URIs, no title, repeated), in one or several annotations, register %v", nEnt, len(p20Entities), nRole, len(p20Roles), register),
		Gen: func(c *Chooser) Exec {
			var ents [][2]string
			for k := 1 + c.Choose(nEnt); k > 0; k-- {
				ents = append(ents, p20Entities[c.Choose(len(p20Entities))])
			}
			var local, imported []int
			used := map[int]bool{}
			for k := c.Choose(nRole + 1); k > 0; k-- {
				i := c.Choose(len(p20Roles))
				switch c.Choose(3) {
				case 0:
					local = append(local, i)
				case 1:
					imported = append(imported, i)
				case 2:
					local = append(local, i)
					imported = append(imported, i)
				}
				used[i] = true
			}
			split := c.Choose(3)
			if split > 0 && len(local) < 2 && len(imported) < 2 {
				return nil
			}
			linked := make([]bool, len(p20Roles))
			for i := range linked {
				linked[i] = i != 3
			}
			f, cs, roles := p20Filing(ents, local, imported, linked, split)
			return func(e *Env) string {
				names := registeredNames
				if register {
					e.names(registeredNames)
				} else {
					// runs before any register was read by this process
					os.Remove(filepath.Join(e.wd, "names.json"))
					names = nil
				}
				return decideCatalog(e, f, cs, p20Roles, roles, names)
			}
		}}
}

func init() {
	register(&Check{ID: "P20",
		Rule: "subjects, relationship sets and slugs listed once and sorted, every listed slug gives the network of its pair with the facts of its entity, other slugs give errors",
		Families: func(thorough bool) []Family {
			fams := []Family{p20Family("no-register", 1, 1, false), p20Sizes(30), p20Lengths(), p20Alike(), p20Family("one", 1, 2, true), p20Family("entities", 3, 1, true), p20Family("pairs", 2, 2, true), spelled(p20Family("one", 1, 2, true))}
			if thorough {
				fams = append(fams, p20Family("deep", 2, 3, true), p20Family("many", 4, 1, true))
			}
			return fams
		},
		Assume: []string{"entity identifiers and schemes that concatenate to the same text are not distinguished"}})
}
