//go:build verifsched

package main

import (
	"fmt"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
)

// outcome is the outcome of one call, with the message of an error left out.
func outcome(b []byte, err error) string {
	if err != nil {
		return "failed"
	}
	return string(b)
}

type ask struct{ kind, a, b string }

func (q ask) run(h *hydratables.Hydratable) string {
	switch q.kind {
	case "catalog":
		return outcome(renderables.MarshalCatalog(h))
	case "network":
		return outcome(renderables.MarshalRenderable(q.a, h))
	}
	return outcome(renderables.MarshalExpressable(q.a, q.b, h))
}

func (q ask) String() string { return q.kind + " " + q.a + " " + q.b }

// loaded loads a filing under the default schedule.
func loaded(e *Env, f *Filing, cold bool) (*hydratables.Hydratable, string) {
	e.cache.Flush()
	var h *hydratables.Hydratable
	var err error
	r := alone(func() { h, err = e.open(f) })
	if r.Panic != "" || r.Deadlock != "" {
		return nil, "loading: " + r.Panic + r.Deadlock
	}
	if err != nil {
		return nil, "loading failed"
	}
	if cold {
		e.cache.Flush()
	}
	return h, ""
}

// rendering renders a loaded filing, one task for each request.
func rendering(name string, make func() *Filing, cold bool, asks ...ask) *scenario {
	for _, q := range asks {
		name += ", " + q.String()
	}
	if cold {
		name += ", empty cache"
	}
	return &scenario{name: name, leaf: -1, start: func(e *Env, s *scenario) *attempt {
		if s.leaf != e.leaf {
			s.h, s.load = loaded(e, make(), cold)
			s.leaf = e.leaf
		}
		if cold {
			e.cache.Flush()
		}
		h, problem := s.h, s.load
		got := make2(len(asks))
		a := &attempt{}
		for i, q := range asks {
			a.mains = append(a.mains, func() {
				if h != nil {
					got[i] = q.run(h)
				}
			})
		}
		a.result = func() string {
			all := problem
			for i := range got {
				all += fmt.Sprintf("\n%d: %s", i, got[i])
			}
			return all
		}
		return a
	}}
}

// slugOf is the slug of the first entity and a role.
func slugOf(e *Env, f *Filing, role string) string {
	h, _ := loaded(e, f, false)
	slug := ""
	alone(func() {
		if h != nil {
			if c, err := e.catalog(h); err == nil {
				slug = c.Networks[scheme1+"/0001"][role]
			}
		}
	})
	e.end()
	return slug
}

func make2(n int) []string { return make([]string, n) }

func p04Families(thorough bool) []Family {
	e := schedEnv
	slug := slugOf(e, richFiling(false), role1)
	plain := func() *Filing { return richFiling(false) }
	inline := func() *Filing { return richFiling(true) }
	wide := func() *Filing { return wideFiling(true) }
	cat, net := ask{"catalog", "", ""}, ask{"network", slug, ""}
	other := ask{"network", slugOf(e, wideFiling(false), role2), ""}
	fact, fact2, fact3 := ask{"fact", "ent:C0", "c1"}, ask{"fact", "ent:C01", "c2"}, ask{"fact", "ent2:A", "c3"}
	clash := func() *Filing { return clashingFiling(true) }
	small := []*scenario{
		rendering("clashing", clash, false, cat),
		rendering("clashing", clash, false, fact),
		rendering("plain", plain, false, cat),
		rendering("plain", plain, true, cat),
		rendering("plain", plain, false, net),
		rendering("inline", inline, true, fact),
		rendering("plain", plain, true, cat, cat),
		rendering("inline", inline, true, fact, fact2),
		rendering("inline", inline, true, fact, cat, fact),
		rendering("plain", plain, false, net, cat),
		rendering("wide", wide, false, cat),
		rendering("wide", wide, false, fact, fact3),
	}
	medium := []*scenario{
		rendering("plain", plain, false, net, net),
		rendering("inline", inline, true, fact, net),
	}
	cold := []*scenario{
		rendering("plain", plain, true, net),
		rendering("plain", plain, true, net, net),
		rendering("plain", plain, true, cat, net),
	}
	large := []*scenario{
		rendering("wide", wide, false, net),
		rendering("wide", wide, false, net, other),
	}
	one := []*scenario{
		rendering("clashing", clash, false, net),
		rendering("wide", wide, false, other),
		rendering("wide", wide, false, fact3),
		rendering("wide", wide, false, fact),
		rendering("wide", wide, false, ask{"fact", "ent2:B", "c6"}),
	}
	var all []*scenario
	for _, l := range [][]*scenario{small, medium, cold, large} {
		all = append(all, l...)
	}
	if thorough {
		return build(
			orders("orders", append(one, all...)...),
			schedules("any-1", 1, true, both(all...)...),
			schedules("next-2", 2, false, both(append(append([]*scenario{}, small...), medium...)...)...),
			schedules("next-2-cold", 2, false, eager(cold...)...),
			schedules("any-2", 2, true, both(small...)...),
			schedules("next-3", 3, false, both(small...)...),
			schedules("race-any-1", 1, true, both(append(append([]*scenario{}, small...), medium...)...)...),
			schedules("race-next-1", 1, false, both(all...)...),
		)
	}
	return build(
		orders("orders", append(one, all...)...),
		schedules("any-1", 1, true, append(both(append(append([]*scenario{}, small...), medium...)...), eager(append(cold, large...)...)...)...),
		schedules("next-1", 1, false, append(append([]*scenario{}, cold...), large...)...),
		schedules("next-2", 2, false, append(both(small...), eager(medium...)...)...),
		schedules("race-next-1", 1, false, append(both(small...), eager(append(append(medium, cold...), large[0])...)...)...),
	)
}

func init() {
	register(&Check{ID: "P04", Race: true, Setup: schedSetup,
		Rule:     "every run gives the bytes of the run under the default schedule and sorted maps, without data race, deadlock or crash",
		Assume:   schedAssume,
		Families: p04Families})
}
