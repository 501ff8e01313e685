//go:build verifsched && verifweb

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/internal/web"
	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	gocache "github.com/patrickmn/go-cache"
)

// p06World is one set of folders for all runs; the cache is emptied.
var (
	p06World *world
	p06Fresh map[request]string
)

func p06Setup(e *Env) {
	webSetup(e)
	schedSetup(e)
	controlled = true
	router = web.NewRouter()
	p06World = newWorld(e)
	for _, t := range sortedKeys(templates) {
		p06World.id(t)
	}
	e.ids = nil // kept to the end
	p06Fresh = map[request]string{}
}

// freshly is the answer of a server without cache.
func freshly(w *world, r request) string {
	if x, ok := p06Fresh[r]; ok {
		return x
	}
	e := w.e
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	defer hydratables.InjectCache(appCache)
	var data []byte
	var err error
	res := alone(func() {
		var h *hydratables.Hydratable
		h, err = e.load(w.folder(r.id))
		if err != nil {
			return
		}
		switch r.kind {
		case "catalog":
			data, err = renderables.MarshalCatalog(h)
		case "fact":
			data, err = renderables.MarshalExpressable(r.arg, r.ctx, h)
		default:
			if r.arg == "f.xhtml" {
				data, err = os.ReadFile(filepath.Join(e.wd, "folders", w.folder(r.id), r.arg))
				return
			}
			data, err = renderables.MarshalRenderable(w.text(r.arg), h)
		}
	})
	x := answerText(data, err)
	if res.Panic != "" || res.Deadlock != "" {
		x = "alone: " + res.Panic + res.Deadlock
	}
	p06Fresh[r] = x
	return x
}

func answerText(data []byte, err error) string {
	if err != nil {
		return "an error"
	}
	return fmt.Sprintf("%q", data)
}

var p06Requests = map[string]request{
	"catalog":  {"catalog", "A", "", ""},
	"network":  {"network", "A", "$slug", ""},
	"networkB": {"network", "B", "$slug", ""},
	"bogus":    {"network", "A", "bogus", ""},
	"catalogI": {"catalog", "I", "", ""},
	"networkI": {"network", "I", "$slug", ""},
	"document": {"network", "I", "f.xhtml", ""},
	"fact":     {"fact", "I", "ent:C0", "c0"},
	"fact2":    {"fact", "I", "ent:C01", "c1"},
	"factJ":    {"fact", "J", "ent:C0", "c0"},
	"nofact":   {"fact", "I", "ent:C0", "c9"},
	"gap":      {"network", "gap", "$slug", ""},
	"missing":  {"catalog", "missing", "", ""},
	"torn":     {"network", "ins", "$slug", ""},
}

// requests serves requests at the same time; the warm ones were served before.
func requests(overHTTP bool, warm string, names ...string) *scenario {
	name := "serve " + strings.Join(names, " and ")
	if warm != "" {
		name += " after " + warm
	}
	if overHTTP {
		name += " over HTTP"
	}
	ask := func(w *world, r request) string {
		if overHTTP {
			code, body, problem := w.fetch(w.target(r))
			if problem != "" {
				panic(problem)
			}
			if code == 500 {
				return "an error"
			}
			if code != 200 {
				return fmt.Sprint("status ", code)
			}
			return fmt.Sprintf("%q", body)
		}
		switch r.kind {
		case "catalog":
			return answerText(cache.MarshalCatalog(w.folder(r.id)))
		case "fact":
			return answerText(cache.MarshalExpressable(w.folder(r.id), r.arg, r.ctx))
		}
		return answerText(cache.MarshalRenderable(w.folder(r.id), w.text(r.arg)))
	}
	return &scenario{name: name, leaf: -1, start: func(e *Env, s *scenario) *attempt {
		w := p06World
		var list, after []request
		for _, n := range names {
			list = append(list, p06Requests[n])
		}
		for _, n := range strings.Fields(warm) {
			after = append(after, p06Requests[n])
		}
		after = append(after, list...)
		for _, r := range after {
			freshly(w, r)
		}
		appCache.Flush()
		trouble := ""
		for _, n := range strings.Fields(warm) {
			if res := alone(func() { ask(w, p06Requests[n]) }); res.Panic != "" || res.Deadlock != "" {
				trouble = fmt.Sprintf("%s alone: %s %s", p06Requests[n], res.Panic, res.Deadlock)
			}
		}
		got := make([]string, len(list))
		a := &attempt{}
		for i, r := range list {
			a.mains = append(a.mains, func() { got[i] = ask(w, r) })
		}
		a.result = func() string {
			if trouble != "" {
				return trouble
			}
			for i, r := range list {
				if want := freshly(w, r); got[i] != want {
					return fmt.Sprintf("%s is answered %s, alone %s", r, clip(got[i], 300), clip(want, 300))
				}
			}
			for round := 0; round < 2; round++ {
				for _, r := range after {
					x := "no answer"
					res := alone(func() { x = ask(w, r) })
					if res.Panic != "" || res.Deadlock != "" {
						return fmt.Sprintf("%s afterwards: %s %s", r, res.Panic, res.Deadlock)
					}
					if want := freshly(w, r); x != want {
						return fmt.Sprintf("%s is answered afterwards %s, by a fresh server %s", r, clip(x, 300), clip(want, 300))
					}
				}
			}
			return "ok"
		}
		return a
	}, judge: func(e *Env, got string) string {
		if got == "ok" {
			return ""
		}
		return got
	}}
}

// target is the address of a request.
func (w *world) target(r request) string {
	switch r.kind {
	case "catalog":
		return "/folders/" + w.folder(r.id)
	case "fact":
		return "/folders/" + w.folder(r.id) + "/facts?name=" + w.text(r.arg) + "&contextref=" + w.text(r.ctx)
	}
	return "/folders/" + w.folder(r.id) + "/" + w.text(r.arg)
}

func p06Families(thorough bool) []Family {
	names := sortedKeys(p06Requests)
	var pairs, warm, http, core, triples []*scenario
	for i, a := range names {
		for _, b := range names[i:] {
			pairs = append(pairs, requests(false, "", a, b))
			http = append(http, requests(true, "", a, b))
			warm = append(warm, requests(false, a, a, b), requests(false, b, a, b))
		}
	}
	core = []*scenario{
		requests(false, "", "catalog", "catalog"),
		requests(false, "", "catalog", "network"),
		requests(false, "", "network", "network"),
		requests(false, "", "network", "networkB"),
		requests(false, "", "fact", "document"),
		requests(false, "", "fact", "fact"),
		requests(false, "", "missing", "catalog"),
		requests(false, "", "torn", "fact"),
		requests(false, "catalog", "network", "network"),
		requests(false, "catalogI", "fact", "fact2"),
		requests(false, "catalogI", "document", "document"),
		requests(false, "fact", "fact", "factJ"),
	}
	few := [][]string{{"catalog", "network", "networkB"}, {"network", "network", "catalog"}, {"fact", "document", "networkI"}, {"fact", "fact2", "nofact"}, {"bogus", "network", "missing"}, {"catalogI", "catalogI", "catalogI"}, {"torn", "fact", "factJ"}, {"gap", "gap", "network"}}
	for _, t := range few {
		triples = append(triples, requests(false, "", t...), requests(false, t[0], t...))
	}
	cat := func(l ...[]*scenario) []*scenario {
		var r []*scenario
		for _, x := range l {
			r = append(r, x...)
		}
		return r
	}
	if thorough {
		return build(
			schedules("any-1", 1, true, both(cat(pairs, warm, http, triples)...)...),
			schedules("next-2", 2, false, both(cat(core, triples)...)...),
			schedules("any-2", 2, true, eager(core...)...),
			schedules("race-any-1", 1, true, both(cat(core, triples)...)...),
			schedules("race-next-1", 1, false, both(pairs...)...),
		)
	}
	return build(
		schedules("next-1", 1, false, cat(both(pairs...), warm, http, both(triples...))...),
		schedules("any-1", 1, true, both(core...)...),
		schedules("next-2", 2, false, eager(core[0], core[1], core[4], core[8], core[9], core[10], core[11])...),
		schedules("race-next-1", 1, false, cat(both(core...), triples)...),
	)
}

func init() {
	register(&Check{ID: "P06", Race: true, Setup: p06Setup,
		Rule:     "every request gets the answer of a server without cache, and so do all requests sent again afterwards; no data race, deadlock or crash",
		Assume:   append([]string{"the cache library runs without switches in between"}, schedAssume...),
		Families: p06Families})
}
