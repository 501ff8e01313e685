//go:build verifweb

package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/internal/web"
)

// the routers of a server started without the browser pages, without their
// index page and with all of them; the working directory holds the filings
var (
	routers []http.Handler
	router  http.Handler
)

const staticPage = "static page"

func p07Setup(e *Env) {
	webSetup(e)
	if err := os.Chdir(e.dir); err != nil {
		fatal(err)
	}
	dir := filepath.Join(e.dir, "goldlord-midas")
	routers = []http.Handler{web.NewRouter()}
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, "about.txt"), []byte(staticPage), 0o644)
	routers = append(routers, web.NewRouter())
	os.WriteFile(filepath.Join(dir, "index.html"), []byte(staticPage), 0o644)
	routers = append(routers, web.NewRouter())
	router = routers[2]
}

// A webRequest expects the answer of a request to the library, or no filing
// data at all.
type webRequest struct {
	method, target string
	means          *request
	open           bool // or refused
}

func (r webRequest) String() string { return r.method + " " + r.target }

func get(target string, r ...string) webRequest {
	q := &request{kind: r[0], id: r[1]}
	if len(r) > 2 {
		q.arg = r[2]
	}
	if len(r) > 3 {
		q.ctx = r[3]
	}
	return webRequest{"GET", target, q, false}
}

// maybe is a target that can be read in two ways, one of which names nothing.
func maybe(target string, r ...string) webRequest {
	q := get(target, r...)
	q.open = true
	return q
}

func no(method, target string) webRequest { return webRequest{method, target, nil, false} }

var p07Good = []webRequest{
	get("/folders/$A$", "catalog", "A"),
	get("/folders/$A$/$slug", "network", "A", "$slug"),
	get("/folders/$A$?x=1", "catalog", "A"),
	maybe("/folders/$A$%2F$slug", "network", "A", "$slug"),
	get("/folders/$B$/$slug", "network", "B", "$slug"),
	get("/folders/$I$", "catalog", "I"),
	get("/folders/$I$/f.xhtml", "network", "I", "f.xhtml"),
	get("/folders/$I$/f%2Exhtml", "network", "I", "f.xhtml"),
	get("/folders/$J$/f.htm", "network", "J", "f.htm"),
	get("/folders/$I$/facts?name=ent:C0&contextref=c0", "fact", "I", "ent:C0", "c0"),
	get("/folders/$I$/facts?contextref=c1&name=ent%3AC01&x=y", "fact", "I", "ent:C01", "c1"),
	get("/folders/$J$/facts?name=ent:C0&contextref=c0", "fact", "J", "ent:C0", "c0"),
}

var p07Bad = []webRequest{
	get("/folders/$A$/bogus", "network", "A", "bogus"),
	get("/folders/$A$/f.xml", "network", "A", "f.xml"),
	get("/folders/$A$/_", "network", "A", "_"),
	get("/folders/$I$/f.xhtml.xml", "network", "I", "f.xhtml.xml"),
	get("/folders/$I$/e.xsd", "network", "I", "e.xsd"),
	get("/folders/$I$/f.htm", "network", "I", "f.htm"),
	get("/folders/$I$/facts?name=ent&contextref=C0:c0", "fact", "I", "ent", "C0:c0"),
	get("/folders/$I$/facts?name=ent:C0", "fact", "I", "ent:C0", ""),
	get("/folders/$I$/facts", "fact", "I", "", ""),
	get("/folders/$A$/facts?name=ent:C0&contextref=c0", "fact", "A", "ent:C0", "c0"),
	get("/folders/names.json", "catalog", "names.json"),
	get("/folders/utr.xml", "catalog", "utr.xml"),
	get("/folders/missing", "catalog", "missing"),
	get("/folders/missing/facts?name=ent:C0&contextref=c0", "fact", "missing", "ent:C0", "c0"),
	get("/folders/$_$/$slug", "network", "_", "$slug"),
	get("/folders/$ins$/f.xhtml", "network", "ins", "f.xhtml"),
	get("/folders/$doc$/$slug", "network", "doc", "$slug"),
	get("/folders/$U$", "catalog", "U"),
	no("GET", "/folders/$I$/facts?name=%zz&contextref=c0"),
	no("GET", "/folders/$I$/facts?name=%25zz&contextref=c0"),
	no("GET", "/folders/$I$/facts?name=ent:C0&contextref=%25zz"),
	no("GET", "/folders/%00"),
	no("GET", "/folders/$A$/%00"),
	no("HEAD", "/folders/$A$"),
	no("POST", "/folders/$A$"),
	no("PUT", "/folders/$A$/$slug"),
	no("DELETE", "/folders/$I$/f.xhtml"),
	no("OPTIONS", "/folders/$I$/facts?name=ent:C0&contextref=c0"),
	no("POST", "/folders/$I$/facts?name=ent:C0&contextref=c0"),
	no("get", "/folders/$A$"),
	no("GET", "/folders/$A$/"),
	no("GET", "/folders/$A$/$slug/"),
	no("GET", "/folders/$A$/$slug/x"),
	no("GET", "/folders/$I$/facts/x?name=ent:C0&contextref=c0"),
	get("/folders/$I$/F.XHTML", "network", "I", "F.XHTML"),
	get("/folders/$I$/facts?name=ENT:c0&contextref=c0", "fact", "I", "ENT:c0", "c0"),
	get("/folders/$I$/facts?name=ent:C0&contextref=C0", "fact", "I", "ent:C0", "C0"),
	get("/folders/$I$/facts?Name=ent:C0&contextRef=c0", "fact", "I", "", ""),
	get("/folders/$I$/facts?name=ent:C0&contextref=c0&name=ent:C01&contextref=c1", "fact", "I", "ent:C0", "c0"),
	get("/folders/$I$/facts?name=%20ent:C0&contextref=c0", "fact", "I", " ent:C0", "c0"),
	get("/folders/$I$/facts?name=ent:C0&contextref=c0%20", "fact", "I", "ent:C0", "c0 "),
	get("/folders/$I$/f.xhtml%20", "network", "I", "f.xhtml "),
	no("GET", "/folders/%20$A$"),
	no("GET", "/folders/$A$%20/$slug"),
	no("GET", "/folders/$I$%20/facts?name=ent:C0&contextref=c0"),
	no("GET", "/folders"),
	no("GET", "/folders/"),
	no("GET", "/folders//$A$"),
	no("GET", "/folders/../folders/$A$"),
	no("GET", "/folders/%2e%2e"),
	no("GET", "/folders/..%2f..%2fwd%2ffolders%2f$A$"),
	no("GET", "/folders/."),
	no("GET", "/wd/folders/$A$/f.xml"),
	no("GET", "/wd/folders/$I$/e.xsd"),
	no("GET", "/wd/folders/$I$/_"),
	no("GET", "/goldlord-midas/../wd/folders/$I$/e.xsd"),
	no("GET", "/..%2fwd/folders/$I$/f.xhtml"),
	no("GET", "/../../wd/folders/$I$/f.xhtml"),
	no("GET", "/about.txt"),
	no("GET", "/"),
	no("GET", "/FOLDERS/$A$"),
	no("GET", "//folders/$A$"),
	no("GET", "/folders/"+strings.Repeat("a", 4000)),
}

var p07Repairs = []webRequest{no("REPAIR", "ins"), no("REPAIR", "doc"), no("REPAIR", "_")}

var filingTokens = []string{"RelationshipSet", "Networks", "FactualQuadrant", "Expression", "<html", "xbrli", "schemaRef", "0001 - One", "targetNamespace", "Entry"}

// serve performs a request like the server does, without the network.
func (w *world) serve(r webRequest) (code int, body string, problem string) {
	target := w.text(r.target)
	path, query, _ := strings.Cut(target, "?")
	un, err := url.PathUnescape(path)
	if err != nil {
		fatal(err)
	}
	u := &url.URL{Path: un, RawQuery: query}
	if path != un {
		u.RawPath = path
	}
	req := &http.Request{Method: r.method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "h", RequestURI: target, Body: http.NoBody}
	rec := httptest.NewRecorder()
	defer func() {
		if p := recover(); p != nil {
			problem = fmt.Sprintf("%s crashed: %v", r, p)
		}
	}()
	router.ServeHTTP(rec, req)
	if r.method == "HEAD" {
		rec.Body.Reset() // the server sends none
	}
	return rec.Code, rec.Body.String(), ""
}

func (w *world) judgeWeb(r webRequest, code int, body string) string {
	if r.means == nil || r.open && code != 200 {
		for _, t := range filingTokens {
			if strings.Contains(body, t) {
				return fmt.Sprintf("%s shows filing data: %q", r, clip(body, 200))
			}
		}
		return ""
	}
	want := w.fresh(*r.means)
	if want.err {
		if code != 500 {
			return fmt.Sprintf("%s answers %d, expected 500", r, code)
		}
		if strings.TrimSpace(body) == "" {
			return fmt.Sprintf("%s answers 500 without a message", r)
		}
		for _, t := range filingTokens {
			if strings.Contains(body, t) {
				return fmt.Sprintf("%s fails and shows filing data: %q", r, clip(body, 200))
			}
		}
		return ""
	}
	if code != 200 || body != string(want.data) {
		return fmt.Sprintf("%s answers %d %q, expected 200 %s", r, code, clip(body, 300), want)
	}
	return ""
}

// p07Alone sends single requests to every kind of server.
func p07Alone(alphabet []webRequest) Family {
	return Family{Name: "alone", Bounds: fmt.Sprintf("each of %d requests to a server started without the browser pages, without their index page and with them", len(alphabet)),
		Gen: func(c *Chooser) Exec {
			r := alphabet[c.Choose(len(alphabet))]
			k := c.Choose(3)
			return func(e *Env) string {
				router = routers[k]
				defer func() { router = routers[2] }()
				w := newWorld(e)
				code, body, problem := w.serve(r)
				e.outcome += fmt.Sprintf("%s: %d %d\n", r, code, len(body))
				if problem == "" {
					problem = w.judgeWeb(r, code, body)
				}
				settle()
				return problem
			}
		}}
}

func p07Family(name string, alphabet []webRequest, n int) Family {
	return Family{Name: name, Bounds: fmt.Sprintf("all sequences of %d of %d requests, background work finished between requests", n, len(alphabet)),
		Gen: func(c *Chooser) Exec {
			var h []webRequest
			used := map[string]bool{}
			for i := 0; i < n; i++ {
				r := alphabet[c.Choose(len(alphabet))]
				if r.method == "REPAIR" && (used[r.target] || i == n-1 || i == 0) {
					return nil
				}
				used[r.target] = true
				h = append(h, r)
			}
			return func(e *Env) string {
				w := newWorld(e)
				for i, r := range h {
					if r.method == "REPAIR" {
						w.repair(r.target)
						continue
					}
					code, body, problem := w.serve(r)
					e.outcome += fmt.Sprintf("%s: %d %d\n", r, code, len(body))
					if problem == "" {
						problem = w.judgeWeb(r, code, body)
					}
					if problem != "" {
						return fmt.Sprintf("after %v: %s", h[:i], problem)
					}
					settle()
				}
				return ""
			}
		}}
}

func init() {
	register(&Check{ID: "P07", Setup: p07Setup,
		Rule:   "every answer is the status and data of that request on a fresh server, and requests outside the three routes show no filing data",
		Assume: []string{"requests are handed to the router of the server without a network connection", "header fields are not judged", "background cache filling has ended before the next request; P06 covers the other schedules"},
		Families: func(thorough bool) []Family {
			all := append(append(append([]webRequest{}, p07Good...), p07Bad...), p07Repairs...)
			core := append(append(append([]webRequest{}, p07Good[:11]...), p07Bad[:31]...), p07Repairs...)
			alone := p07Alone(append(append([]webRequest{}, p07Good...), p07Bad...))
			fams := []Family{alone, p07Family("pairs", all, 2), p07Family("triples", core, 3)}
			if thorough {
				fams = []Family{alone, p07Family("pairs", all, 2), p07Family("triples", all, 3), p07Family("four", core[:16], 4)}
			}
			return fams
		}})
}
