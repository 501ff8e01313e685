package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

// Env is the scratch world of one worker.
type Env struct {
	dir     string
	wd, gts string
	n       int
	ids     []string
	cache   *gocache.Cache
	outcome string
	desc    string
	// executions below one leaf
	late  func() bool // no time left
	cut   bool        // left out for lack of time
	runs  int64
	steps int64
	notes []string
	leaf  int
}

type unitDef struct{ ns, id, name, symbol string }

// unitRegistry collides on ids across namespaces on purpose.
var unitRegistry = []unitDef{
	{"http://www.xbrl.org/2003/iso4217", "USD", "US Dollar", "$"},
	{"http://www.xbrl.org/2003/iso4217", "EUR", "Euro", "€"},
	{"http://www.xbrl.org/2003/iso4217", "XAU", "Gold", ""},
	{"http://www.xbrl.org/2003/instance", "shares", "Share", ""},
	{"http://www.xbrl.org/2003/instance", "pure", "Pure", ""},
	{"http://www.xbrl.org/2009/utr", "m", "Metre", "m"},
	{"http://www.xbrl.org/2009/utr", "D", "Day", ""},
	{"http://www.xbrl.org/2009/utr", "USD", "UTR Dollar", "UD"},
	{"http://u.example/utr", "m", "Minute", ""},
	{"http://u.example/utr", "shares", "Other Share", "sh"},
}

func findUnit(prefixed string) *unitDef {
	i := 0
	for i < len(prefixed) && prefixed[i] != ':' {
		i++
	}
	ns := ""
	for _, p := range append([][2]string{{"xbrli", "http://www.xbrl.org/2003/instance"}}, instancePrefixes...) {
		if i < len(prefixed) && p[0] == prefixed[:i] {
			ns = p[1]
		}
	}
	if ns == "" || i >= len(prefixed) {
		return nil
	}
	for k := range unitRegistry {
		if unitRegistry[k].ns == ns && unitRegistry[k].id == prefixed[i+1:] {
			return &unitRegistry[k]
		}
	}
	return nil
}

func emitUTR() string {
	s := `<?xml version="1.0" encoding="UTF-8"?><utr xmlns="http://www.xbrl.org/2009/utr" lastUpdated="2020-01-01T00:00:00Z"><units>`
	types := []string{"monetaryItemType", "perShareItemType", "sharesItemType", "pureItemType", "percentItemType", "areaItemType", "massItemType"}
	states := []string{"REC", "CR", "PR", "PWD", "NIE"}
	for i, u := range unitRegistry {
		s += fmt.Sprintf(`<unit id="u%d"><unitId>%s</unitId><unitName>%s</unitName><nsUnit>%s</nsUnit><itemType>%s</itemType><status>%s</status><versionDate>20%02d-01-01</versionDate>`, i, u.id, u.name, u.ns, types[(i+1)%len(types)], states[(i+1)%len(states)], 9+i%12)
		if u.symbol != "" {
			s += "<symbol>" + u.symbol + "</symbol>"
		}
		s += "</unit>"
	}
	return s + "</units></utr>"
}

func newEnv(dir string) *Env {
	e := &Env{dir: dir, wd: filepath.Join(dir, "wd"), gts: filepath.Join(dir, "gts")}
	for _, d := range []string{filepath.Join(e.wd, "folders"), filepath.Join(e.gts, "concepts")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			fatal(err)
		}
	}
	e.global("http/www.xbrl.org/utr/utr.xml", emitUTR())
	tax := newSchema(urlTx, nsTax)
	tax.NoAuto = true
	tax.Concepts = taxConcepts
	e.global("http/t.example/tax/2020/tax.xsd", tax.emit(&Filing{}))
	e.names(map[string]map[string]string{scheme1: {"0001": "Alpha Inc"}})
	serializables.WorkingDirectoryPath = e.wd
	serializables.GlobalTaxonomySetPath = e.gts
	e.cache = gocache.New(gocache.NoExpiration, gocache.NoExpiration)
	hydratables.InjectCache(e.cache)
	return e
}

func (e *Env) global(path, content string) {
	p := filepath.Join(e.gts, "concepts", path)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		fatal(err)
	}
}

func (e *Env) names(m map[string]map[string]string) {
	b, _ := json.Marshal(m)
	if err := os.WriteFile(filepath.Join(e.wd, "names.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func (e *Env) begin() {}

func (e *Env) end() {
	for _, id := range e.ids {
		os.RemoveAll(filepath.Join(e.wd, "folders", id))
	}
	e.ids = e.ids[:0]
}

func (e *Env) close() { os.RemoveAll(e.dir) }

func (e *Env) describe() string {
	if e.desc != "" {
		return e.desc
	}
	return e.outcome
}

// put writes a filing under a fresh folder id.
func (e *Env) put(f *Filing) string {
	e.n++
	id := fmt.Sprintf("x%d", e.n)
	e.ids = append(e.ids, id)
	writeFiles(filepath.Join(e.wd, "folders", id), f.files())
	return id
}

// load discovers and hydrates a folder.
func (e *Env) load(id string) (*hydratables.Hydratable, error) {
	folder, err := serializables.Discover(id)
	if err != nil {
		return nil, err
	}
	return hydratables.Hydrate(folder)
}

// open writes and loads a filing.
func (e *Env) open(f *Filing) (*hydratables.Hydratable, error) { return e.load(e.put(f)) }

// catalog renders the catalog.
func (e *Env) catalog(h *hydratables.Hydratable) (*Catalog, error) {
	b, err := renderables.MarshalCatalog(h)
	if err != nil {
		return nil, err
	}
	e.outcome += string(b)
	var c Catalog
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, err
	}
	return &c, nil
}

// network renders the network of an entity and role found by the catalog.
func (e *Env) network(h *hydratables.Hydratable, entity, role string) (*Network, error) {
	c, err := e.catalog(h)
	if err != nil {
		return nil, err
	}
	slug := c.Networks[entity][role]
	if slug == "" {
		return nil, fmt.Errorf("the catalog has no network for %s %s: %v", entity, role, c.Networks)
	}
	b, err := renderables.MarshalRenderable(slug, h)
	if err != nil {
		return nil, err
	}
	e.outcome += string(b)
	return parseNetwork(b)
}

func parseNetwork(b []byte) (*Network, error) {
	var n Network
	if err := json.Unmarshal(b, &n); err != nil {
		return nil, err
	}
	return &n, nil
}

// render loads a filing and renders the network of its first entity and role1.
func (e *Env) render(f *Filing) (*Network, error) {
	h, err := e.open(f)
	if err != nil {
		return nil, err
	}
	return e.network(h, scheme1+"/0001", role1)
}

// Decoded output. Only JSON names are relied on.

type LangPack map[string]string
type LabelPack map[string]LangPack

type Catalog struct {
	Subjects         []Subject
	RelationshipSets []RelSet
	Networks         map[string]map[string]string
	DocumentName     string
}

type Subject struct {
	Name   string
	Entity struct{ Scheme, CharData string }
}

type RelSet struct{ Title, RoleURI string }

type Network struct {
	RelationshipSet RelSet
	Subject         Subject
	Lang            []string
	LabelRoles      []string
	PGrid           struct {
		IndentedLabels []struct {
			Href        string
			Label       LabelPack
			Indentation int
		}
		Area
	}
	DGrid struct {
		RootDomains []RootDomain
		DRS         struct {
			Nodes []struct {
				Href  string
				Label LabelPack
			}
			Links []DRSLink
		}
	}
	CGrid struct {
		SummationItems []SumItem
	}
}

// Area is the contextual and factual part shared by all grids.
type Area struct {
	PeriodHeaders        []LangPack
	ContextualMemberGrid [][]*MemberCell
	VoidQuadrant         []*VoidCell
	FactualQuadrant      [][]map[string]Expr
	FootnoteGrid         [][][]int
	Footnotes            []string
}

type MemberCell struct {
	ExplicitMember *struct {
		Href  string
		Label LabelPack
	}
	TypedMember string
}

type VoidCell struct {
	IsParenthesized bool
	Indentation     int
	Dimension       struct {
		Href  string
		Label LabelPack
	}
	TypedDomain *struct {
		Href  string
		Label LabelPack
	}
}

type Expr struct{ Head, Core, Tail, InnerHtml string }

type RootDomain struct {
	Href         string
	Label        LabelPack
	PrimaryItems []struct {
		Href  string
		Label LabelPack
		Level int
	}
	Area
	EffectiveDomainGrid [][][]struct {
		Href            string
		Label           LabelPack
		IsDefault       bool
		IsStrikethrough bool
	}
	EffectiveDimensions []struct {
		Href  string
		Label LabelPack
	}
}

type SumItem struct {
	Href        string
	Label       LabelPack
	BalanceType string
	Area
	ContributingConcepts []struct {
		Sign, Scale, BalanceType, Href string
		Label                          LabelPack
		IsSummationItem                bool
	}
}

type DRSLink struct {
	SourceHref, TargetHref string
	HypercubeConnection    *struct {
		IsClosed       bool
		ContextElement string
		IsInclusive    bool
		External       string
	}
	HypercubeDimensionConnection *struct{ Order, External string }
	DimensionDomainConnection    *struct {
		Order           string
		Default, Usable bool
		External        string
	}
	DomainMemberConnection *struct {
		Order    string
		Usable   bool
		External string
	}
}

type Expressable struct {
	Href    string
	Labels  LabelPack
	Context struct {
		Period               LangPack
		VoidQuadrant         []*VoidCell
		ContextualMemberGrid [][]*MemberCell
	}
	Expression map[string]Expr
	Footnotes  []string
}

func parseCatalog(b []byte, err error) (*Catalog, error) {
	if err != nil {
		return nil, err
	}
	var c Catalog
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, err
	}
	return &c, nil
}
