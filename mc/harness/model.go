package main

// A Filing is the abstract content of one filing folder. The emitter writes it
// as files and the oracle computes the expected output from it.
type Filing struct {
	Entry   string // entry file name, default "f.xml"
	Schemas []*Schema
	P, D, C []*Linkbase
	L       []*Linkbase
	Inst    *Instance
	Inline  *Inline           // non-nil for inline reports
	Extra   map[string][]byte // further files of the folder
	Raw     map[string][]byte // overrides of emitted files
}

type Schema struct {
	File     string
	NS       string
	Concepts []*Concept
	Roles    []Role
	Imports  []Import
	Includes []string
	LBRefs   []LBRef
	NoAuto   bool   // do not add linkbase references automatically
	Split    int    // 1: each role in its own appinfo, 2: in its own annotation
	Before   string // raw markup before and after the references
	After    string
	RefMark  [2]string // raw markup before and after the linkbase references
}

type Import struct{ NS, Loc string }

type LBRef struct{ Role, Href string }

type Role struct{ ID, URI, Def string }

type Concept struct {
	ID, Name  string
	Type      string // prefixed, default xbrli:monetaryItemType
	Abstract  bool
	Balance   string
	TypedRef  string // typedDomainRef
	Subst     string
	schemaLoc string
	ns        string
}

type Linkbase struct {
	File  string
	Refs  []string // role references, default the roles of Links
	Links []*XLink
}

type XLink struct {
	Role   string
	Locs   []Loc
	Arcs   []Arc
	Labels []LabelRes
}

type Loc struct{ Label, Href string }

type Arc struct {
	Arcrole  string
	From, To string
	Order    string
	Weight   string
	Attrs    [][2]string // further attributes, e.g. closed, usable
}

type LabelRes struct{ Label, Role, Lang, Text string }

type Instance struct {
	SchemaRefs []string // default: first schema
	Contexts   []*Context
	Units      []*Unit
	Facts      []*Fact
	FootLinks  []*FootLink
}

type Context struct {
	ID             string
	Scheme, Entity string
	Instant        string
	Start, End     string
	Seg, Scen      []Member
	Pad            string // white space around all content
}

// Member is an explicit member (Mem non-nil) or a simple typed member.
type Member struct {
	Dim   *Concept
	Mem   *Concept
	Typed *Concept
	Value string
}

type Unit struct {
	ID       string
	Num, Den string // prefixed measures
	Pad      string // white space around them
}

type Fact struct {
	ID       string
	Concept  *Concept
	Ctx      *Context
	CtxRef   string // overrides Ctx
	Unit     string
	Decimals string
	Nil      string
	Inner    string // raw XML content
}

type FootLink struct {
	Title string
	Locs  []Loc
	Notes []Note
	Arcs  [][2]string
}

type Note struct{ ID, Label, Lang, Inner string }

// Inline is an inline report. Elems are the tagged facts of the document.
type Inline struct {
	Prefixes [][2]string // prefix, namespace
	Elems    []InlineElem
	Body     string // extra body markup
}

type InlineElem struct {
	Numeric bool
	Name    string
	Ctx     string
	ID      string
	Text    string
}

const (
	arcPC   = "http://www.xbrl.org/2003/arcrole/parent-child"
	arcSI   = "http://www.xbrl.org/2003/arcrole/summation-item"
	arcDM   = "http://xbrl.org/int/dim/arcrole/domain-member"
	arcDD   = "http://xbrl.org/int/dim/arcrole/dimension-domain"
	arcDef  = "http://xbrl.org/int/dim/arcrole/dimension-default"
	arcHD   = "http://xbrl.org/int/dim/arcrole/hypercube-dimension"
	arcAll  = "http://xbrl.org/int/dim/arcrole/all"
	arcNot  = "http://xbrl.org/int/dim/arcrole/notAll"
	arcLab  = "http://www.xbrl.org/2003/arcrole/concept-label"
	arcFoot = "http://www.xbrl.org/2003/arcrole/fact-footnote"

	roleLabel   = "http://www.xbrl.org/2003/role/label"
	roleTerse   = "http://www.xbrl.org/2003/role/terseLabel"
	roleVerbose = "http://www.xbrl.org/2003/role/verboseLabel"
	roleDoc     = "http://www.xbrl.org/2003/role/documentation"

	refLabel = "http://www.xbrl.org/2003/role/labelLinkbaseRef"
	refCalc  = "http://www.xbrl.org/2003/role/calculationLinkbaseRef"
	refDef   = "http://www.xbrl.org/2003/role/definitionLinkbaseRef"
	refPres  = "http://www.xbrl.org/2003/role/presentationLinkbaseRef"

	nsEnt = "http://e.example/ent"
	nsTax = "http://t.example/tax"
	urlTx = "http://t.example/tax/2020/tax.xsd"

	scheme1 = "http://www.sec.gov/CIK"
)

// href is the reference of a concept as rows show it.
func (c *Concept) href() string { return c.schemaLoc + "#" + c.ID }

// qname is the prefixed name of a concept in instance documents.
func (c *Concept) qname() string { return prefixOf(c.ns) + ":" + c.Name }

func prefixOf(ns string) string {
	switch ns {
	case nsTax:
		return "tax"
	case nsEnt:
		return "ent"
	case nsEnt + "2":
		return "ent2"
	case nsEnt + "3":
		return "ent3"
	case nsEnt + "4":
		return "ent4"
	}
	return "nx"
}

var instancePrefixes = [][2]string{
	{"tax", nsTax}, {"ent", nsEnt}, {"ent2", nsEnt + "2"}, {"ent3", nsEnt + "3"}, {"ent4", nsEnt + "4"},
	{"iso4217", "http://www.xbrl.org/2003/iso4217"},
	{"utr", "http://www.xbrl.org/2009/utr"},
	{"utrx", "http://u.example/utr"},
}

// add appends a concept to a schema.
func (s *Schema) add(c *Concept) *Concept {
	c.schemaLoc = s.File
	c.ns = s.NS
	s.Concepts = append(s.Concepts, c)
	return c
}

func newSchema(file, ns string) *Schema { return &Schema{File: file, NS: ns} }

// Concepts of the fixed taxonomy schema at urlTx.
var taxConcepts []*Concept

func taxConcept(i int) *Concept { return taxConcepts[i] }

func init() {
	for i := 0; i < 12; i++ {
		n := "Tax" + string(rune('A'+i))
		c := &Concept{ID: "tax_" + n, Name: n, schemaLoc: urlTx, ns: nsTax}
		if i == 8 {
			c.Balance = "debit"
		}
		if i == 9 {
			c.Balance = "credit"
		}
		taxConcepts = append(taxConcepts, c)
	}
}

// cname names concepts so that names are parts of each other or differ only in
// case.
func cname(i int) string {
	names := []string{"C0", "C01", "c0", "CC0", "C0C01", "c01", "C010", "CC01", "C1"}
	if i < len(names) {
		return names[i]
	}
	return "C1" + itoa(i)
}

// pad is white space that may stand around content, for every other item.
func pad(i int) string { return []string{"", "\n\t "}[i%2] }

// basic returns a filing with one local schema importing the taxonomy, n
// local concepts, one role, one context and no facts.
func basic(n int) (*Filing, []*Concept) {
	s := newSchema("e.xsd", nsEnt)
	s.Imports = []Import{{nsTax, urlTx}}
	s.Roles = []Role{{ID: "r1", URI: "http://e.example/role/1", Def: "0001 - One"}}
	var cs []*Concept
	for i := 0; i < n; i++ {
		cs = append(cs, s.add(&Concept{ID: "ent_" + cname(i), Name: cname(i)}))
	}
	f := &Filing{Schemas: []*Schema{s}, Inst: &Instance{}}
	f.Inst.Contexts = []*Context{{ID: "c0", Scheme: scheme1, Entity: "0001", Instant: "2020-12-31"}}
	f.Inst.Units = []*Unit{{ID: "usd", Num: "iso4217:USD"}}
	return f, cs
}

const role1 = "http://e.example/role/1"

// linkOver makes an extended link with one locator per concept.
func linkOver(role string, cs []*Concept) *XLink {
	l := &XLink{Role: role}
	for _, c := range cs {
		l.Locs = append(l.Locs, Loc{Label: locLabel(c), Href: c.href()})
	}
	return l
}

// onlyUsed leaves the locators that an arc of the link names.
func (l *XLink) onlyUsed() {
	used := map[string]bool{}
	for _, a := range l.Arcs {
		used[a.From], used[a.To] = true, true
	}
	var locs []Loc
	for _, x := range l.Locs {
		if used[x.Label] {
			locs = append(locs, x)
		}
	}
	l.Locs = locs
}

func locLabel(c *Concept) string { return "loc_" + c.ID }
