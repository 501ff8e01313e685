package main

import (
	"fmt"
	"math/big"
	"strings"
)

// p18Fact is a fact of a batch together with what has to be shown.
type p18Fact struct {
	Type     string
	Value    string
	Decimals string
	Num, Den string // measures, "" for none
	Ref      bool   // whether the fact has a unit reference at all
	Nil      string
}

var squeeze = strings.NewReplacer(" ", "", ",", "", " ", "")

// checkUnit judges the text of a numeric fact, spaces and grouping aside.
func checkUnit(x p18Fact, e Expr) string {
	text := e.Head + e.Core + e.Tail
	want, _ := new(big.Rat).SetString(x.Value)
	percent := x.Type == "num:percentItemType"
	if percent {
		want.Mul(want, big.NewRat(100, 1))
	}
	var num, den *unitDef
	if x.Ref {
		num, den = findUnit(x.Num), findUnit(x.Den)
	}
	s := squeeze.Replace(text)
	bad := func(what string) string {
		return fmt.Sprintf("%s of %s %s/%s (decimals %s) is shown as %q %q %q: %s", x.Type, x.Value, x.Num, x.Den, x.Decimals, e.Head, e.Core, e.Tail, what)
	}
	if e.InnerHtml != "" {
		return bad("shown as markup")
	}
	if num != nil && num.symbol != "" {
		if !strings.HasPrefix(text, num.symbol) {
			return bad("the symbol of the unit does not come first")
		}
		s = strings.TrimPrefix(s, squeeze.Replace(num.symbol))
	}
	n := 0
	for n < len(s) && strings.ContainsRune("(-0123456789.", rune(s[n])) {
		n++
	}
	number, rest := s[:n], s[n:]
	if strings.HasPrefix(number, "(") {
		if !strings.HasPrefix(rest, ")") {
			return bad("unbalanced")
		}
		number, rest = "-"+number[1:], rest[1:]
	}
	got, ok := new(big.Rat).SetString(strings.TrimSuffix(number, "."))
	if !ok || got.Cmp(want) != 0 {
		return bad("not the reported number")
	}
	if percent {
		if !strings.HasPrefix(rest, "%") {
			return bad("no percent sign")
		}
		rest = rest[1:]
	} else if strings.Contains(rest, "%") {
		return bad("a percent sign")
	}
	suffix := ""
	if num != nil && num.symbol == "" && !percent {
		suffix = squeeze.Replace(num.name)
	}
	if den != nil {
		d := "/" + den.symbol
		if den.symbol == "" {
			d = "/" + squeeze.Replace(den.name)
		}
		if num == nil && rest == suffix {
			return ""
		}
		suffix += d
	}
	if rest != suffix {
		return bad(fmt.Sprintf("expected %q after the number", suffix))
	}
	return ""
}

func runP18(batch []p18Fact, order []int, check func(x p18Fact, plain Expr, all map[string]Expr) string) Exec {
	return runP18Ids(batch, order, func(i int) string { return fmt.Sprintf("u%d", i) }, nil, check)
}

func runP18Ids(batch []p18Fact, order []int, id, conceptID func(i int) string, check func(x p18Fact, plain Expr, all map[string]Expr) string) Exec {
	return func(e *Env) string {
		var cases []numCase
		for _, x := range batch {
			cases = append(cases, numCase{x.Value, x.Decimals})
		}
		f, cs := numFiling(cases, "xbrli:decimalItemType")
		f.Inst.Units = nil
		for i, x := range batch {
			cs[i].Type = x.Type
			if conceptID != nil {
				cs[i].ID = conceptID(i)
				f.P[0].Links[0].Locs[i+1].Href = cs[i].href()
			}
			fact := f.Inst.Facts[i]
			fact.Nil = x.Nil
			if x.Ref {
				fact.Unit = id(i)
				if x.Num != "" {
					f.Inst.Units = append(f.Inst.Units, &Unit{ID: fact.Unit, Num: x.Num, Den: x.Den, Pad: pad(i)})
				}
			}
		}
		if order != nil {
			us := f.Inst.Units
			for i, j := 0, len(us)-1; i < j; i, j = i+1, j-1 {
				us[i], us[j] = us[j], us[i]
			}
		}
		facts, msg := e.presentationFacts(f)
		if msg != "" {
			return msg
		}
		for i, x := range batch {
			all := facts[cs[i].href()]
			plain, ok := all[langPlain]
			if !ok {
				return fmt.Sprintf("%s of %q is missing", x.Type, x.Value)
			}
			if msg := check(x, plain, all); msg != "" {
				return msg
			}
		}
		return ""
	}
}

func everyUnit() []string {
	out := []string{"iso4217:ZZZ", "nowhere:USD", "iso4217:usd", "iso4217:US", "utr:M"}
	for _, u := range unitRegistry {
		for _, p := range append([][2]string{{"xbrli", "http://www.xbrl.org/2003/instance"}}, instancePrefixes...) {
			if p[1] == u.ns {
				out = append(out, p[0]+":"+u.id)
			}
		}
	}
	return out
}

func p18Units(values ...string) Family {
	units := everyUnit()
	types := []string{"xbrli:monetaryItemType", "xbrli:decimalItemType", "xbrli:pureItemType", "num:percentItemType", "num:perShareItemType", "xbrli:percentItemType"}
	return Family{Name: fmt.Sprintf("units%d", len(values)), Bounds: fmt.Sprintf("%d item types, %d values, %d numerators (five not registered, ids colliding across namespaces), each of them or nothing as denominator, 3 decimals values, both orders of the unit list, missing and dangling unit references", len(types), len(values), len(units)),
		Gen: func(c *Chooser) Exec {
			typ := types[c.Choose(len(types))]
			num := append([]string{""}, units...)[c.Choose(len(units)+1)]
			dec := pick(c, "0", "2", "INF")
			var order []int
			if c.Bool() {
				order = []int{1}
			}
			var batch []p18Fact
			for _, v := range values {
				if num == "" {
					batch = append(batch, p18Fact{Type: typ, Value: v, Decimals: dec, Ref: false}, p18Fact{Type: typ, Value: v, Decimals: dec, Ref: true})
					continue
				}
				for _, den := range append([]string{""}, units...) {
					batch = append(batch, p18Fact{Type: typ, Value: v, Decimals: dec, Num: num, Den: den, Ref: true})
				}
			}
			return runP18(batch, order, func(x p18Fact, _ Expr, all map[string]Expr) string {
				for lang, e := range all {
					if msg := checkUnit(x, e); msg != "" {
						return lang + ": " + msg
					}
				}
				return ""
			})
		}}
}

// p18Percent takes every short fraction as a percentage.
func p18Percent(places int) Family {
	return Family{Name: fmt.Sprintf("percent%d", places), Bounds: fmt.Sprintf("every fraction of up to %d places in steps of its last place, both signs, with 0 and 12 before the point, 5 decimals values", places),
		Gen: func(c *Chooser) Exec {
			n := 1 + c.Choose(places)
			dec := pick(c, "INF", "0", "2", "4", "-2")
			neg := c.Bool()
			whole := pick(c, "0", "12")
			limit := 1
			for i := 0; i < n; i++ {
				limit *= 10
			}
			block := c.Choose((limit + 99) / 100)
			var batch []p18Fact
			for v := block * 100; v < limit && v < block*100+100; v++ {
				s := fmt.Sprintf("%s.%0*d", whole, n, v)
				if neg {
					if strings.Trim(s, "0.") == "" {
						continue
					}
					s = "-" + s
				}
				batch = append(batch, p18Fact{Type: "num:percentItemType", Value: s, Decimals: dec, Num: "xbrli:pure", Ref: true})
			}
			return runP18(batch, nil, func(x p18Fact, _ Expr, all map[string]Expr) string {
				for lang, e := range all {
					if msg := checkUnit(x, e); msg != "" {
						return lang + ": " + msg
					}
				}
				return ""
			})
		}}
}

func p18Text() Family {
	contents := []string{"", "5", "-12.50", "plain", " a  b ", "a &amp; b", "&lt;b&gt;x&lt;/b&gt;", "<em>x</em>", "2020-12-31", "true", "nil", "12 %", "1,000", "é&#10;ü", "]]&gt;"}
	types := []string{"xbrli:stringItemType", "xbrli:dateItemType", "xbrli:booleanItemType", "xbrli:monetaryItemType", "num:percentItemType", "nonnum:domainItemType", "xbrli:normalizedStringItemType"}
	return Family{Name: "text", Bounds: fmt.Sprintf("%d contents, %d item types, 5 spellings of the nil attribute, with and without decimals and unit", len(contents), len(types)),
		Gen: func(c *Chooser) Exec {
			typ := types[c.Choose(len(types))]
			dec := pick(c, "", "0", "INF")
			ref := c.Bool()
			var batch []p18Fact
			for _, v := range contents {
				for _, isNil := range []string{"", "true", "1", "false", "0"} {
					x := p18Fact{Type: typ, Value: v, Decimals: dec, Nil: isNil, Ref: ref}
					if ref {
						x.Num = "iso4217:USD"
					}
					batch = append(batch, x)
				}
			}
			return runP18(batch, nil, func(x p18Fact, plain Expr, all map[string]Expr) string {
				if x.Nil == "true" || x.Nil == "1" {
					for lang, e := range all {
						if e != (Expr{Core: "nil"}) {
							return fmt.Sprintf("%s: a nil fact with content %q is shown as %q %q %q %q", lang, x.Value, e.Head, e.Core, e.Tail, e.InnerHtml)
						}
					}
					return ""
				}
				if _, number := new(big.Rat).SetString(x.Value); x.Decimals != "" && number {
					return ""
				}
				for lang, e := range all {
					if e != (Expr{Core: x.Value}) {
						return fmt.Sprintf("%s: content %q of a %s (decimals %q) is shown as %q %q %q %q", lang, x.Value, x.Type, x.Decimals, e.Head, e.Core, e.Tail, e.InnerHtml)
					}
				}
				return ""
			})
		}}
}

func init() {
	register(&Check{ID: "P18",
		Rule: "symbol or name of the unit on the right side of the right number, the denominator's own one after a slash, percentages times one hundred, nil for nil, text verbatim",
		Families: func(thorough bool) []Family {
			fams := []Family{p18Units("0", "-1234.5", "0.102", "-0.57"), p18Alike(), p18Text(), p18Percent(3), spelled(p18Text()), spelled(p18Units("-1234.5"))}
			if thorough {
				fams = append(fams, p18Percent(5), p18Units("1", "-1", "0.25", "1.02", "0.0055", "7000000", "1.1", "-0.29"))
			}
			return fams
		}})
}
