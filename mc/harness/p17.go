package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
)

// numCase is a numeric fact of a batch.
type numCase struct {
	value, decimals string
}

var groupedComma = regexp.MustCompile(`^\d{1,3}(,\d{3})*(\.\d*)?$`)
var groupedSpace = regexp.MustCompile(`^\d{1,3}( \d{3})*(\.\d*)?$`)

// readNumber reads the shown text back.
func readNumber(head, core, tail string, sep string) (*big.Rat, string) {
	s := head + core + tail
	neg := false
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		neg = true
		s = s[1 : len(s)-1]
	}
	re := groupedComma
	if sep == " " {
		re = groupedSpace
	}
	if !re.MatchString(s) {
		return nil, fmt.Sprintf("%q is not a grouped number", head+core+tail)
	}
	r, ok := new(big.Rat).SetString(strings.TrimSuffix(strings.ReplaceAll(s, sep, ""), "."))
	if !ok {
		return nil, fmt.Sprintf("%q is not a number", s)
	}
	if neg {
		r.Neg(r)
	}
	return r, ""
}

// splitPlace counts the digits after the decimal point that are in the core,
// or, negative, how many integer digits are in the tail.
func splitPlace(core, tail string) int {
	if i := strings.Index(core, "."); i >= 0 {
		return len(core) - i - 1
	}
	n := 0
	if i := strings.Index(tail, "."); i >= 0 {
		tail = tail[:i]
	}
	for _, r := range tail {
		if r >= '0' && r <= '9' {
			n++
		}
	}
	return -n
}

func checkNumber(c numCase, e Expr, sep string) string {
	want, ok := new(big.Rat).SetString(strings.TrimPrefix(strings.TrimSpace(c.value), "+"))
	if !ok {
		return "bad case " + c.value
	}
	got, msg := readNumber(e.Head, e.Core, e.Tail, sep)
	if msg != "" {
		return fmt.Sprintf("value %s with decimals %s: %s", c.value, c.decimals, msg)
	}
	if got.Cmp(want) != 0 {
		return fmt.Sprintf("value %s with decimals %s is shown as %q %q %q", c.value, c.decimals, e.Head, e.Core, e.Tail)
	}
	d := 0
	fmt.Sscan(c.decimals, &d)
	if c.decimals != "INF" && d <= 12 && want.Sign() != 0 && multiple(want, d) {
		if p := splitPlace(e.Core, e.Tail); p != d {
			return fmt.Sprintf("value %s with decimals %s is shown as %q %q %q: the significant part ends at place %d", c.value, c.decimals, e.Head, e.Core, e.Tail, p)
		}
	}
	return ""
}

// multiple tells whether a number is a multiple of 10^-d.
// No number here is a multiple of 10^60.
func multiple(x *big.Rat, d int) bool {
	if d < -60 {
		return false
	}
	unit := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(d, -d))), nil))
	if d > 0 {
		return new(big.Rat).Mul(x, unit).IsInt()
	}
	return new(big.Rat).Quo(x, unit).IsInt()
}

// numFiling reports a batch of numbers, one concept each.
func numFiling(cases []numCase, typ string) (*Filing, []*Concept) {
	f, _ := basic(0)
	s := f.Schemas[0]
	root := s.add(&Concept{ID: "ent_Root", Name: "Root", Abstract: true})
	x := linkOver(role1, []*Concept{root})
	var cs []*Concept
	var as []assigned
	for i, c := range cases {
		k := s.add(&Concept{ID: fmt.Sprintf("ent_N%04d", i), Name: fmt.Sprintf("N%04d", i), Type: typ})
		cs = append(cs, k)
		x.Locs = append(x.Locs, Loc{locLabel(k), k.href()})
		x.Arcs = append(x.Arcs, Arc{Arcrole: arcPC, From: locLabel(root), To: locLabel(k), Order: itoa(i + 1)})
		f.Inst.Facts = append(f.Inst.Facts, &Fact{Concept: k, Ctx: f.Inst.Contexts[0], Decimals: c.decimals, Inner: c.value})
	}
	f.P = []*Linkbase{{File: "p.xml", Links: []*XLink{x}}}
	as = []assigned{{root, roleLabel, "en-US", "Root"}, {root, roleLabel, "es", "Raiz"}}
	f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
	return f, cs
}

// presentationFacts renders a filing and returns the facts of one column by
// concept reference.
func (e *Env) presentationFacts(f *Filing) (map[string]map[string]Expr, string) {
	n, err := e.render(f)
	if err != nil {
		return nil, "rendering failed: " + err.Error()
	}
	out := map[string]map[string]Expr{}
	if len(n.PGrid.FactualQuadrant) != len(n.PGrid.IndentedLabels) {
		return nil, fmt.Sprintf("%d fact rows for %d concepts", len(n.PGrid.FactualQuadrant), len(n.PGrid.IndentedLabels))
	}
	for i, l := range n.PGrid.IndentedLabels {
		if len(n.PGrid.FactualQuadrant[i]) != 1 {
			return nil, fmt.Sprintf("%d columns, expected 1", len(n.PGrid.FactualQuadrant[i]))
		}
		out[l.Href] = n.PGrid.FactualQuadrant[i][0]
	}
	return out, ""
}

func runP17(cases []numCase) Exec {
	return func(e *Env) string {
		f, cs := numFiling(cases, "xbrli:decimalItemType")
		facts, msg := e.presentationFacts(f)
		if msg != "" {
			return msg
		}
		for i, c := range cases {
			for lang, sep := range map[string]string{langPlain: ",", langEn: ",", langEs: " "} {
				x, ok := facts[cs[i].href()][lang]
				if !ok {
					return fmt.Sprintf("value %s is missing in %q", c.value, lang)
				}
				if msg := checkNumber(c, x, sep); msg != "" {
					return lang + ": " + msg
				}
			}
		}
		return ""
	}
}

// place writes digits as a number whose last digit stands at 10^-d.
func place(digits string, d int) string {
	digits = strings.TrimLeft(digits, "0")
	if digits == "" {
		digits = "0"
	}
	if d <= 0 {
		if digits == "0" {
			return "0"
		}
		return digits + strings.Repeat("0", -d)
	}
	for len(digits) <= d {
		digits = "0" + digits
	}
	return digits[:len(digits)-d] + "." + digits[len(digits)-d:]
}

// p17Digits: the batch of one leaf holds every digit string of the length
// over the alphabet.
func p17Digits(maxLen int, alphabet string) Family {
	return Family{Name: fmt.Sprintf("digits%d", maxLen), Bounds: fmt.Sprintf("every digit string up to length %d over %q at every decimals value from -9 to 6, both signs, exact and declared", maxLen, alphabet),
		Gen: func(c *Chooser) Exec {
			d := c.Choose(16) - 9
			mode := c.Choose(3) // declared, INF, declared with a further zero digit
			n := 1 + c.Choose(maxLen)
			first := alphabet[c.Choose(len(alphabet))]
			neg := c.Bool()
			var cases []numCase
			var rec func(p string)
			rec = func(p string) {
				if len(p) == n {
					v := place(p, d)
					if neg {
						if strings.Trim(v, "0.") == "" {
							return
						}
						v = "-" + v
					}
					dec := itoa(d)
					switch mode {
					case 1:
						dec = "INF"
					case 2:
						if strings.Contains(v, ".") {
							v += "0"
						} else {
							v += ".0"
						}
					}
					cases = append(cases, numCase{v, dec})
					return
				}
				for i := 0; i < len(alphabet); i++ {
					rec(p + alphabet[i:i+1])
				}
			}
			rec(string(first))
			if len(cases) == 0 {
				return nil
			}
			return runP17(cases)
		}}
}

// p17Free declares a precision regardless of the digits, in every way to write
// a decimal.
func p17Free(maxLen int, alphabet string) Family {
	notations := []string{"%s", "-%s", "+%s", "00%s", "-0%s", " %s ", "\n\t-%s\n"}
	declared := []string{"INF", "-30", "-9", "-6", "-4", "-3", "-2", "-1", "0", "1", "2", "3", "4", "5", "6", "9", "12", "13", "40", "2000000000", "-2000000000"}
	return Family{Name: fmt.Sprintf("free%d", maxLen), Bounds: fmt.Sprintf("every digit string up to length %d over %q with its last digit at places -4 to 6, %d ways to write a sign and leading zeros, bare leading and trailing points, and %d decimals values", maxLen, alphabet, len(notations), len(declared)),
		Gen: func(c *Chooser) Exec {
			d := c.Choose(11) - 4
			n := 1 + c.Choose(maxLen)
			notation := notations[c.Choose(len(notations))]
			dec := declared[c.Choose(len(declared))]
			bare := c.Bool()
			var cases []numCase
			var rec func(p string)
			rec = func(p string) {
				if len(p) < n {
					for i := 0; i < len(alphabet); i++ {
						rec(p + alphabet[i:i+1])
					}
					return
				}
				v := place(p, d)
				if strings.Contains(notation, "-") && strings.Trim(v, "0.") == "" {
					return
				}
				if bare {
					if d <= 0 {
						v += "."
					} else {
						v = strings.TrimPrefix(v, "0")
					}
				}
				cases = append(cases, numCase{fmt.Sprintf(notation, v), dec})
			}
			rec("")
			if len(cases) == 0 {
				return nil
			}
			return runP17(cases)
		}}
}

// p17Exponents takes numbers in every way to write an exponent.
func p17Exponents(maxLen int, alphabet string) Family {
	forms := []string{"%se%d", "%sE%d", "%sE%+d", "-%se%03d", "+%se%d"}
	declared := []string{"INF", "-9", "-6", "-3", "-1", "0", "1", "2", "4", "6"}
	return Family{Name: fmt.Sprintf("exponents%d", maxLen), Bounds: fmt.Sprintf("every digit string up to length %d over %q with a decimal point at every place, exponents from -6 to 12 in %d forms, and %d decimals values", maxLen, alphabet, len(forms), len(declared)),
		Gen: func(c *Chooser) Exec {
			form := forms[c.Choose(len(forms))]
			dec := declared[c.Choose(len(declared))]
			exp := c.Choose(19) - 6
			n := 1 + c.Choose(maxLen)
			var cases []numCase
			var rec func(p string)
			rec = func(p string) {
				if len(p) < n {
					for i := 0; i < len(alphabet); i++ {
						rec(p + alphabet[i:i+1])
					}
					return
				}
				if strings.HasPrefix(form, "-") && strings.Trim(p, "0") == "" {
					return
				}
				for i := 0; i <= n; i++ { // a point before the i-th digit, or none
					v := p[:i] + "." + p[i:]
					if i == n {
						v = p
					}
					cases = append(cases, numCase{fmt.Sprintf(form, v, exp), dec})
				}
			}
			rec("")
			if len(cases) == 0 {
				return nil
			}
			return runP17(cases)
		}}
}

// p17Lengths takes long numbers of every length.
func p17Lengths(max int) Family {
	return Family{Name: "lengths", Bounds: fmt.Sprintf("numbers of every length up to %d in 4 digit patterns at every decimals value from -9 to 6 and INF, both signs", max),
		Gen: func(c *Chooser) Exec {
			d := c.Choose(17) - 9
			pattern := c.Choose(4)
			neg := c.Bool()
			var cases []numCase
			for n := 1; n <= max; n++ {
				p := ""
				for i := 0; i < n; i++ {
					switch pattern {
					case 0:
						p += itoa((i + 1) % 10)
					case 1:
						p += "9"
					case 2:
						p += []string{"1", "0", "0"}[i%3]
					case 3:
						if i == 0 || i == n-1 {
							p += "5"
						} else {
							p += "0"
						}
					}
				}
				dec := itoa(d)
				v := place(p, d)
				if d == 7 {
					dec = "INF"
					v = place(p, 4)
				}
				if neg {
					v = "-" + v
				}
				cases = append(cases, numCase{v, dec})
			}
			return runP17(cases)
		}}
}

func init() {
	register(&Check{ID: "P17",
		Rule: "reading the shown text back gives the reported number, and the significant part ends at the declared place",
		Families: func(thorough bool) []Family {
			fams := []Family{p17Digits(3, "0159"), p17Lengths(24), p17Free(2, "0159"), p17Exponents(3, "017"), p17Digits(4, "0179"), spelled(p17Digits(2, "0159"))}
			if thorough {
				fams = append(fams, p17Digits(5, "01359"), p17Lengths(60), p17Free(4, "0159"), p17Exponents(5, "0159"))
			}
			return fams
		}})
}
