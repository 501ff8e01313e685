package main

import (
	"fmt"
	"time"
)

var spanishMonths = []string{"enero", "febrero", "marzo", "abril", "mayo", "junio", "julio", "agosto", "septiembre", "octubre", "noviembre", "diciembre"}

// monthsTouched is the number of months of a period of at least 30 days:
// calendar months that the period has days in.
func monthsTouched(a, b time.Time) int {
	if b.Sub(a) < 30*24*time.Hour {
		return 0
	}
	return (b.Year()-a.Year())*12 + int(b.Month()) - int(a.Month()) + 1
}

// periodHeading computes a heading in English or Spanish.
func periodHeading(lang, start, end, instant string) (string, bool) {
	plain := instant
	if start != "" && end != "" {
		plain = start + "/" + end
	}
	day := end
	if start == "" || end == "" {
		day = instant
	}
	b, err := time.Parse("2006-01-02", day)
	if err != nil {
		return plain, true
	}
	var text, one, many, at string
	switch lang {
	case langEn:
		text = fmt.Sprintf("%s %d, %d", b.Month(), b.Day(), b.Year())
		at, one, many = "as of ", "1 month ended ", "%d months ended "
	case langEs:
		text = fmt.Sprintf("%02d %s %d", b.Day(), spanishMonths[b.Month()-1], b.Year())
		at, one, many = "al ", "un mes terminado al ", "%d meses terminados al "
	default:
		return "", false
	}
	if start == "" || end == "" {
		return at + text, true
	}
	a, err := time.Parse("2006-01-02", start)
	if err != nil {
		return plain, true
	}
	switch n := monthsTouched(a, b); {
	case n < 1:
		return plain, true
	case n == 1:
		return one + text, true
	default:
		return fmt.Sprintf(many, n) + text, true
	}
}

// p26Filing reports concepts in the given periods, in all three grids, with
// labels in both languages.
func p26Filing(periods [][3]string) *Filing {
	f, cs := basic(2)
	threeGrids(f, cs[0], cs[1], taxConcept(2))
	as := []assigned{{cs[0], roleLabel, "en-US", "Zero"}, {cs[0], roleLabel, "es", "Cero"}}
	f.L = []*Linkbase{{File: "l.xml", Links: []*XLink{labelLink(as)}}}
	f.Inst.Contexts = nil
	for i, p := range periods {
		x := &Context{ID: fmt.Sprintf("c%04d", len(periods)-i), Scheme: scheme1, Entity: "0001", Start: p[0], End: p[1], Instant: p[2], Pad: pad(i)}
		f.Inst.Contexts = append(f.Inst.Contexts, x)
		f.addFact(cs[1], x)
	}
	return f
}

func (f *Filing) checkHeadings(entity string, g grid) string {
	if msg := f.checkHeaders(entity, g); msg != "" {
		return msg
	}
	byPlain := map[string]*Context{}
	for _, c := range f.Inst.Contexts {
		byPlain[c.period()] = c
	}
	for _, h := range g.area.PeriodHeaders {
		c := byPlain[h[langPlain]]
		if c == nil {
			return fmt.Sprintf("%s: heading %v", g.name, h)
		}
		for _, lang := range []string{langEn, langEs} {
			want, _ := periodHeading(lang, c.Start, c.End, c.Instant)
			if h[lang] != want {
				return fmt.Sprintf("%s: period %s is headed %q, expected %q", g.name, c.period(), h[lang], want)
			}
		}
	}
	return ""
}

func p26Run(periods [][3]string) Exec {
	f := p26Filing(periods)
	return decideGrids(f, 3, f.checkHeadings)
}

func p26Instants(years ...int) Family {
	return Family{Name: fmt.Sprintf("instants%d", len(years)), Bounds: fmt.Sprintf("every day of the years %v as instant and as the end of durations from 29, 30, 31 and 364 days before", years),
		Gen: func(c *Chooser) Exec {
			y := years[c.Choose(len(years))]
			m := 1 + c.Choose(12)
			kind := c.Choose(5)
			var ps [][3]string
			for d := time.Date(y, time.Month(m), 1, 0, 0, 0, 0, time.UTC); d.Month() == time.Month(m); d = d.AddDate(0, 0, 1) {
				day := d.Format("2006-01-02")
				if kind == 0 {
					ps = append(ps, [3]string{"", "", day})
				} else {
					ps = append(ps, [3]string{d.AddDate(0, 0, -[]int{0, 29, 30, 31, 364}[kind]).Format("2006-01-02"), day, ""})
				}
			}
			return p26Run(ps)
		}}
}

func p26Calendar() []string {
	var out []string
	for _, y := range []int{1999, 2000, 2019, 2020, 2021} {
		for _, md := range []string{"01-01", "01-02", "01-30", "01-31", "02-01", "02-28", "03-01", "03-02", "06-30", "07-01", "11-30", "12-01", "12-02", "12-31"} {
			out = append(out, fmt.Sprintf("%d-%s", y, md))
		}
	}
	return append(out, "2000-02-29", "2020-02-29", "0001-01-01", "9999-12-31")
}

func p26Durations() Family {
	cal := p26Calendar()
	return Family{Name: "durations", Bounds: fmt.Sprintf("every ordered pair of %d dates: month ends, leap days, year changes, reversed and equal dates", len(cal)),
		Gen: func(c *Chooser) Exec {
			start := cal[c.Choose(len(cal))]
			half := c.Choose(2)
			var ps [][3]string
			for i, end := range cal {
				if i%2 == half {
					ps = append(ps, [3]string{start, end, ""})
				}
			}
			return p26Run(ps)
		}}
}

func p26Malformed() Family {
	bad := []string{"2020-12-31", "2020-02-30", "2021-02-29", "2020-13-01", "2020-00-10", "2020-1-1", "20201231", "2020-12-31T00:00:00", "abc", "31-12-2020", "-0001-01-01", "2020-12-31Z", "10000-01-01"}
	return Family{Name: "malformed", Bounds: fmt.Sprintf("%d well-formed and malformed dates as instant and in every pair as duration", len(bad)),
		Gen: func(c *Chooser) Exec {
			kind := c.Choose(len(bad) + 1)
			var ps [][3]string
			for _, x := range bad {
				if kind == len(bad) {
					ps = append(ps, [3]string{"", "", x})
				} else {
					ps = append(ps, [3]string{bad[kind], x, ""})
				}
			}
			return p26Run(ps)
		}}
}

func init() {
	register(&Check{ID: "P26",
		Rule: "headings in every grid computed from the reported dates by an independent calendar",
		Families: func(thorough bool) []Family {
			fams := []Family{p26Instants(2020, 2021), p26Malformed(), p26Years(1900, 2100), p26Durations(), spelled(p26Malformed())}
			if thorough {
				fams = append(fams, p26Instants(1900, 1999, 2000, 2001, 2022, 2023, 2024, 2100))
			}
			return fams
		}})
}
