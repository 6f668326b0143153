//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	ltokens "github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
)

func init() {
	register(&Check{ID: "L01", Rule: "a case is non trivial when a cardinality was read or refused and its whole acceptance table compared", Run: runL01,
		Assumptions: []string{"ranges whose minimum is above their maximum are left unspecified"}})
	register(&Check{ID: "L02", Rule: "a case is non trivial when at least one text was matched by at least one pattern; distinct = pattern script + texts", Run: runL02,
		Assumptions: []string{"group elements hold no comma, colon, semicolon or dollar: they are delimiters of the pattern scripts"}})
	register(&Check{ID: "L03", Rule: "a case is non trivial when the rule matched at least one of its texts; distinct = scripts", Run: runL03,
		Assumptions: []string{"the same delimiters as in L02"}})
	register(&Check{ID: "L04", Rule: "a case is non trivial when a grammar of at least one token was read back; distinct = script", Run: runL04,
		Assumptions: []string{"element names are followed by their cardinality, then by their specifiers"}})
}

// ---------------------------------------------------------------- L01

func checkCard(c *Case, what string, card cardinality.Cardinality, min int, max int) {
	lo, hi := card.Delimiter()
	if int(lo) != min || (hi == nil) != (max < 0) || (hi != nil && int(*hi) != max) {
		c.Fail("bounds", "%s: bounds are %d..%v, expected %d..%d", what, lo, hi, min, max)
	}
	limit := min + 4
	if max >= 0 && max+3 > limit {
		limit = max + 3
	}
	amounts := []int{}
	if limit <= 300 {
		for i := 0; i <= limit; i++ {
			amounts = append(amounts, i)
		}
	} else {
		for _, b := range []int{0, 1, min - 1, min, min + 1, max - 1, max, max + 1, limit, min + 1<<8, min + 1<<16, min + 1<<32, max + 1<<8, max + 1<<16, max + 1<<32,
			min - 1<<8, min - 1<<16, min - 1<<32, max - 1<<8, max - 1<<16, max - 1<<32, (min + max) / 2} {
			if b >= 0 {
				amounts = append(amounts, b)
			}
		}
	}
	for _, n := range amounts {
		want := n >= min && (max < 0 || n <= max)
		c.Event("amounts judged")
		if card.IsValid(uint(n)) != want {
			c.Fail("valid", "%s: amount %d accepted=%v, expected %v", what, n, !want, want)
		}
		if card.IsSpecific() && card.Specific().IsValid(uint(n)) != want {
			c.Fail("specific-valid", "%s: the specific accepts %d: %v, expected %v", what, n, !want, want)
		}
	}
}

func runL01(x *Ctx) {
	ad := cardinality.NewAdapter()
	sad := cardinality.NewSpecificAdapter()
	back := func(c *Case, what string, card cardinality.Cardinality, min int, max int) {
		s, err := ad.ToPatternString(card)
		if err != nil {
			c.Fail("pattern-string", "%s: no pattern string: %v", what, err)
			return
		}
		again, err := ad.ToCardinality(s)
		if err != nil {
			c.Fail("pattern-string", "%s: its pattern string %q is not read back: %v", what, s, err)
			return
		}
		checkCard(c, what+" written as "+s, again, min, max)
		c.Event("pattern strings read back")
	}
	pad := func(r *Rng, s string) string {
		sp := []string{"", " ", "\t", "\n", "  "}
		return Pick(r, sp) + s + Pick(r, sp)
	}
	x.Each("text", x.Scale(30000, 400000), func(c *Case) {
		r := c.R
		big := 6
		if r.P(1, 4) {
			big = 100000
		}
		min, max, txt := 0, 0, ""
		switch r.N(7) {
		case 0:
			min, max, txt = 0, 1, "?"
		case 1:
			min, max, txt = 0, -1, "*"
		case 2:
			min, max, txt = 1, -1, "+"
		case 3:
			min = r.Range(1, big)
			max = min
			txt = fmt.Sprintf("{%d}", min)
		case 4:
			min = r.Range(0, big)
			max = -1
			txt = fmt.Sprintf("{%d,}", min)
		default:
			min = r.Range(0, big)
			max = min + r.N(big)
			txt = fmt.Sprintf("{%d,%d}", min, max)
		}
		in := pad(r, txt)
		c.Put("text", in)
		card, err := ad.ToCardinality(in)
		if err != nil {
			c.Fail("refused", "cardinality %q was refused: %v", in, err)
			return
		}
		checkCard(c, in, card, min, max)
		back(c, in, card, min, max)
		if kind := fmt.Sprint(card.IsOptional(), card.IsZeroMultiple(), card.IsNonZeroMultiple(), card.IsSpecific()); kind !=
			fmt.Sprint(txt == "?", txt == "*", txt == "+", len(txt) > 1) {
			c.Fail("kind", "cardinality %q has the kind %s", in, kind)
		}
		if len(txt) > 1 {
			sp, err := sad.ToSpecific(txt)
			if err != nil {
				c.Fail("refused", "specific %q was refused: %v", txt, err)
				return
			}
			s, err := sad.ToPatternString(sp)
			if err != nil || s != txt {
				c.Fail("pattern-string", "specific %q is written %q (%v)", txt, s, err)
			}
			for _, n := range []int{min - 1, min, min + 1, max, max + 1} {
				if n >= 0 && sp.IsValid(uint(n)) != (n >= min && (max < 0 || n <= max)) {
					c.Fail("specific-valid", "specific %q judges %d wrongly", txt, n)
				}
			}
		}
		c.Distinct(in)
		c.Sample(in)
	})
	// numbers that a narrower number cannot tell apart, leading zeros
	x.Each("wide", x.Scale(6000, 60000), func(c *Case) {
		r := c.R
		num := func() int {
			n := Pick(r, []int{1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 61, r.Range(1, 1<<20), r.Range(1, 1<<60), r.Range(1, 99)}) + r.N(5) - 2
			if n < 1 {
				n = 1
			}
			return n
		}
		wr := func(n int) string {
			s := fmt.Sprint(n)
			if r.P(1, 4) {
				s = strings.Repeat("0", r.Range(1, 3)) + s
			}
			return s
		}
		min, max, txt := num(), -1, ""
		switch r.N(3) {
		case 0:
			max = min
			txt = "{" + wr(min) + "}"
		case 1:
			txt = "{" + wr(min) + ",}"
		default:
			if max = num(); r.P(1, 3) {
				max = min
			}
			if max < min {
				min, max = max, min
			}
			txt = "{" + wr(min) + "," + wr(max) + "}"
		}
		in := pad(r, txt)
		c.Put("text", in)
		card, err := ad.ToCardinality(in)
		if err != nil {
			c.Fail("refused", "cardinality %q was refused: %v", in, err)
			return
		}
		checkCard(c, in, card, min, max)
		back(c, in, card, min, max)
		c.Distinct(in)
	})
	x.Each("built", x.Scale(6000, 60000), func(c *Case) {
		r := c.R
		b := cardinality.NewBuilder().Create()
		min, max := 0, 0
		switch k := r.N(6); k {
		case 0:
			b.IsOptional()
			min, max = 0, 1
		case 1:
			b.IsMandatory()
			min, max = 1, 1
		case 2:
			b.IsNonZeroMultiple()
			min, max = 1, -1
		case 3:
			b.IsZeroMultiple()
			min, max = 0, -1
		default:
			sb := cardinality.NewSpecificBuilder().Create()
			if k == 4 {
				min = r.Range(1, 9)
				max = min
				sb.WithAmount(uint(min))
			} else {
				min = r.N(9)
				max = -1
				rb := cardinality.NewRangeBuilder().Create().WithMinimum(uint(min))
				if r.P(2, 3) {
					max = min + r.N(4)
					rb.WithMaximum(uint(max))
				}
				rg, err := rb.Now()
				if err != nil {
					c.Fail("refused", "range %d..%d refused: %v", min, max, err)
					return
				}
				sb.WithRange(rg)
			}
			sp, err := sb.Now()
			if err != nil {
				c.Fail("refused", "specific %d..%d refused: %v", min, max, err)
				return
			}
			b.WithSpecific(sp)
		}
		card, err := b.Now()
		if err != nil {
			c.Fail("refused", "cardinality %d..%d refused: %v", min, max, err)
			return
		}
		checkCard(c, fmt.Sprintf("built %d..%d", min, max), card, min, max)
		back(c, fmt.Sprintf("built %d..%d", min, max), card, min, max)
		c.Distinct("built", min, max, card.IsOptional(), card.IsMandatory())
	})
	x.Each("refused", x.Scale(4000, 40000), func(c *Case) {
		r := c.R
		n, m := r.Range(1, 50), r.Range(51, 99)
		list := []string{"", " ", "{}", "{,}", "{0}", "{-1}", "{a}", "++", "**", "??", "+?", "{1,2,3}", "{1 2}", "{1;2}", "{", "}", "{1,a}", "{a,1}",
			fmt.Sprintf("{-%d}", n), fmt.Sprintf("{-%d,%d}", n, m), fmt.Sprintf("{%d,-%d}", n, m), fmt.Sprintf("{%d.5}", n), fmt.Sprintf("{%dx}", n),
			fmt.Sprintf("{,%d}", n), fmt.Sprintf("{%d,%d,%d}", n, m, m), "x", "1.5", "{99999999999999999999999}", "{1,99999999999999999999999}"}
		in := list[c.Index%len(list)]
		c.Put("text", in)
		if card, err := ad.ToCardinality(in); err == nil && card != nil {
			lo, hi := card.Delimiter()
			c.Fail("accepted", "malformed cardinality %q was accepted: %d..%v", in, lo, hi)
		}
		if _, err := cardinality.NewBuilder().Create().Now(); err == nil {
			c.Fail("accepted", "a cardinality of no kind was built")
		}
		if _, err := cardinality.NewSpecificBuilder().Create().WithAmount(0).Now(); err == nil {
			c.Fail("accepted", "a specific amount of zero was built")
		}
		c.Event("malformed texts refused")
		c.Distinct("refused", in)
	})
}

// ---------------------------------------------------------------- L02

const xAlpha = "abcd"

func patternsReal(g *xGrammar) (patterns.Patterns, error) {
	return patterns.NewAdapter().ToPatterns(g.patternsScript())
}

// genText draws a text that the patterns are likely to meet.
func genPatText(r *Rng, pats []*xPat, alpha string, max int) string {
	var b strings.Builder
	for b.Len() < max && r.P(5, 6) {
		if r.P(1, 3) {
			b.WriteString(r.Str(alpha, r.Range(1, 2)))
			continue
		}
		p := Pick(r, pats)
		for _, ch := range p.choices {
			if ch.rev && r.P(2, 3) {
				b.WriteString(r.Str(alpha, r.N(3)))
				continue
			}
			for _, gr := range ch.serie.groups {
				if r.P(9, 10) {
					b.WriteString(Pick(r, gr.elems))
				}
			}
		}
	}
	s := b.String()
	if len(s) > max {
		s = s[:max]
	}
	return s
}

func comparePattern(c *Case, what string, want *xPatMatch, got patterns.Result, err error, text string) {
	if want == nil {
		if err == nil && got != nil {
			c.Fail("found", "%s found %q in %q, where there is nothing", what, got.Discoveries().Content(), text)
		}
		return
	}
	if err != nil || got == nil {
		c.Fail("lost", "%s found nothing (%v) in %q, expected %q at %d", what, err, text, want.text(), want.index)
		return
	}
	if got.Input() != text {
		c.Fail("input", "%s on %q says its input is %q", what, text, got.Input())
	}
	dis := got.Discoveries()
	if int(dis.Index()) != want.index {
		c.Fail("index", "%s on %q is at %d, expected %d", what, text, dis.Index(), want.index)
	}
	parts := []string{}
	at := 0
	for i, d := range dis.All() {
		parts = append(parts, d.Content())
		if i < len(want.revs) && d.Container().IsReverse() != want.revs[i] {
			c.Fail("container", "%s on %q: discovery %d reversed=%v", what, text, i, d.Container().IsReverse())
		}
		if i < len(want.revs) && d.Container().IsGroup() == want.revs[i] {
			c.Fail("container", "%s on %q: discovery %d group=%v", what, text, i, d.Container().IsGroup())
		}
		at += len(d.Content())
	}
	if strings.Join(parts, "\x00") != strings.Join(want.parts, "\x00") {
		c.Fail("discoveries", "%s on %q discovered %q, expected %q", what, text, parts, want.parts)
	}
	if dis.Content() != want.text() || int(dis.Amount()) != len(want.text()) {
		c.Fail("discoveries", "%s on %q says it discovered %q (%d), expected %q", what, text, dis.Content(), dis.Amount(), want.text())
	}
	if got.HasNext() == want.complete {
		c.Fail("next", "%s on %q complete=%v, expected %v", what, text, !got.HasNext(), want.complete)
	}
	if got.HasNext() && !want.complete {
		if got.Next().Group().Name() != want.next.name || got.Next().IsReverse() != want.nextRev {
			c.Fail("next", "%s on %q expects %s (reverse %v) next, expected %s (reverse %v)", what, text, got.Next().Group().Name(), got.Next().IsReverse(), want.next.name, want.nextRev)
		}
		c.Event("partial matches")
	}
	if want.complete {
		rest := text[want.index+len(want.text()):]
		if got.HasRemaining() != (rest != "") || (got.HasRemaining() && got.Remaining() != rest) {
			c.Fail("remaining", "%s on %q remains %q, expected %q", what, text, got.Remaining(), rest)
		}
		c.Event("complete matches")
	}
}

func runL02(x *Ctx) {
	match := func(c *Case, wide bool, long bool) {
		r := c.R
		alpha := xAlpha[:r.Range(2, 4)]
		if r.P(1, 8) {
			alpha += "\""
		}
		g := &xGrammar{pats: genPats(r, r.Range(1, 4), alpha, true)}
		if wide {
			widenPats(r, g.pats, xAlpha)
			g.spell(Pick(r, xSpellings))
		}
		if long && r.P(1, 2) {
			gr := Pick(r, Pick(r, g.pats).choices).serie.groups[0]
			if len(gr.elems) < 20 {
				for k, n := 0, r.Range(190, 400); k < n; k++ {
					gr.elems = append(gr.elems, fmt.Sprintf("%03x", k*7))
				}
			}
		}
		c.Put("patterns", g.patternsScript())
		real, err := patternsReal(g)
		if err != nil {
			c.Fail("read", "the patterns were refused: %v", err)
			return
		}
		comparePatterns(c, g, real)
		ad := patterns.NewAdapter()
		hits := 0
		texts := []string{}
		for k := 0; k < 6; k++ {
			text := genPatText(r, g.pats, alpha+"-", r.Range(1, 14))
			if long {
				text = genPatText(r, g.pats, alpha+"-", r.Range(1, 40))
				filler := strings.Repeat(Pick(r, []string{"~", "é", "世"}), r.Range(200, 2500))
				switch at := r.N(len(text) + 1); r.N(4) {
				case 0:
					text = filler + text
				case 1:
					text = text[:at] + filler + text[at:]
				case 2:
					text = filler
				}
				c.Event("long texts")
			}
			if wide && r.P(1, 3) {
				text = strings.Repeat("~", r.Range(1, 300)) + text
			}
			if text == "" {
				continue
			}
			texts = append(texts, text)
			c.Put("text", text)
			for i, p := range g.pats {
				want := p.find(text)
				res, err := ad.FromPatternToResult(real.All()[i], text)
				comparePattern(c, "pattern "+p.name, want, res, err, text)
				if want != nil {
					hits++
				}
			}
			want, _ := xFind(g.pats, text)
			res, err := ad.FromPatternsToResult(real, text)
			comparePattern(c, "the list of patterns", want, res, err, text)
			for i, p := range g.pats {
				for j, ch := range p.choices {
					for l, gr := range ch.serie.groups {
						rg := real.All()[i].Content().List()[j].Serie().Content().List()[l]
						var want *xPatMatch
						for at := 0; at < len(text); at++ {
							if n := gr.at(text[at:]); n > 0 {
								want = &xPatMatch{index: at, parts: []string{text[at : at+n]}, revs: []bool{false}, complete: true}
								break
							}
						}
						res, err := ad.FromGroupToResult(rg, text)
						comparePattern(c, "group "+gr.name, want, res, err, text)
						if int(rg.Content().Contains(text)) != gr.at(text) {
							c.Fail("contains", "group %s says %d for %q, expected %d", gr.name, rg.Content().Contains(text), text, gr.at(text))
						}
					}
				}
			}
		}
		if hits > 0 {
			c.Distinct(g.patternsScript(), texts)
			c.Sample(map[string]interface{}{"patterns": g.patternsScript(), "texts": texts})
		}
	}
	x.Each("match", x.Scale(60000, 1000000), func(c *Case) { match(c, false, false) })
	// many options, groups, series and patterns; any characters
	x.Each("wide", x.Scale(5000, 100000), func(c *Case) { match(c, true, false) })
	// long texts before what is found, groups of hundreds of options
	x.Each("long", x.Scale(240, 6000), func(c *Case) { match(c, false, true) })
}

// widenPats adds options to the groups, groups to the series and series to the patterns.
func widenPats(r *Rng, pats []*xPat, alpha string) {
	groups, series := []*xGroup{}, []*xSerie{}
	for _, p := range pats {
		for _, ch := range p.choices {
			series = append(series, ch.serie)
			groups = append(groups, ch.serie.groups...)
		}
	}
	for _, gr := range groups {
		if len(gr.elems) > 6 || r.P(1, 3) {
			continue
		}
		for k := Pick(r, []int{1, 5, 20, 70}); k > 0; k-- {
			e := r.Str(alpha, r.Range(1, 6))
			known := false
			for _, o := range gr.elems {
				known = known || o == e
			}
			if !known {
				gr.elems = append(gr.elems, e)
			}
		}
	}
	for _, s := range series {
		if len(s.groups) <= 3 && r.P(1, 3) {
			for k := r.Range(1, 12); k > 0; k-- {
				s.groups = append(s.groups, Pick(r, groups))
			}
		}
	}
	for _, p := range pats {
		if r.P(1, 3) {
			for k := r.Range(1, 12); k > 0; k-- {
				p.choices = append(p.choices, xChoice{serie: Pick(r, series), rev: r.P(1, 5)})
			}
		}
	}
}

// xSpellings are other ways to write the characters of xAlpha.
var xSpellings = []map[byte]string{
	nil,
	{'a': "é", 'b': "è", 'c': "日", 'd': "\""},
	{'a': "A", 'b': "a", 'c': "Á", 'd': "á"},
	{'a': "#", 'b': "##", 'c': "###", 'd': "\""},
	{'a': " ", 'b': "\t", 'c': "\n", 'd': "  "},
	{'a': "\x00", 'b': "\x01", 'c': "\x7f", 'd': "\u2028"},
	{'a': "(", 'b': ")", 'c': "[", 'd': "]"},
	{'a': ".", 'b': "*", 'c': "+", 'd': "?"},
	{'a': "-", 'b': "---", 'c': "+++", 'd': "|"},
	{'a': "\"", 'b': "\"\"", 'c': "#", 'd': "'"},
	{'a': "%s", 'b': "%", 'c': "{1}", 'd': "\ufffd"},
}

// spell writes the constants and the options of the groups with other characters.
func (g *xGrammar) spell(m map[byte]string) {
	if m == nil {
		return
	}
	to := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if o, ok := m[s[i]]; ok {
				b.WriteString(o)
				continue
			}
			b.WriteByte(s[i])
		}
		return b.String()
	}
	done := map[*xGroup]bool{}
	for _, p := range g.pats {
		for _, ch := range p.choices {
			for _, gr := range ch.serie.groups {
				if done[gr] {
					continue
				}
				done[gr] = true
				for i := range gr.elems {
					gr.elems[i] = to(gr.elems[i])
				}
			}
		}
	}
	for _, ru := range g.rules {
		ru.constant = to(ru.constant)
	}
}

func comparePatterns(c *Case, g *xGrammar, real patterns.Patterns) {
	all := real.All()
	if len(all) != len(g.pats) {
		c.Fail("read", "%d patterns were read, expected %d", len(all), len(g.pats))
		return
	}
	if real.First().Name() != g.pats[0].name {
		c.Fail("read", "the first pattern is %q", real.First().Name())
	}
	for i, p := range g.pats {
		rp := all[i]
		if rp.Name() != p.name {
			c.Fail("read", "pattern %d is %q, expected %q", i, rp.Name(), p.name)
		}
		if f, err := real.Find(p.name); err != nil || f.Name() != p.name {
			c.Fail("read", "pattern %q cannot be found: %v", p.name, err)
		}
		list := rp.Content().List()
		if len(list) != len(p.choices) || int(rp.Content().Length()) != len(p.choices) {
			c.Fail("read", "pattern %q has %d choices, expected %d", p.name, len(list), len(p.choices))
			continue
		}
		for j, ch := range p.choices {
			rc := list[j]
			if rc.IsReverse() != ch.rev || rc.Serie().Name() != ch.serie.name {
				c.Fail("read", "pattern %q choice %d is %s reverse=%v", p.name, j, rc.Serie().Name(), rc.IsReverse())
			}
			groups := rc.Serie().Content().List()
			if len(groups) != len(ch.serie.groups) {
				c.Fail("read", "serie %q has %d groups, expected %d", ch.serie.name, len(groups), len(ch.serie.groups))
				continue
			}
			for k, gr := range ch.serie.groups {
				if groups[k].Name() != gr.name || strings.Join(groups[k].Content().List(), ",") != strings.Join(gr.elems, ",") {
					c.Fail("read", "group %d of serie %q is %s %q, expected %s %q", k, ch.serie.name, groups[k].Name(), groups[k].Content().List(), gr.name, gr.elems)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- L03

// genRules draws rules over patterns.
func genRules(r *Rng, pats []*xPat, n int, alpha string) []*xRule {
	out := []*xRule{}
	for i := 0; i < n; i++ {
		ru := &xRule{name: xName("R", i, true)}
		if len(pats) == 0 || r.P(1, 2) {
			l := 1
			if r.P(1, 3) {
				l = r.Range(2, 3)
			}
			ru.constant = r.Str(alpha, l)
		} else {
			for k := r.Range(1, 3); k > 0; k-- {
				ru.pats = append(ru.pats, Pick(r, pats))
			}
			ru.card = genCard(r)
			if ru.card.text == "" {
				ru.card = xRange(1, 1)
			}
		}
		out = append(out, ru)
	}
	return out
}

func rulesReal(g *xGrammar) (patterns.Patterns, rules.Rules, error) {
	var ps patterns.Patterns
	if len(g.pats) > 0 {
		p, err := patternsReal(g)
		if err != nil {
			return nil, nil, err
		}
		ps = p
	}
	rs, err := rules.NewAdapter().Rules(g.rulesScript(), ps)
	return ps, rs, err
}

func runL03(x *Ctx) {
	read := func(c *Case, wide bool) {
		r := c.R
		alpha := xAlpha[:r.Range(2, 4)]
		if r.P(1, 8) {
			alpha += "\""
		}
		g := &xGrammar{pats: genPats(r, r.Range(1, 4), alpha, true)}
		n := r.Range(1, 4)
		if wide && r.P(1, 40) {
			n = Pick(r, []int{60, 255, 256, 257, 300})
		}
		g.rules = genRules(r, g.pats, n, alpha)
		if wide {
			widenPats(r, g.pats, xAlpha)
			for _, ru := range g.rules {
				if ru.constant != "" && r.P(1, 2) {
					ru.constant = r.Str(xAlpha, Pick(r, []int{4, 9, 20, 300}))
				}
				if ru.constant == "" && r.P(1, 2) {
					for k := r.Range(1, 15); k > 0; k-- {
						ru.pats = append(ru.pats, Pick(r, g.pats))
					}
				}
			}
			g.spell(Pick(r, xSpellings))
		}
		c.Put("patterns", g.patternsScript())
		c.Put("rules", g.rulesScript())
		_, rs, err := rulesReal(g)
		if err != nil {
			c.Fail("read", "the rules were refused: %v", err)
			return
		}
		if len(rs.All()) != len(g.rules) {
			c.Fail("read", "%d rules were read, expected %d", len(rs.All()), len(g.rules))
			return
		}
		ad := results.NewAdapter()
		hits := 0
		texts := []string{}
		for i, ru := range g.rules {
			rr := rs.All()[i]
			if f, err := rs.Find(ru.name); rr.Name() != ru.name || err != nil || f.Name() != ru.name {
				c.Fail("read", "rule %d is %q, expected %q (%v)", i, rr.Name(), ru.name, err)
			}
			ct := rr.Element().Content()
			if ct.IsConstant() != (ru.constant != "") || ct.IsPattern() != (ru.constant == "") {
				c.Fail("read", "rule %q constant=%v pattern=%v", ru.name, ct.IsConstant(), ct.IsPattern())
				continue
			}
			if ct.IsConstant() && ct.Constant() != ru.constant {
				c.Fail("read", "rule %q is the constant %q, expected %q", ru.name, ct.Constant(), ru.constant)
			}
			if ct.IsPattern() {
				names := []string{}
				for _, p := range ct.Pattern().SubPatterns().All() {
					names = append(names, p.Name())
				}
				want := []string{}
				for _, p := range ru.pats {
					want = append(want, p.name)
				}
				if strings.Join(names, " ") != strings.Join(want, " ") {
					c.Fail("read", "rule %q has the patterns %v, expected %v", ru.name, names, want)
				}
				checkCard(c, "the cardinality of rule "+ru.name, ct.Pattern().Cardinality(), ru.card.min, ru.card.max)
			}
			for k := 0; k < 5; k++ {
				var text string
				if ru.constant != "" {
					text = r.Str(alpha, r.N(4)) + ru.constant + r.Str(alpha, r.N(4))
					if r.P(1, 3) {
						text = ru.constant + ru.constant
					}
					if r.P(1, 4) {
						text = text[:len(text)-1]
					}
				} else {
					text = genPatText(r, ru.pats, alpha, r.Range(1, 12))
				}
				if wide && ru.constant != "" && r.P(1, 4) {
					text = mutate(r, ru.constant, xAlpha) + ru.constant
				}
				if text == "" {
					continue
				}
				texts = append(texts, text)
				c.Put("text", text)
				res, err := ad.ToResult(rr, text)
				if err != nil {
					c.Fail("result", "rule %q on %q: %v", ru.name, text, err)
					continue
				}
				if ru.constant != "" {
					at := strings.Index(text, ru.constant)
					if res.HasMatches() != (at >= 0) {
						c.Fail("constant", "rule %q (%q) on %q matches=%v", ru.name, ru.constant, text, res.HasMatches())
						continue
					}
					if at < 0 {
						continue
					}
					hits++
					l := res.Matches().List()
					if len(l) != 1 || int(l[0].Discoveries().Index()) != at || res.Content() != ru.constant || res.Amount() != 1 {
						c.Fail("constant", "rule %q (%q) on %q is %q at %d", ru.name, ru.constant, text, res.Content(), l[0].Discoveries().Index())
					}
					c.Event("constants found")
					continue
				}
				want := ru.at(text)
				if res.HasMatches() != (want != "") || res.Content() != want {
					c.Fail("pattern", "rule %q on %q matches %q, expected %q", ru.name, text, res.Content(), want)
					continue
				}
				if want == "" {
					c.Event("rules not matching")
					continue
				}
				hits++
				c.Event("rules matching")
				n := int(res.Amount())
				if !ru.card.ok(n) || n != len(res.Matches().List()) {
					c.Fail("cardinality", "rule %q%s on %q was matched %d times", ru.name, ru.card.text, text, n)
				}
				whole := ""
				for _, m := range res.Matches().List() {
					if m.Discoveries().Index() != 0 || m.HasNext() {
						c.Fail("cardinality", "rule %q on %q: a match is at %d, partial=%v", ru.name, text, m.Discoveries().Index(), m.HasNext())
					}
					whole += m.Discoveries().Content()
				}
				if whole != want {
					c.Fail("pattern", "rule %q on %q: its matches hold %q, expected %q", ru.name, text, whole, want)
				}
			}
		}
		if hits > 0 {
			c.Distinct(g.patternsScript(), g.rulesScript(), texts)
			c.Sample(map[string]interface{}{"patterns": g.patternsScript(), "rules": g.rulesScript(), "texts": texts})
		}
	}
	x.Each("rules", x.Scale(60000, 1000000), func(c *Case) { read(c, false) })
	// long constants, long lists, any characters
	x.Each("wide", x.Scale(5000, 100000), func(c *Case) { read(c, true) })
	// patterns that repeat many times, amounts that a narrower number cannot tell apart
	x.Each("long", x.Scale(160, 4000), func(c *Case) {
		r := c.R
		gr := &xGroup{name: "$GA", elems: []string{"a", "bc"}}
		p := &xPat{name: "pa", choices: []xChoice{{serie: &xSerie{name: "SA", groups: []*xGroup{gr}}}}}
		if r.P(1, 3) {
			// a second one, that may be begun without being ended
			p.choices[0].serie.groups = append(p.choices[0].serie.groups, &xGroup{name: "$GB", elems: []string{"d"}})
		}
		g := &xGrammar{pats: []*xPat{p}}
		around := func() int {
			return Pick(r, []int{1, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 2100})
		}
		n := around()
		card := Pick(r, []xCard{{0, -1, "*"}, {1, -1, "+"}, xRange(n, n), xRange(n, -1), xRange(r.N(2), n), xRange(n, n+r.N(300)), xRange(r.N(3), Pick(r, []int{65535, 65536, 65537, 65540, 1<<31 + 1, 1<<32 + 1, 1 << 32}))})
		ru := &xRule{name: "RA", pats: []*xPat{p}, card: card}
		g.rules = []*xRule{ru}
		c.Put("rules", g.rulesScript())
		_, rs, err := rulesReal(g)
		if err != nil {
			c.Fail("read", "the rules were refused: %v", err)
			return
		}
		for k := 0; k < 3; k++ {
			m := Pick(r, []int{card.min, card.min + 1, card.min - 1, card.max, card.max + 1, card.max - 1, card.max + 256, card.min - 256, around()})
			if m < 1 || m > 2500 {
				m = around()
			}
			var b strings.Builder
			for ; m > 0; m-- {
				for _, one := range p.choices[0].serie.groups {
					b.WriteString(Pick(r, one.elems))
				}
			}
			text := b.String() + Pick(r, []string{"", "a", "~", "~a", "d"})
			c.Put("text", cut(text, 200))
			want := ru.at(text)
			res, err := results.NewAdapter().ToResult(rs.All()[0], text)
			if err != nil || res.HasMatches() != (want != "") || res.Content() != want {
				c.Fail("pattern", "rule %s on %d bytes matches %d of them (%v), expected %d", g.rulesScript(), len(text), len(res.Content()), err, len(want))
				continue
			}
			c.Event("long repetitions")
			if want != "" && (!card.ok(int(res.Amount())) || int(res.Amount()) != len(res.Matches().List())) {
				c.Fail("cardinality", "rule %s was matched %d times", g.rulesScript(), res.Amount())
			}
			c.Distinct(g.rulesScript(), text)
		}
	})
	x.Each("unknown", x.Scale(2000, 20000), func(c *Case) {
		r := c.R
		g := &xGrammar{pats: genPats(r, 2, xAlpha, false)}
		ps, err := patternsReal(g)
		if err != nil {
			c.Fail("read", "the patterns were refused: %v", err)
			return
		}
		bad := []string{"A: [zz]+;", "A: [" + g.pats[0].name + " zz]+;", "A: [" + g.pats[0].name + "];", "A: [" + g.pats[0].name + "]{0};",
			"A: [" + g.pats[0].name + "]x;", "A: " + g.pats[0].name + "+;", "A: [" + g.pats[0].name + "]{-1};"}
		in := bad[c.Index%len(bad)]
		c.Put("rules", in)
		if rs, err := rules.NewAdapter().Rules(in, ps); err == nil && rs != nil {
			c.Fail("accepted", "the rules %q were accepted", in)
		}
		if p, err := patterns.NewAdapter().ToPatterns("pa: SA SB;\nSA: $GA;\n$GA: \"a\";"); err == nil && p != nil {
			c.Fail("accepted", "a pattern of an unknown serie was accepted")
		}
		if p, err := patterns.NewAdapter().ToPatterns("pa: SA;\nSA: $GA $GB;\n$GA: \"a\";"); err == nil && p != nil {
			c.Fail("accepted", "a serie of an unknown group was accepted")
		}
		c.Event("malformed scripts refused")
		c.Distinct("bad", in)
	})
}

// ---------------------------------------------------------------- L04

type gramOpts struct {
	tokens   int
	channels bool
	nots     bool
	specs    bool
	recur    bool
	switches bool
	overlap  bool // channel texts overlap the ones of the rules
	wide     bool // more lines, longer ones, more specifiers
	alpha    string
	pats     []*xPat
}

// genGrammar draws a grammar without left recursion.
func genGrammar(r *Rng, o gramOpts) *xGrammar {
	if o.alpha == "" {
		o.alpha = xAlpha[:r.Range(2, 4)]
	}
	g := &xGrammar{pats: o.pats}
	if g.pats == nil {
		g.pats = genPats(r, r.Range(1, 3), o.alpha, r.P(1, 3))
	}
	g.rules = genRules(r, g.pats, r.Range(2, 5), o.alpha)
	n := o.tokens
	for i := 0; i < n; i++ {
		g.tokens = append(g.tokens, &xToken{name: xName("t", i, false)})
	}
	for i, t := range g.tokens {
		t.must = genLines(r, g, o, i, r.Range(1, o.most(3)), o.recur)
		if o.nots && r.P(1, 4) {
			most := o.most(2)
			if r.P(1, 5) {
				most += 3
			}
			t.not = genLines(r, g, o, i, r.Range(1, most), false)
		}
	}
	g.root = g.tokens[0].name
	if o.channels {
		chars := " _\n~"
		if o.overlap {
			chars = o.alpha
		}
		perm := r.Perm(len(chars))
		for k := 0; k < r.Range(1, 2); k++ {
			ch := string(chars[perm[k%len(perm)]])
			sp := &xRule{name: xName("CH", k, true), constant: ch}
			g.rules = append(g.rules, sp)
			t := &xToken{name: xName("ch", k, false)}
			line := xLine{xItem{el: &xElem{rule: sp, card: xOne}}}
			switch r.N(3) {
			case 0:
				line[0].el.card = xCard{1, -1, "+"}
			case 1:
				body := Pick(r, g.rules[:len(g.rules)-1-k])
				line = append(line, xItem{el: &xElem{rule: body, card: genCard(r)}}, xItem{el: &xElem{rule: sp, card: xOne}})
			}
			// the channels are activated again inside of some of them, at times from their beginning
			if r.P(1, 3) {
				at := r.N(len(line) + 1)
				line = append(line[:at:at], append(xLine{xItem{sw: true}}, line[at:]...)...)
			}
			// a channel may hold the tokens of the grammar
			if r.P(1, 4) {
				line = append(line, xItem{el: &xElem{token: Pick(r, g.tokens).name, card: genCard(r)}}, xItem{el: &xElem{rule: sp, card: xOne}})
			}
			t.must = []xLine{line}
			g.channels = append(g.channels, t)
		}
		// alone, a channel may begin with the token: with two, the order in which they are tried is not defined
		if o.overlap && len(g.channels) == 1 && r.P(1, 2) {
			line := g.channels[0].must[0]
			if n := len(line); n > 2 && !line[n-2].sw && line[n-2].el.token != "" {
				g.channels[0].must[0] = line[n-2:]
			}
		}
	}
	return g
}

func (o gramOpts) most(n int) int {
	if o.wide {
		return 5 * n
	}
	return n
}

func genLines(r *Rng, g *xGrammar, o gramOpts, i int, n int, recur bool) []xLine {
	out := []xLine{}
	for ; n > 0; n-- {
		line := xLine{}
		anchored := false // a mandatory rule precedes, so that recursion consumes
		k := r.Range(1, 4)
		if o.wide && r.P(1, 4) {
			k = Pick(r, []int{6, 12, 40, 80})
		}
		refs := 0
		for j := 0; j < k; j++ {
			if o.switches && r.P(1, 6) {
				line = append(line, xItem{sw: true})
			}
			later := len(g.tokens) - 1 - i
			if refs < 2 && later > 0 && r.P(2, 5) {
				refs++
				e := &xElem{token: g.tokens[i+1+r.N(later)].name, card: genCard(r)}
				genSpecs(r, g, o, e)
				line = append(line, xItem{el: e})
				continue
			}
			if refs < 2 && recur && anchored && r.P(1, 3) {
				refs++
				e := &xElem{token: g.tokens[r.N(i+1)].name, card: genCard(r)}
				genSpecs(r, g, o, e)
				line = append(line, xItem{el: e})
				continue
			}
			e := &xElem{rule: Pick(r, g.rules), card: genCard(r)}
			if e.card.min > 0 {
				anchored = true
			}
			line = append(line, xItem{el: e})
		}
		if o.switches && r.P(1, 6) {
			line = append(line, xItem{sw: true})
		}
		out = append(out, line)
	}
	return out
}

// genSpecs adds specifiers on the names that the referenced token may hold, once it is known.
func genSpecs(r *Rng, g *xGrammar, o gramOpts, e *xElem) {
	if !o.specs || r.P(1, 2) {
		return
	}
	for k := r.Range(1, o.most(2)); k > 0; k-- {
		name := Pick(r, g.rules).name
		if r.P(1, 2) {
			name = Pick(r, g.tokens).name
		}
		n := r.Range(1, 3)
		card := xRange(n, n)
		switch r.N(3) {
		case 0:
			card = xRange(r.N(2), r.Range(2, 3))
		case 1:
			card = xRange(r.N(3), -1)
		}
		e.specs = append(e.specs, xSpec{name, card})
	}
}

// xLayout writes the tokens with a random layout.
func xLayout(r *Rng, list []*xToken) string {
	ws := func() string { return Pick(r, []string{" ", "\n", "\t", "  ", "\r\n", " \n\t ", "\n\n", "\r\n\r\n\t"}) }
	opt := func() string {
		if r.P(1, 2) {
			return ""
		}
		return ws()
	}
	line := func(l xLine) string {
		var b strings.Builder
		for i, it := range l {
			if i > 0 {
				b.WriteString(ws())
			}
			if it.sw {
				b.WriteString("#")
				continue
			}
			b.WriteString(it.el.name())
			if it.el.card.text != "" || len(it.el.specs) > 0 {
				b.WriteString(opt())
			}
			b.WriteString(it.el.card.text)
			if len(it.el.specs) > 0 {
				b.WriteString("->")
				for _, sp := range it.el.specs {
					b.WriteString(ws() + sp.name + opt() + sp.card.text)
				}
				b.WriteString(ws() + "<-")
			}
		}
		return b.String()
	}
	lines := func(list []xLine) string {
		out := []string{}
		for _, l := range list {
			out = append(out, line(l))
		}
		return strings.Join(out, opt()+"|"+opt())
	}
	var b strings.Builder
	for _, t := range list {
		b.WriteString(opt() + t.name + opt() + ":" + opt() + lines(t.must) + opt())
		if len(t.not) > 0 {
			b.WriteString(ws() + "---" + opt() + ":" + opt() + lines(t.not) + opt())
		}
		if len(t.tests) > 0 {
			b.WriteString(ws() + "+++" + opt() + ":" + t.testText() + opt())
		}
		b.WriteString(";")
	}
	return b.String()
}

func compareLines(c *Case, what string, want []xLine, got []ltokens.Line) {
	if len(want) != len(got) {
		c.Fail("lines", "%s has %d lines, expected %d", what, len(got), len(want))
		return
	}
	for i, l := range want {
		ins := got[i].Instructions()
		if len(ins) != len(l) {
			c.Fail("elements", "%s line %d (%s) has %d instructions, expected %d", what, i, xLineScript(l), len(ins), len(l))
			continue
		}
		for j, it := range l {
			in := ins[j]
			if in.IsChannelSwitch() != it.sw || in.IsElement() == it.sw {
				c.Fail("switch", "%s line %d (%s): instruction %d is a channel switch: %v", what, i, xLineScript(l), j, in.IsChannelSwitch())
				continue
			}
			if it.sw {
				c.Event("channel switches")
				continue
			}
			c.Event("elements")
			el := in.Element()
			if el.Content().Name() != it.el.name() || el.Content().IsToken() != (it.el.rule == nil) || el.Content().IsRule() != (it.el.rule != nil) {
				c.Fail("name", "%s line %d: element %d is %q (token %v), expected %q", what, i, j, el.Content().Name(), el.Content().IsToken(), it.el.name())
				continue
			}
			if el.HasCardinality() != (it.el.card.text != "") {
				c.Fail("cardinality", "%s line %d: element %d has a cardinality: %v", what, i, j, el.HasCardinality())
			} else if el.HasCardinality() {
				checkCard(c, fmt.Sprintf("%s line %d element %d", what, i, j), el.Cardinality(), it.el.card.min, it.el.card.max)
			}
			if it.el.rule != nil {
				if el.Content().Rule().Name() != it.el.rule.name {
					c.Fail("name", "%s line %d: element %d is the rule %q", what, i, j, el.Content().Rule().Name())
				}
				continue
			}
			ref := el.Content().Token()
			if ref.HasSpecifiers() != (len(it.el.specs) > 0) {
				c.Fail("specifiers", "%s line %d: element %d has specifiers: %v", what, i, j, ref.HasSpecifiers())
				continue
			}
			if !ref.HasSpecifiers() {
				continue
			}
			all := ref.Specifiers().All()
			if len(all) != len(it.el.specs) {
				c.Fail("specifiers", "%s line %d: element %d has %d specifiers, expected %d", what, i, j, len(all), len(it.el.specs))
				continue
			}
			for k, sp := range it.el.specs {
				c.Event("specifiers")
				lo, hi := all[k].Cardinality().Delimiter()
				if all[k].Content().Name() != sp.name || int(lo) != sp.card.min || (hi == nil) != (sp.card.max < 0) || (hi != nil && int(*hi) != sp.card.max) {
					c.Fail("specifiers", "%s line %d: specifier %d is %s %d..%v, expected %s%s", what, i, k, all[k].Content().Name(), lo, hi, sp.name, sp.card.text)
				}
			}
		}
	}
}

func runL04(x *Ctx) {
	read := func(c *Case, wide bool) {
		r := c.R
		n := r.Range(1, 6)
		if wide && r.P(1, 20) {
			n = Pick(r, []int{60, 255, 256, 257, 300})
		}
		g := genGrammar(r, gramOpts{tokens: n, nots: true, specs: true, recur: true, switches: true, wide: wide && n <= 6})
		for _, t := range g.tokens {
			if r.P(1, 3) {
				k := r.Range(1, 3)
				if wide && r.P(1, 2) {
					k = Pick(r, []int{8, 20, 70, 300})
				}
				for ; k > 0; k-- {
					text := r.Str(xAlpha+" \t\n:|->{},[]@'\"", r.Range(1, 6))
					if r.P(1, 2) {
						text = r.Str(xAlpha, r.Range(1, 5))
					}
					if k == 1 {
						// the white space that ends the last one is layout
						text += r.Str(xAlpha, 1)
					}
					t.tests = append(t.tests, text)
					if r.P(1, 4) {
						t.gaps = r.N(512)
					}
					if wide && r.P(1, 4) && k > 1 {
						t.tests = append(t.tests, text)
					}
				}
			}
		}
		src := xLayout(r, g.tokens)
		c.Put("rules", g.rulesScript())
		c.Put("tokens", src)
		_, rs, err := rulesReal(g)
		if err != nil {
			c.Fail("rules", "the rules were refused: %v", err)
			return
		}
		ad, err := ltokens.NewAdapterBuilder().Create().WithRules(rs).Now()
		if err != nil {
			c.Fail("builder", "no adapter: %v", err)
			return
		}
		toks, err := ad.ToTokens(src)
		if err != nil {
			c.Fail("refused", "the tokens were refused: %v", err)
			return
		}
		all := toks.All()
		if len(all) != len(g.tokens) {
			c.Fail("tokens", "%d tokens were read, expected %d", len(all), len(g.tokens))
			return
		}
		for i, t := range g.tokens {
			rt := all[i]
			if f, err := toks.Find(t.name); rt.Name() != t.name || err != nil || f.Name() != t.name {
				c.Fail("name", "token %d is %q, expected %q (%v)", i, rt.Name(), t.name, err)
				continue
			}
			c.Event("tokens")
			compareLines(c, t.name, t.must, rt.Block().Must().All())
			if rt.Block().HasNot() != (len(t.not) > 0) {
				c.Fail("not", "token %s has a not block: %v", t.name, rt.Block().HasNot())
			} else if len(t.not) > 0 {
				c.Event("not blocks")
				compareLines(c, t.name+" (not)", t.not, rt.Block().Not().All())
			}
			if rt.HasTestSuite() != (len(t.tests) > 0) {
				c.Fail("tests", "token %s has tests: %v", t.name, rt.HasTestSuite())
			} else if len(t.tests) > 0 {
				c.Event("test suites")
				lines := rt.TestSuite().Lines()
				ok := len(lines) == len(t.tests)
				for k := 0; ok && k < len(lines); k++ {
					ok = lines[k] == t.tests[k]
					if k == len(lines)-1 {
						// the layout may end the last one with white spaces
						ok = strings.TrimRight(lines[k], " \t\r\n") == t.tests[k]
					}
				}
				if !ok {
					c.Fail("tests", "token %s has the tests %q, expected %q", t.name, lines, t.tests)
				}
			}
		}
		if _, err := toks.Find("zzz"); err == nil {
			c.Fail("name", "an unknown token was found")
		}
		c.Distinct(src)
		c.Sample(src)
	}
	x.Each("read", x.Scale(30000, 400000), func(c *Case) { read(c, false) })
	// many tokens, lines, elements, specifiers and tests
	x.Each("wide", x.Scale(1500, 30000), func(c *Case) { read(c, true) })
	x.Each("refused", x.Scale(3000, 30000), func(c *Case) {
		r := c.R
		g := genGrammar(r, gramOpts{tokens: 2})
		_, rs, err := rulesReal(g)
		if err != nil {
			c.Fail("rules", "the rules were refused: %v", err)
			return
		}
		a := g.rules[0].name
		bad := []string{"t: ZZZ;", "t: " + a + " ZZZ;", "t: " + a + " --- " + a + ";", "t: " + a + " +++ x;", "t: " + a + "{0};", "t: " + a + "{x};", "t: | " + a + ";",
			"t: " + a + " |;", "t: " + a + " --- : ZZZ;", "t: u -> ZZZ{1} <-; u: " + a + ";", "t: u -> " + a + "{0} <-; u: " + a + ";", "", "t: " + a, "t " + a + ";"}
		in := bad[c.Index%len(bad)]
		c.Put("rules", g.rulesScript())
		c.Put("tokens", in)
		ad, err := ltokens.NewAdapterBuilder().Create().WithRules(rs).Now()
		if err != nil {
			c.Fail("builder", "no adapter: %v", err)
			return
		}
		if toks, err := ad.ToTokens(in); err == nil && toks != nil {
			c.Fail("accepted", "the tokens %q were accepted", in)
		}
		c.Event("malformed scripts refused")
		c.Distinct("bad", in)
	})
}
