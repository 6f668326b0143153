//go:build go1.21

package main

import (
	"fmt"
	"strings"
)

func init() {
	assume := []string{"channels of a grammar never match at the same position, as the order in which they are tried is not defined",
		"grammars are not left recursive"}
	register(&Check{ID: "L05", Rule: "a case is non trivial when at least one text was accepted or refused by the reference and the lexer was compared with it; distinct = grammar + text", Run: runL05, Assumptions: assume})
	register(&Check{ID: "L09", Rule: "a case is non trivial when channel text was really inserted at a legal or illegal place of an accepted script", Run: runL09, Assumptions: assume})
	register(&Check{ID: "L20", Rule: "a case is non trivial when an element with specifiers was judged", Run: runL20, Assumptions: assume})
	register(&Check{ID: "L22", Rule: "a case is non trivial when a text that does not begin with the root was read with a legal prefix; distinct = grammar + text", Run: runL22, Assumptions: assume})
	register(&Check{ID: "L21", Rule: "a case is non trivial when the must block of a token with a not block matched", Run: runL21, Assumptions: assume})
}

// expansion is the number of elements the path of the token holds once its references are unfolded.
func (g *xGrammar) expansion(name string, stack map[string]bool, budget *int) {
	t := g.tok(name)
	if t == nil || *budget <= 0 {
		return
	}
	for _, block := range [][]xLine{t.must, t.not} {
		for _, l := range block {
			for _, it := range l {
				if it.sw {
					continue
				}
				*budget--
				if it.el.rule != nil || stack[it.el.token] {
					continue
				}
				stack[it.el.token] = true
				g.expansion(it.el.token, stack, budget)
				delete(stack, it.el.token)
			}
		}
	}
}

func (g *xGrammar) small() bool {
	budget := 2500
	for _, t := range g.tokens {
		g.expansion(t.name, map[string]bool{}, &budget)
	}
	return budget > 0
}

// trivial tells that a not block or a must block could not be turned into a path.
func (g *xGrammar) hopeless() bool {
	for _, t := range g.tokens {
		for _, l := range append(append([]xLine{}, t.must...), t.not...) {
			n := 0
			self := false
			for _, it := range l {
				if it.sw {
					continue
				}
				n++
				self = self || it.el.token == t.name
			}
			if n == 1 && self {
				return true
			}
		}
	}
	return false
}

// genText derives a text from a token, with channel texts where they are legal.
type xGen struct {
	g     *xGrammar
	r     *Rng
	chans bool
	loose bool // channel texts in runs, at legal and illegal places
	b     strings.Builder
	limit int
}

func (s *xGen) token(t *xToken, ch bool, depth int) {
	if depth > 7 || s.b.Len() > s.limit {
		return
	}
	s.line(Pick(s.r, t.must), ch, depth)
}

func (s *xGen) line(l xLine, ch bool, depth int) {
	act, next := ch, ch
	for _, it := range l {
		if it.sw {
			next = !next
			if next {
				act = true
			}
			continue
		}
		n := it.el.card.min
		if it.el.card.max < 0 {
			n += s.r.N(3)
		} else {
			n += s.r.N(it.el.card.max - it.el.card.min + 1)
		}
		if depth > 3 && n > it.el.card.min {
			n = it.el.card.min
		}
		for i := 0; i < n; i++ {
			if it.el.rule != nil {
				if i == 0 {
					s.channel(act)
				}
				s.b.WriteString(s.rule(it.el.rule))
				continue
			}
			if i == 0 {
				s.channel(act)
			}
			s.token(s.g.tok(it.el.token), next, depth+1)
		}
		if !next {
			act = false
		}
	}
}

func (s *xGen) channel(act bool) {
	if s.loose && len(s.g.channels) > 0 {
		s.loose = false
		if s.r.P(1, 3) {
			for k := s.r.Range(1, 3); k > 0; k-- {
				s.line(Pick(s.r, s.g.channels).must[0], false, 1)
			}
		}
		s.loose = true
		return
	}
	if !s.chans || !act || len(s.g.channels) == 0 || !s.r.P(1, 4) {
		return
	}
	save := s.chans
	s.chans = false
	s.line(Pick(s.r, s.g.channels).must[0], false, 1)
	s.chans = save
}

func (s *xGen) rule(r *xRule) string {
	if r.constant != "" {
		return r.constant
	}
	var b strings.Builder
	n := r.card.min
	if r.card.max < 0 {
		n += s.r.N(3)
	} else {
		n += s.r.N(r.card.max - r.card.min + 1)
	}
	if n == 0 {
		n = 1
	}
	for ; n > 0; n-- {
		for _, c := range Pick(s.r, r.pats).choices {
			if c.rev && s.r.P(1, 2) {
				continue
			}
			for _, gr := range c.serie.groups {
				b.WriteString(Pick(s.r, gr.elems))
			}
		}
	}
	return b.String()
}

func (g *xGrammar) genText(r *Rng, root string, limit int) string {
	s := &xGen{g: g, r: r, chans: true, limit: limit}
	s.token(g.tok(root), true, 0)
	t := s.b.String()
	if len(t) > limit {
		t = t[:limit]
	}
	return t
}

// mutate edits a text a little.
func mutate(r *Rng, s string, alpha string) string {
	for k := r.Range(1, 2); k > 0; k-- {
		b := []byte(s)
		i := r.N(len(b) + 1)
		switch r.N(4) {
		case 0:
			s = string(b[:i]) + r.Str(alpha, 1) + string(b[i:])
		case 1:
			if i < len(b) {
				s = string(b[:i]) + string(b[i+1:])
			}
		case 2:
			if i < len(b) {
				b[i] = alpha[r.N(len(alpha))]
				s = string(b)
			}
		case 3:
			s = string(b[:i])
		}
	}
	return s
}

// compare reads one text with the lexer and the reference; sig is empty when they agree.
func (g *xGrammar) compare(root string, text string) (sig string, msg string, want *xNode, rec *xRec, ok bool) {
	limit := 2500
	if g.limit > 0 {
		limit = g.limit
	}
	want, rec, ok = g.recognize(root, text, limit)
	if !ok {
		return "", "", nil, rec, false
	}
	got := g.real(xNewLexer(), root, text)
	switch {
	case got.err != nil:
		sig, msg = "error", fmt.Sprintf("%s on %q: %v", got.where, text, got.err)
	case want == nil && got.node != nil:
		sig, msg = "accepted", fmt.Sprintf("token %s accepted %q as %s", root, text, got.node)
	case want != nil && got.node == nil:
		sig, msg = "refused", fmt.Sprintf("token %s refused %q, expected %s", root, text, want)
	case want != nil && got.node.String() != want.String():
		sig, msg = "tree", fmt.Sprintf("token %s read %q as %s, expected %s", root, text, got.node, want)
	case got.nodeErr != "":
		sig, msg = "ast-root", fmt.Sprintf("on %q: %s", text, got.nodeErr)
	case want != nil && got.root == nil:
		sig, msg = "root", fmt.Sprintf("token %s read %q without root", root, text)
	case want != nil && xRootString(got.root) != want.rootString():
		sig, msg = "root", fmt.Sprintf("token %s read %q as root %s, expected %s", root, text, xRootString(got.root), want.rootString())
	}
	return sig, msg, want, rec, true
}

// judge compares the lexer with the reference on one text. It tells if the reference accepted.
func (g *xGrammar) judge(c *Case, root string, text string) (accepted bool, rec *xRec, ok bool) {
	sig, msg, want, rec, ok := g.compare(root, text)
	if !ok {
		c.Event("texts skipped, too costly")
		return false, rec, false
	}
	if sig != "" && g.limit > 0 {
		// too large to be reduced
		c.Put("text", text)
		c.Fail(sig, "a text of %d bytes: %.400s", len(text), msg)
	} else if sig != "" {
		small, txt := g.shrink(root, text, sig)
		_, m, _, _, _ := small.compare(root, txt)
		c.Put("text", text)
		c.Put("root", root)
		c.Put("reduced", small.script())
		c.Fail(sig, "%s; reduced: %s with\n%s", msg, m, small.script())
	}
	if want == nil {
		c.Event("texts refused")
		return false, rec, true
	}
	c.Event("texts accepted")
	return true, rec, true
}

func (g *xGrammar) clone() *xGrammar {
	out := *g
	list := func(in []*xToken) []*xToken {
		res := []*xToken{}
		for _, t := range in {
			n := *t
			lines := func(ls []xLine) []xLine {
				var o []xLine
				for _, l := range ls {
					o = append(o, append(xLine{}, l...))
				}
				return o
			}
			n.must, n.not = lines(t.must), lines(t.not)
			res = append(res, &n)
		}
		return res
	}
	out.tokens, out.channels = list(g.tokens), list(g.channels)
	return &out
}

// shrink removes what a disagreement does not need.
func (g *xGrammar) shrink(root string, text string, sig string) (*xGrammar, string) {
	budget := 3000
	fails := func(h *xGrammar, t string) (yes bool) {
		if budget--; budget < 0 || t == "" {
			return false
		}
		defer func() {
			if recover() != nil {
				yes = false
			}
		}()
		s, _, _, _, ok := h.compare(root, t)
		return ok && s == sig
	}
	cur := g.clone()
	for again := true; again && budget > 0; {
		again = false
		for i := 0; i < len(text); {
			if t := text[:i] + text[i+1:]; fails(cur, t) {
				text, again = t, true
				continue
			}
			i++
		}
		try := func(change func(h *xGrammar) bool) bool {
			h := cur.clone()
			if change(h) && fails(h, text) {
				cur, again = h, true
				return true
			}
			return false
		}
		for i := len(cur.tokens) - 1; i >= 0; i-- {
			try(func(h *xGrammar) bool { h.tokens = append(h.tokens[:i], h.tokens[i+1:]...); return len(h.tokens) > 0 })
		}
		for i := len(cur.channels) - 1; i >= 0; i-- {
			try(func(h *xGrammar) bool { h.channels = append(h.channels[:i], h.channels[i+1:]...); return true })
		}
		for k := range append(append([]*xToken{}, cur.tokens...), cur.channels...) {
			at := func(h *xGrammar) *xToken {
				if k < len(h.tokens) {
					return h.tokens[k]
				}
				return h.channels[k-len(h.tokens)]
			}
			for b := 0; b < 2; b++ {
				block := func(t *xToken) *[]xLine {
					if b == 0 {
						return &t.must
					}
					return &t.not
				}
				for i := len(*block(at(cur))) - 1; i >= 0; i-- {
					if try(func(h *xGrammar) bool {
						p := block(at(h))
						*p = append((*p)[:i], (*p)[i+1:]...)
						return b == 1 || len(*p) > 0
					}) {
						continue
					}
					for j := len((*block(at(cur)))[i]) - 1; j >= 0; j-- {
						if try(func(h *xGrammar) bool {
							l := &(*block(at(h)))[i]
							*l = append((*l)[:j], (*l)[j+1:]...)
							for _, it := range *l {
								if !it.sw {
									return true
								}
							}
							return false
						}) {
							continue
						}
						it := (*block(at(cur)))[i][j]
						if it.sw {
							continue
						}
						for q := len(it.el.specs) - 1; q >= 0; q-- {
							try(func(h *xGrammar) bool {
								e := *(*block(at(h)))[i][j].el
								if q >= len(e.specs) {
									return false
								}
								e.specs = append(append([]xSpec{}, e.specs[:q]...), e.specs[q+1:]...)
								(*block(at(h)))[i][j].el = &e
								return true
							})
						}
						if it.el.card != xOne {
							try(func(h *xGrammar) bool {
								e := *(*block(at(h)))[i][j].el
								e.card = xOne
								(*block(at(h)))[i][j].el = &e
								return true
							})
						}
					}
				}
			}
		}
	}
	return cur, text
}

func drawGrammar(r *Rng, o gramOpts) *xGrammar {
	for {
		g := genGrammar(r, o)
		if g.small() && !g.hopeless() {
			return g
		}
	}
}

func runL05(x *Ctx) {
	gram := func(c *Case, wide bool) {
		r := c.R
		o := gramOpts{tokens: r.Range(1, 6), recur: r.P(1, 2), channels: r.P(1, 2), nots: r.P(1, 4), specs: r.P(1, 4), switches: r.P(1, 4), overlap: r.P(1, 8)}
		if wide {
			o.wide = r.P(2, 3)
			o.tokens = r.Range(1, 3)
		}
		g := drawGrammar(r, o)
		if o.wide {
			g.limit = 2500 // and too wide to be reduced
		}
		if wide && r.P(2, 3) && !(o.overlap && len(g.channels) > 1) {
			g.spell(Pick(r, xSpellings))
		}
		c.Put("grammar", g.script())
		for k := 0; k < 6; k++ {
			root := g.root
			if r.P(1, 3) {
				root = Pick(r, g.tokens).name
			}
			text := g.genText(r, root, r.Range(4, 16))
			if r.P(3, 5) {
				text = mutate(r, text, xAlpha+" _")
			}
			if text == "" {
				continue
			}
			acc, rec, ok := g.judge(c, root, text)
			if !ok {
				continue
			}
			c.Distinct(g.script(), root, text)
			if acc {
				c.EventN("nesting levels", rec.recHit)
				if rec.chHit > 0 {
					c.Event("texts with channel texts")
				}
				if rec.swHit > 0 {
					c.Event("texts with channels that activate the channels")
				}
			}
		}
		c.Sample(g.script())
	}
	x.Each("grammar", x.Scale(9000, 150000), func(c *Case) { gram(c, false) })
	// many lines, long ones, any characters
	x.Each("wide", x.Scale(2500, 50000), func(c *Case) { gram(c, true) })
	// tokens of many lines, any of which may be the one
	x.Each("lines", x.Scale(160, 4000), func(c *Case) {
		r := c.R
		g := &xGrammar{root: "root", limit: 40000, pats: genPats(r, 1, "yz", false)}
		pair := []*xRule{{name: "A", constant: "a"}, {name: "B", constant: Pick(r, []string{"b", "é"})}}
		g.rules = pair
		n := Pick(r, []int{17, 33, 65, 100, 128, 129, 255, 256, 257, 300})
		var lines []xLine
		code := func(i int) (string, xLine) {
			text, line := "", xLine{}
			for bit := 0; bit < 9; bit++ {
				ru := pair[i>>bit&1]
				text += ru.constant
				line = append(line, xItem{el: &xElem{rule: ru, card: xOne}})
			}
			return text, line
		}
		texts := []string{}
		for _, i := range r.Perm(512)[:n] {
			text, line := code(i)
			lines = append(lines, line)
			texts = append(texts, text)
		}
		t := &xToken{name: "root", must: lines}
		if r.P(1, 3) {
			t.must, t.not = []xLine{{xItem{el: &xElem{token: "sub", card: xCard{1, -1, "+"}}}}}, lines
		}
		g.tokens = []*xToken{t, {name: "sub", must: []xLine{{xItem{el: &xElem{rule: pair[0], card: xOne}}}, {xItem{el: &xElem{rule: pair[1], card: xOne}}}}}}
		c.Put("grammar", g.script())
		for k := 0; k < 6; k++ {
			text, _ := code(r.N(512))
			switch r.N(4) {
			case 0, 1:
				text = Pick(r, texts)
			case 2:
				text = texts[len(texts)-1-r.N(3)]
			}
			if acc, _, ok := g.judge(c, "root", text); ok {
				c.Event("texts of tokens of many lines")
				if acc {
					c.Event("texts accepted by one of many lines")
				}
				c.Distinct(g.script(), text)
			}
		}
	})
	// elements that occur many times, amounts that a narrower number cannot tell apart
	x.Each("long", x.Scale(60, 2000), func(c *Case) {
		r := c.R
		g := &xGrammar{root: "root", limit: 40000, pats: genPats(r, 1, "yz", false)}
		a, b, e := &xRule{name: "A", constant: "a"}, &xRule{name: "B", constant: Pick(r, []string{"b", "bc", "é"})}, &xRule{name: "E", constant: "e"}
		g.rules = []*xRule{a, b, e}
		around := func() int {
			return Pick(r, []int{1, 30, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 1100})
		}
		card := func() xCard {
			switch n := around(); r.N(6) {
			case 0:
				return xRange(n, n)
			case 5:
				return xRange(r.N(3), Pick(r, []int{65536, 65537, 65540, 1 << 32, 1<<32 + 1}))
			case 1:
				return xRange(n, n+r.N(400))
			case 2:
				return xRange(r.N(3), n)
			case 3:
				return xCard{1, -1, "+"}
			default:
				return xRange(n, -1)
			}
		}
		rc, tc := card(), card()
		sub := &xToken{name: "sub", must: []xLine{{xItem{el: &xElem{rule: b, card: xOne}}}, {xItem{el: &xElem{rule: b, card: xOne}}, xItem{el: &xElem{rule: e, card: xOne}}}}}
		el := &xElem{token: "sub", card: tc}
		if r.P(1, 3) {
			el.specs = []xSpec{{Pick(r, []string{"B", "E"}), xRange(r.N(3), around())}}
			if r.P(1, 2) {
				el.specs[0].card = xRange(around(), -1)
			}
		}
		items := xLine{xItem{el: &xElem{rule: a, card: rc}}, xItem{el: el}, xItem{el: &xElem{rule: a, card: xCard{0, 1, "?"}}}}
		if r.P(1, 2) {
			items = items[1:]
		}
		g.tokens = []*xToken{{name: "root", must: []xLine{items}}, sub}
		c.Put("grammar", g.script())
		amount := func(k xCard) int {
			n := Pick(r, []int{k.min, k.min + 1, k.min - 1, k.max, k.max + 1, k.max - 1, k.max - 256, k.min - 256, k.max + 256, k.min + 256})
			if n < 0 || n > 1500 {
				n = k.min
			}
			return n
		}
		for k := 0; k < 3; k++ {
			text := ""
			if len(items) == 3 {
				text = strings.Repeat("a", amount(rc))
			}
			for n := amount(tc); n > 0; n-- {
				text += b.constant
				if len(el.specs) > 0 && r.P(1, 2) {
					text += "e"
				}
			}
			if text += strings.Repeat("a", r.N(3)); text == "" {
				continue
			}
			acc, _, ok := g.judge(c, "root", text)
			if ok {
				c.Event("long texts")
				c.Distinct(g.script(), text)
				if acc {
					c.Event("long texts accepted")
				}
			}
		}
	})
}

// ---------------------------------------------------------------- L09

// marks derives a text and remembers the places between its elements, with the state of the channels there.
type xMark struct {
	at    int
	legal bool
}

func runL09(x *Ctx) {
	x.Each("insert", x.Scale(8000, 150000), func(c *Case) {
		r := c.R
		g := drawGrammar(r, gramOpts{tokens: r.Range(1, 5), recur: r.P(1, 3), channels: true, switches: r.P(1, 2), specs: r.P(1, 4), nots: r.P(1, 6), alpha: "abc"})
		c.Put("grammar", g.script())
		s := &xGen{g: g, r: r, limit: 12}
		s.token(g.tok(g.root), true, 0)
		text := s.b.String()
		if text == "" {
			return
		}
		base, _, ok := g.recognize(g.root, text, 1500)
		if !ok || base == nil || base.text != text {
			return
		}
		// insert channel text at a random place: the reference tells whether it is legal there
		for k := 0; k < 4; k++ {
			ch := &xGen{g: g, r: r, limit: 6}
			ch.line(Pick(r, g.channels).must[0], false, 1)
			ins := ch.b.String()
			if ins == "" {
				continue
			}
			at := r.N(len(text) + 1)
			edited := text[:at] + ins + text[at:]
			c.Put("inserted", fmt.Sprintf("%q at %d", ins, at))
			acc, rec, ok := g.judge(c, g.root, edited)
			if !ok {
				continue
			}
			if acc && rec.chHit > 0 {
				c.Event("insertions accepted")
			} else {
				c.Event("insertions refused or left out")
			}
			c.Distinct(g.script(), edited)
		}
		c.Sample(map[string]string{"grammar": g.script(), "text": text})
	})
	// runs of channel texts at any place between elements, of grammars with many switches
	x.Each("runs", x.Scale(12000, 200000), func(c *Case) {
		r := c.R
		g := drawGrammar(r, gramOpts{tokens: r.Range(1, 4), recur: r.P(1, 3), channels: true, switches: true, specs: r.P(1, 3), nots: r.P(1, 6), alpha: "ab"})
		c.Put("grammar", g.script())
		for k := 0; k < 4; k++ {
			s := &xGen{g: g, r: r, limit: 14, loose: true}
			s.token(g.tok(g.root), true, 0)
			text := s.b.String()
			if text == "" {
				continue
			}
			acc, rec, ok := g.judge(c, g.root, text)
			if !ok {
				continue
			}
			c.Distinct(g.script(), text)
			if acc && rec.chHit > 0 {
				c.Event("runs accepted")
			}
			if !acc && rec.chHit > 0 {
				c.Event("runs refused")
			}
		}
	})
	// references within references, recursive and specified ones, where channels are switched at each level
	x.Each("nested", x.Scale(8000, 150000), func(c *Case) {
		r := c.R
		g := &xGrammar{pats: genPats(r, 1, "abc", false), root: "root"}
		g.rules = []*xRule{{name: "A", constant: "a"}, {name: "B", constant: "b"}, {name: "C", constant: "c"}, {name: "SPACE", constant: " "}}
		names := []string{"root", "sub", "leaf"}
		wide := []xCard{xRange(1, -1), xRange(0, 4), xRange(1, 3), xRange(2, -1)}
		for i, name := range names {
			t := &xToken{name: name}
			for k := r.Range(1, 2); k > 0; k-- {
				l := xLine{}
				if r.P(1, 3) {
					l = append(l, xItem{sw: true})
				}
				l = append(l, xItem{el: &xElem{rule: g.rules[r.N(3)], card: xOne}})
				for j := r.Range(0, 3); j > 0; j-- {
					if r.P(1, 3) {
						l = append(l, xItem{sw: true})
					}
					e := &xElem{rule: g.rules[r.N(3)], card: genCard(r)}
					if r.P(1, 2) {
						// itself, the one above or the one below
						e.rule, e.token = nil, names[r.Range(max(0, i-1), min(2, i+1))]
						if r.P(1, 2) {
							e.card = Pick(r, []xCard{xOne, {0, 1, "?"}})
						}
						if r.P(1, 2) {
							e.specs = []xSpec{{Pick(r, []string{"A", "B", "C", "sub", "leaf"}), Pick(r, wide)}}
						}
					}
					l = append(l, xItem{el: e})
				}
				t.must = append(t.must, l)
			}
			if r.P(1, 2) {
				t.must = append(t.must, xLine{xItem{el: &xElem{rule: g.rules[r.N(3)], card: xOne}}})
			}
			g.tokens = append(g.tokens, t)
		}
		g.channels = []*xToken{{name: "space", must: []xLine{{xItem{el: &xElem{rule: g.rules[3], card: xOne}}}}}}
		if !g.small() || g.hopeless() {
			return
		}
		c.Put("grammar", g.script())
		for k := 0; k < 6; k++ {
			s := &xGen{g: g, r: r, limit: 10, loose: true}
			s.token(g.tok(g.root), true, 0)
			text := s.b.String()
			for j := r.N(3); j > 0; j-- {
				at := r.N(len(text) + 1)
				text = text[:at] + " " + text[at:]
			}
			acc, rec, ok := g.judge(c, g.root, text)
			if !ok {
				continue
			}
			c.Distinct(g.script(), text)
			if acc && rec.chHit > 0 {
				c.Event("nested readings with channel texts")
			}
		}
		c.Sample(g.script())
	})
	// the tree without its channel parts is the one of the script without channel texts
	x.Each("strip", x.Scale(5000, 100000), func(c *Case) {
		r := c.R
		g := drawGrammar(r, gramOpts{tokens: r.Range(1, 5), alpha: "abc"})
		// constants, one line per token and mandatory elements: the channel texts have no way to change the reading
		for _, ru := range g.rules {
			if ru.constant == "" {
				ru.constant, ru.pats = r.Str("abc", r.Range(1, 3)), nil
			}
		}
		for _, t := range g.tokens {
			t.must = t.must[:1]
			for i, l := range t.must {
				for j := range l {
					if l[j].el != nil {
						t.must[i][j].el.card = xOne
					}
				}
			}
		}
		sp := &xRule{name: "SPACE", constant: Pick(r, []string{" ", "~", "\n", "..", "/*"})}
		g.rules = append(g.rules, sp)
		g.channels = []*xToken{{name: "space", must: []xLine{{xItem{el: &xElem{rule: sp, card: xOne}}}}}}
		if !g.small() || g.hopeless() {
			return
		}
		c.Put("grammar", g.script())
		text := g.genTextPlain(r, 12)
		want, _, ok := g.recognize(g.root, text, 1500)
		if !ok || want == nil || want.text != text {
			return
		}
		// channel texts between any two rules of the reading, some of them repeated
		leaves := want.leaves()
		var b strings.Builder
		n := 0
		for _, l := range leaves {
			for r.P(1, 3) {
				b.WriteString(sp.constant)
				n++
			}
			b.WriteString(l)
		}
		edited := b.String()
		c.Put("text", text)
		c.Put("edited", edited)
		if _, _, ok := g.recognize(g.root, edited, 2500); !ok {
			return
		}
		got := g.real(xNewLexer(), g.root, edited)
		if got.err != nil {
			c.Fail("error", "%s: %v", got.where, got.err)
			return
		}
		if got.node == nil {
			c.Fail("refused", "%q was refused although %q is accepted", edited, text)
			return
		}
		c.EventN("channel texts inserted", n)
		c.Distinct(g.script(), edited)
		kept := got.node.without("SPACE")
		if kept.shape() != want.shape() {
			c.Fail("tree", "%q is read as %s, expected %s", edited, kept.shape(), want.shape())
		}
		if got.node.text != edited {
			c.Fail("text", "%q is read as the text %q", edited, got.node.text)
		}
	})
}

func (g *xGrammar) genTextPlain(r *Rng, limit int) string {
	s := &xGen{g: g, r: r, limit: limit}
	s.token(g.tok(g.root), true, 0)
	return s.b.String()
}

// leaves are the rule texts, in order.
func (n *xNode) leaves() []string {
	out := []string{}
	for _, p := range n.parts {
		if p.tok == "" {
			out = append(out, p.text)
			continue
		}
		for _, s := range p.subs {
			out = append(out, s.leaves()...)
		}
	}
	return out
}

// without drops the parts of a rule.
func (n *xNode) without(rule string) *xNode {
	out := &xNode{token: n.token, line: n.line}
	for _, p := range n.parts {
		if p.tok == "" {
			if p.rule != rule {
				out.parts = append(out.parts, p)
			}
			continue
		}
		np := xPart{tok: p.tok}
		for _, s := range p.subs {
			np.subs = append(np.subs, s.without(rule))
		}
		out.parts = append(out.parts, np)
	}
	return out
}

// shape is the tree without the token texts.
func (n *xNode) shape() string {
	out := n.token + fmt.Sprint("/", n.line, "(")
	for _, p := range n.parts {
		if p.tok == "" {
			out += fmt.Sprintf("%s%q ", p.rule, p.text)
			continue
		}
		out += p.tok + "{"
		for _, s := range p.subs {
			out += s.shape()
		}
		out += "}"
	}
	return out + ")"
}

// ---------------------------------------------------------------- L20

func runL20(x *Ctx) {
	x.Each("specified", x.Scale(9000, 150000), func(c *Case) {
		r := c.R
		alpha := "abc"
		g := &xGrammar{pats: genPats(r, 1, alpha, false)}
		g.rules = []*xRule{{name: "A", constant: "a"}, {name: "B", constant: "b"}, {name: "C", constant: "c"}, {name: "D", constant: "d"}}
		leaf := &xToken{name: "leaf", must: []xLine{{xItem{el: &xElem{rule: g.rules[0], card: xOne}}}}}
		if r.P(1, 2) {
			leaf.must[0] = append(leaf.must[0], xItem{el: &xElem{rule: g.rules[1], card: xCard{0, 1, "?"}}})
		}
		other := &xToken{name: "other", must: []xLine{{xItem{el: &xElem{rule: g.rules[2], card: xOne}}}}}
		// the specified token: several occurrences of leaf, other and rules in its lines
		mid := &xToken{name: "mid"}
		for k := r.Range(1, 3); k > 0; k-- {
			l := xLine{}
			for j := r.Range(1, 4); j > 0; j-- {
				e := &xElem{card: genCard(r)}
				switch r.N(3) {
				case 0:
					e.token = "leaf"
				case 1:
					e.token = "other"
				default:
					e.rule = Pick(r, g.rules)
				}
				if e.token != "" && r.P(1, 4) {
					// a reference that is counted and has a specifier itself
					e.specs = []xSpec{{Pick(r, []string{"A", "B", "C"}), Pick(r, []xCard{xRange(r.N(2), r.Range(2, 6)), xRange(1, -1), xRange(r.Range(1, 4), -1)})}}
				}
				l = append(l, xItem{el: e})
			}
			mid.must = append(mid.must, l)
		}
		root := &xToken{name: "root"}
		for k := r.Range(1, 3); k > 0; k-- {
			e := &xElem{token: "mid", card: genCard(r)}
			most := 2
			if c.Index%8 == 7 {
				most = 9
			}
			for j := r.Range(1, most); j > 0; j-- {
				n := r.Range(1, 4)
				card := xRange(n, n)
				switch r.N(3) {
				case 0:
					card = xRange(r.N(3), r.Range(3, 5))
				case 1:
					card = xRange(r.N(4), -1)
				}
				e.specs = append(e.specs, xSpec{Pick(r, []string{"leaf", "other", "A", "B", "C", "D"}), card})
			}
			l := xLine{xItem{el: e}}
			if r.P(1, 2) {
				l = append(l, xItem{el: &xElem{rule: g.rules[3], card: genCard(r)}})
			}
			root.must = append(root.must, l)
		}
		g.tokens = []*xToken{root, mid, leaf, other}
		g.root = "root"
		if r.P(1, 3) {
			sp := &xRule{name: "SPACE", constant: " "}
			g.rules = append(g.rules, sp)
			g.channels = []*xToken{{name: "space", must: []xLine{{xItem{el: &xElem{rule: sp, card: xOne}}}}}}
		}
		c.Put("grammar", g.script())
		for k := 0; k < 6; k++ {
			text := g.genText(r, "root", 12)
			if r.P(1, 3) {
				text = mutate(r, text, alpha)
			}
			if text == "" {
				continue
			}
			_, rec, ok := g.judge(c, "root", text)
			if ok && rec.spHit > 0 {
				c.EventN("specifiers judged", rec.spHit)
				c.Distinct(g.script(), text)
			}
		}
		c.Sample(g.script())
	})
	// specifiers anywhere: recursive references, switches, channels and not blocks included
	x.Each("anywhere", x.Scale(5000, 100000), func(c *Case) {
		r := c.R
		g := drawGrammar(r, gramOpts{tokens: r.Range(2, 5), recur: r.P(2, 3), channels: r.P(1, 2), nots: r.P(1, 4), specs: true, switches: r.P(1, 3), alpha: "ab"})
		c.Put("grammar", g.script())
		for k := 0; k < 4; k++ {
			text := g.genText(r, g.root, 12)
			if r.P(1, 3) {
				text = mutate(r, text, xAlpha+" _")
			}
			if text == "" {
				continue
			}
			_, rec, ok := g.judge(c, g.root, text)
			if ok && rec.spHit > 0 {
				c.EventN("specifiers judged anywhere", rec.spHit)
				c.Distinct(g.script(), text)
			}
		}
		c.Sample(g.script())
	})
}

// ---------------------------------------------------------------- L21

func runL21(x *Ctx) {
	x.Each("nots", x.Scale(9000, 150000), func(c *Case) {
		r := c.R
		o := gramOpts{tokens: r.Range(2, 5), nots: true, recur: r.P(1, 3), channels: r.P(1, 4), specs: r.P(1, 4), alpha: "ab"}
		if c.Index%24 == 7 {
			o.wide, o.tokens = true, 2
		}
		g := drawGrammar(r, o)
		// make sure that the root has a not block, most often over what its must block holds
		t := g.tokens[0]
		if len(t.not) == 0 || r.P(1, 2) {
			t.not = nil
			l := append(xLine{}, Pick(r, t.must)...)
			if len(l) > 1 && r.P(1, 2) {
				l = l[:r.Range(1, len(l)-1)]
			}
			for _, it := range l {
				if it.el != nil {
					cp := *it.el
					if r.P(1, 3) {
						cp.card = genCard(r)
					}
					if r.P(1, 3) && cp.rule != nil {
						cp.rule = Pick(r, g.rules)
					}
					t.not = append(t.not, xLine{xItem{el: &cp}})
				}
			}
			if r.P(1, 2) {
				t.not = append(t.not, l)
			}
			for i := range t.not {
				for j := 0; j < len(t.not[i]); j++ {
					// recursion only after something mandatory
					if e := t.not[i][j].el; e != nil && e.rule == nil && e.token == t.name {
						t.not[i] = t.not[i][:j]
					}
				}
			}
			kept := []xLine{}
			for _, l := range t.not {
				n := 0
				for _, it := range l {
					if it.el != nil {
						n++
					}
				}
				if n > 0 {
					kept = append(kept, l)
				}
			}
			t.not = kept
		}
		if !g.small() || g.hopeless() {
			return
		}
		c.Put("grammar", g.script())
		for k := 0; k < 6; k++ {
			text := g.genText(r, g.root, 10)
			if r.P(1, 3) {
				text = mutate(r, text, "ab")
			}
			if text == "" {
				continue
			}
			acc, rec, ok := g.judge(c, g.root, text)
			if !ok {
				continue
			}
			if rec.notHit > 0 {
				c.Event("matches refused by a not block")
			}
			if rec.notHit > 0 || (acc && len(t.not) > 0) {
				c.Distinct(g.script(), text)
			}
		}
		c.Sample(g.script())
	})
}

// ---------------------------------------------------------------- L22

// prefixL22 compares a reading with a legal prefix, and one without, with the first place where the root reads.
func prefixL22(c *Case, g *xGrammar, root string, text string, read func(pre bool, suf bool) *xReal) {
	// the reference gives the first place where the root reads
	var want *xNode
	at, costly := -1, false
	for i := 0; i < len(text) && want == nil; i++ {
		n, _, ok := g.recognize(root, text[i:], 1500)
		if !ok {
			costly = true
			break
		}
		want, at = n, i
	}
	if costly {
		c.Event("texts skipped, too costly")
		return
	}
	c.Put("text", text)
	c.Put("root", root)
	suf := c.R.P(1, 4)
	got := read(true, suf)
	switch {
	case got.err != nil:
		c.Fail("error", "%s on %q: %v", got.where, text, got.err)
	case got.nodeErr != "":
		c.Fail("root", "on %q: %s", text, got.nodeErr)
	case want == nil && got.node != nil:
		c.Fail("accepted", "token %s reads %q nowhere, it gives %s", root, text, got.node)
	case want != nil && got.node == nil:
		c.Fail("refused", "token %s reads %q at %d as %s, it was refused with %s", root, text, at, want, xMistakeString(got.mistake))
	case want != nil && got.node.String() != want.String():
		c.Fail("tree", "token %s reads %q at %d as %s, it gives %s", root, text, at, want, got.node)
	case want != nil && (got.root == nil || xRootString(got.root) != want.rootString()):
		c.Fail("root", "token %s reads %q at %d with another root", root, text, at)
	}
	// without it, the text begins with the root
	strict := read(false, suf)
	switch {
	case strict.err != nil:
		c.Fail("error", "%s on %q: %v", strict.where, text, strict.err)
	case (strict.node != nil) != (at == 0 && want != nil):
		c.Fail("strict", "token %s reads %q at %d; without legal prefix it gives tree=%v", root, text, at, strict.node != nil)
	case strict.node != nil && strict.node.String() != want.String():
		c.Fail("strict", "token %s reads %q as %s, expected %s", root, text, strict.node, want)
	}
	switch {
	case want == nil:
		c.Event("texts read nowhere")
	case at == 0:
		c.Event("texts read at their beginning")
	default:
		c.Event("prefixes skipped")
		c.EventN("bytes skipped", at)
		c.Distinct(g.script(), root, text)
	}
}

func runL22(x *Ctx) {
	prefix := func(c *Case, long bool) {
		r := c.R
		o := gramOpts{tokens: r.Range(1, 5), recur: r.P(1, 2), channels: r.P(1, 3), nots: r.P(1, 4), specs: r.P(1, 4), switches: r.P(1, 6)}
		if long {
			o = gramOpts{tokens: r.Range(1, 2), channels: r.P(1, 6)}
		}
		g := drawGrammar(r, o)
		if long {
			g.spell(Pick(r, xSpellings))
		}
		c.Put("grammar", g.script())
		lex := xNewLexer()
		for k := 0; k < 4; k++ {
			root := Pick(r, g.tokens).name
			text := g.genText(r, root, r.Range(3, 12))
			if r.P(1, 3) {
				text = mutate(r, text, xAlpha+" _")
			}
			switch r.N(5) {
			case 0:
			case 1:
				text = r.Str("#@", r.Range(1, 4)) + text
			case 2:
				text = r.Str(xAlpha+" _", r.Range(1, 4)) + text
			case 3:
				part := g.genText(r, Pick(r, g.tokens).name, 6)
				text = part[:r.N(len(part)+1)] + r.Str("#"+xAlpha, r.N(2)) + text
			case 4:
				text = r.Str("é世", r.Range(1, 2)) + text
			}
			if long && k < 2 {
				text = strings.Repeat(Pick(r, []string{"~", "é", "世", "~\n", "\x80"}), r.Range(100, Pick(r, []int{300, 800, 1500}))) + text
			}
			if text == "" {
				continue
			}
			prefixL22(c, g, root, text, func(pre bool, suf bool) *xReal { return g.realAs(lex, root, text, pre, suf) })
		}
		c.Sample(g.script())
	}
	x.Each("prefix", x.Scale(5000, 120000), func(c *Case) { prefix(c, false) })
	// long prefixes, any characters
	x.Each("long", x.Scale(160, 4000), func(c *Case) { prefix(c, true) })
	// grammars split over files
	x.Each("linked", x.Scale(600, 12000), func(c *Case) {
		r := c.R
		root, flat, files := genSplit(r, "root")
		dir, clean := xScratch()
		defer clean()
		link, err := xLink(dir, files, r, 0)
		if err != nil {
			c.Fail("setup", "%v", err)
			return
		}
		for _, n := range sortedKeys(files) {
			c.Put("file "+n, files[n].head(NewRng("x"), 0)+files[n].g.script())
		}
		script := root.script(r, 0)
		for k := 0; k < 4; k++ {
			token := Pick(r, root.g.tokens).name
			text := flat.genText(r, token, r.Range(3, 12))
			if r.P(1, 4) {
				text = mutate(r, text, xAlpha+" _")
			}
			if r.P(4, 5) {
				text = Pick(r, []string{r.Str("#@", r.Range(1, 4)), r.Str(xAlpha+" _", r.Range(1, 4)), "é"}) + text
			}
			s, err := root.single(script, token, 0)
			if err != nil {
				c.Fail("resource", "%v", err)
				return
			}
			if text != "" {
				prefixL22(c, flat, token, text, func(pre bool, suf bool) *xReal { return link.readAs(s, text, pre, suf) })
				c.Event("texts of grammars split over files")
			}
		}
		c.Sample(flat.script())
	})
}
