//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"

	lastpaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	ctokens "github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	rpaths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
)

func init() {
	register(&Check{ID: "L19", Rule: "a case is non trivial when a grammar of at least two tokens was given and the path of each of its tokens was compared, whole, with the one expected of the grammar", Run: runL19, Assumptions: []string{
		"grammars whose references, written in place, take more than 60000 characters are left out: a path writes each reference in place"}})
}

// ---------------------------------------------------------------- L19

type xTooLong struct{}

// xPathText writes what the path of a token must be.
type xPathText struct {
	g     *xGrammar
	b     strings.Builder
	limit int
	rec   int // recursive references
	refs  int // references written in place
	specs int
}

func (w *xPathText) put(s string) {
	w.b.WriteString(s)
	if w.b.Len() > w.limit {
		panic(xTooLong{})
	}
}

func (w *xPathText) card(c xCard) { w.put(fmt.Sprintf("{%d,%d}", c.min, c.max)) }

func (w *xPathText) element(t *xToken, stack map[string]bool) {
	w.put(t.name + "(")
	w.lines(t.must, stack)
	if len(t.not) > 0 {
		w.put(" not ")
		w.lines(t.not, stack)
	}
	w.put(")")
}

func (w *xPathText) lines(list []xLine, stack map[string]bool) {
	for _, l := range list {
		w.put("|")
		for _, it := range l {
			if it.sw {
				w.put(" #")
				continue
			}
			w.elem(it.el, stack)
		}
	}
}

func (w *xPathText) elem(e *xElem, stack map[string]bool) {
	if e.rule != nil {
		w.put(" rule:" + e.rule.name)
		w.card(e.card)
		return
	}
	if stack[e.token] {
		w.rec++
		w.put(" recursive:" + e.token)
		w.card(e.card)
		w.spec(e.specs)
		return
	}
	w.refs++
	w.put(" token")
	w.card(e.card)
	w.spec(e.specs)
	stack[e.token] = true
	w.element(w.g.tok(e.token), stack)
	delete(stack, e.token)
}

func (w *xPathText) spec(list []xSpec) {
	for _, s := range list {
		w.specs++
		w.put("<" + s.name)
		w.card(s.card)
		w.put(">")
	}
}

// xPathWant writes the expected path of a token; ok is false when it is too long.
func xPathWant(g *xGrammar, name string) (out string, w *xPathText, ok bool) {
	w = &xPathText{g: g, limit: 60000}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(xTooLong); !is {
				panic(r)
			}
			ok = false
		}
	}()
	w.element(g.tok(name), map[string]bool{})
	return w.b.String(), w, true
}

// xPathGot writes an element of a path.
func xPathGot(b *strings.Builder, el lastpaths.Element) {
	b.WriteString(el.Name() + "(")
	xPathLines(b, el.Must())
	if el.HasNot() {
		b.WriteString(" not ")
		xPathLines(b, el.Not())
	}
	b.WriteString(")")
}

func xPathCard(b *strings.Builder, c cardinality.Cardinality) {
	low, high := c.Delimiter()
	max := -1
	if high != nil {
		max = int(*high)
	}
	fmt.Fprintf(b, "{%d,%d}", low, max)
}

func xPathSpecs(b *strings.Builder, list []lastpaths.Specifier) {
	for _, s := range list {
		low, max := 0, -1
		if s.Cardinality().IsAmount() {
			low = int(*s.Cardinality().Amount())
			max = low
		} else {
			low = int(s.Cardinality().Range().Min())
			if s.Cardinality().Range().HasMax() {
				max = int(*s.Cardinality().Range().Max())
			}
		}
		fmt.Fprintf(b, "<%s{%d,%d}>", s.ContainerName(), low, max)
	}
}

func xPathLines(b *strings.Builder, list []lastpaths.Line) {
	for _, l := range list {
		b.WriteString("|")
		for _, i := range l.Instructions() {
			if i.IsChannelSwitch() {
				if i.IsContainer() {
					b.WriteString(" switch and container")
				}
				b.WriteString(" #")
				continue
			}
			ct := i.Container()
			kinds := 0
			for _, is := range []bool{ct.IsRule(), ct.IsToken(), ct.IsRecursive(), ct.IsLines()} {
				if is {
					kinds++
				}
			}
			if kinds != 1 {
				fmt.Fprintf(b, " of %d kinds", kinds)
			}
			switch {
			case ct.IsRule():
				b.WriteString(" rule:" + ct.Rule().Base().Name())
				xPathCard(b, ct.Rule().Cardinality())
			case ct.IsRecursive():
				b.WriteString(" recursive:" + ct.Recursive().Name())
				xPathCard(b, ct.Recursive().Cardinality())
				if ct.Recursive().HasSpecifiers() {
					xPathSpecs(b, ct.Recursive().Specifiers())
				}
			case ct.IsToken():
				b.WriteString(" token")
				xPathCard(b, ct.Token().Cardinality())
				if ct.Token().Path().HasSpecifiers() {
					xPathSpecs(b, ct.Token().Path().Specifiers())
				}
				xPathGot(b, ct.Token().Path().Element())
			}
			x, y := ct.Cardinality().Delimiter()
			var other cardinality.Cardinality
			switch {
			case ct.IsRule():
				other = ct.Rule().Cardinality()
			case ct.IsRecursive():
				other = ct.Recursive().Cardinality()
			case ct.IsToken():
				other = ct.Token().Cardinality()
			}
			if other != nil {
				if p, q := other.Delimiter(); p != x || (q == nil) != (y == nil) || q != nil && *q != *y {
					b.WriteString(" of another cardinality")
				}
			}
		}
	}
}

func xPathString(p lastpaths.Path) string {
	var b strings.Builder
	xPathGot(&b, p.Element())
	return b.String()
}

func xElementString(e lastpaths.Element) string {
	var b strings.Builder
	xPathGot(&b, e)
	return b.String()
}

func (g *xGrammar) pathResource(root string) (rpaths.Path, error) {
	ct, err := containers.NewBuilder().Create().WithPatterns(g.patternsScript()).WithRules(g.rulesScript()).WithTokens(xTokensScript(g.tokens)).Now()
	if err != nil {
		return nil, err
	}
	return rpaths.NewBuilder().Create().WithRootToken(root).WithContainer(ct).Now()
}

// genPathGrammar draws a grammar whose references go anywhere.
func genPathGrammar(r *Rng) *xGrammar {
	g := genGrammar(r, gramOpts{tokens: r.Range(2, 6), recur: r.P(1, 2), nots: r.P(1, 2), specs: r.P(2, 3), switches: r.P(1, 2)})
	if r.P(1, 12) {
		// many lines
		t := Pick(r, g.tokens)
		for k := Pick(r, []int{14, 40, 260}); k > 0; k-- {
			l := xLine{}
			for n := r.Range(1, 2); n > 0; n-- {
				l = append(l, xItem{el: &xElem{rule: Pick(r, g.rules), card: genCard(r)}})
			}
			if r.P(1, 4) && len(t.not) > 0 {
				t.not = append(t.not, l)
				continue
			}
			t.must = append(t.must, l)
		}
	}
	for _, t := range g.tokens {
		for _, lines := range [][]xLine{t.must, t.not} {
			for _, l := range lines {
				if len(l) < 2 {
					continue
				}
				for i := range l {
					if l[i].sw || l[i].el.rule == nil || !r.P(1, 4) {
						continue
					}
					l[i].el = &xElem{token: Pick(r, g.tokens).name, card: l[i].el.card}
					genSpecs(r, g, gramOpts{specs: true}, l[i].el)
				}
			}
		}
	}
	return g
}

// alone tells whether a line of the token holds a single element, a reference to the token itself.
func (t *xToken) alone() bool {
	for _, lines := range [][]xLine{t.must, t.not} {
		for _, l := range lines {
			n, self := 0, false
			for _, it := range l {
				if it.sw {
					continue
				}
				n++
				self = it.el.token == t.name
			}
			if n == 1 && self {
				return true
			}
		}
	}
	return false
}

func runL19(x *Ctx) {
	x.Each("paths", x.Scale(4000, 60000), func(c *Case) {
		r := c.R
		var g *xGrammar
		want := map[string]string{}
		for try := 0; ; try++ {
			g = genPathGrammar(r)
			ok := true
			for _, t := range g.tokens {
				s, w, fine := xPathWant(g, t.name)
				if !fine || t.alone() {
					ok = false
					break
				}
				want[t.name] = s
				c.EventN("recursive references", w.rec)
				c.EventN("references written in place", w.refs)
				c.EventN("specifiers", w.specs)
			}
			if ok {
				break
			}
			want = map[string]string{}
		}
		c.Put("grammar", g.script())
		lex := xNewLexer()
		// the lexer builds an adapter for each path, other users keep one
		var own lastpaths.Adapter
		var ownTokens ctokens.Tokens
		if r.P(1, 3) {
			res, err := g.pathResource(g.tokens[0].name)
			if err != nil {
				c.Fail("resource", "%v", err)
				return
			}
			list, err := lex.Tokens(res.Container())
			if err != nil {
				c.Fail("refused", "the tokens were refused: %v", err)
				return
			}
			own, err = lastpaths.NewAdapterBuilder().Create().WithTokens(list).Now()
			if err != nil {
				c.Fail("refused", "the adapter was refused: %v", err)
				return
			}
			c.Event("adapters kept for several paths")
			ownTokens = list
		}
		order := r.Perm(len(g.tokens))
		if r.P(1, 2) {
			order = append(order, order[0])
		}
		kept := []lastpaths.Path{}
		names := []string{}
		for _, i := range order {
			name := g.tokens[i].name
			res, err := g.pathResource(name)
			if err != nil {
				c.Fail("resource", "%v", err)
				return
			}
			var p lastpaths.Path
			if own != nil {
				var t ctokens.Token
				if t, err = ownTokens.Find(name); err == nil {
					p, err = own.ToPath(t)
				}
			} else {
				p, err = lex.Path(res)
			}
			if err != nil {
				c.Fail("refused", "the path of %q was refused: %v", name, err)
				return
			}
			xJudgePath(c, g, name, p, want, "")
			kept = append(kept, p)
			names = append(names, name)
		}
		for i, p := range kept {
			xJudgePath(c, g, names[i], p, want, ", once others were asked")
		}
		if len(g.tokens) > 1 {
			c.Distinct(g.script())
		}
		c.Sample(g.script())
	})

	x.Each("refused", x.Scale(1500, 20000), func(c *Case) {
		r := c.R
		var g *xGrammar
		for {
			g = genPathGrammar(r)
			bad := false
			for _, t := range g.tokens {
				if _, _, fine := xPathWant(g, t.name); !fine || t.alone() {
					bad = true
				}
			}
			if !bad {
				break
			}
		}
		kind := r.N(3)
		root := Pick(r, g.tokens).name
		t := Pick(r, g.tokens)
		switch kind {
		case 0:
			// a token that is nowhere
			l := t.must[r.N(len(t.must))]
			l[r.N(len(l))] = xItem{el: &xElem{token: "nowhere", card: genCard(r)}}
		case 1:
			// a token made of itself only
			l := xLine{xItem{el: &xElem{token: t.name, card: genCard(r)}}}
			if r.P(1, 2) {
				l = append(l, xItem{sw: true})
			}
			if r.P(1, 4) {
				t.not = append(t.not, l)
			} else {
				at := r.N(len(t.must) + 1)
				t.must = append(t.must[:at:at], append([]xLine{l}, t.must[at:]...)...)
			}
		case 2:
			root = "nowhere"
		}
		c.Put("grammar", g.script())
		c.Put("root", root)
		res, err := g.pathResource(root)
		if err != nil {
			c.Event("refused as a resource")
			return
		}
		p, err := xNewLexer().Path(res)
		if err == nil || p != nil {
			c.Fail("accepted", "kind %d: the path of %q was given", kind, root)
			return
		}
		c.Event(fmt.Sprintf("refused, kind %d", kind))
		c.Distinct("refused", g.script(), root)
	})
}

func xJudgePath(c *Case, g *xGrammar, name string, p lastpaths.Path, want map[string]string, when string) {
	if got := xPathString(p); got != want[name] {
		c.Fail("path", "the path of %q is %s, expected %s%s", name, cut(got, 600), cut(want[name], 600), when)
	}
	all := []string{}
	for _, e := range p.Dependencies().All() {
		all = append(all, e.Name())
		if got := xElementString(e); got != want[e.Name()] {
			c.Fail("dependency", "in the path of %q, %q is %s, expected %s%s", name, e.Name(), cut(got, 600), cut(want[e.Name()], 600), when)
		}
	}
	expected := []string{}
	for _, t := range g.tokens {
		expected = append(expected, t.name)
		e, err := p.Dependencies().Fetch(t.name)
		if err != nil || e.Name() != t.name || xElementString(e) != want[t.name] {
			c.Fail("dependency", "the path of %q does not give the token %q: %v%s", name, t.name, err, when)
		}
	}
	if p.Dependencies().IsEmpty() {
		c.Fail("dependency", "the path of %q says that it has no dependency%s", name, when)
	}
	if e, err := p.Dependencies().Fetch("nowhere"); err == nil || e != nil {
		c.Fail("dependency", "the path of %q gives a token that is nowhere%s", name, when)
	}
	combined := []string{}
	for _, e := range p.CombinedElements() {
		combined = append(combined, e.Name())
	}
	sort.Strings(all)
	sort.Strings(expected)
	if fmt.Sprint(all) != fmt.Sprint(expected) {
		c.Fail("dependencies", "the path of %q holds the tokens %v, expected %v%s", name, all, expected, when)
	}
	sort.Strings(combined)
	both := append([]string{name}, expected...)
	sort.Strings(both)
	if fmt.Sprint(combined) != fmt.Sprint(both) {
		c.Fail("dependencies", "the path of %q combines %v, expected %v%s", name, combined, both, when)
	}
	c.Event("paths compared")
	c.EventN("dependencies compared", len(all))
}
