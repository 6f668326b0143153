//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	lapaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/domain/languages/lexers/suites"
)

func init() {
	assume := []string{"channels of a grammar never match at the same position, as the order in which they are tried is not defined",
		"grammars are not left recursive"}
	register(&Check{ID: "L06", Rule: "a case is non trivial when at least one text was accepted and its whole tree and root were walked; distinct = grammar + text", Run: runL06, Assumptions: assume})
	register(&Check{ID: "L07", Rule: "a case is a history of readings on shared instances, each compared with a fresh instance", Run: runL07, Assumptions: assume})
	register(&Check{ID: "L08", Rule: "a case is non trivial when at least one text was refused with a mistake that was inspected", Run: runL08, Assumptions: assume})
	register(&Check{ID: "L11", Rule: "a case is non trivial when a grammar with test suites was run and each line compared with lexing its text alone", Run: runL11, Assumptions: append([]string{"test texts hold neither the delimiter of test texts nor the end of tokens, and the white space that ends the last text is layout"}, assume...)})
}

// ---------------------------------------------------------------- L06

type xWalk struct {
	c     *Case
	nodes int
	names map[string]int
}

func (w *xWalk) token(t asts.Token) string {
	w.nodes++
	text := ""
	if !t.Match().HasMatches() {
		w.c.Fail("empty", "a %s without parts is in the tree", t.Name())
		return ""
	}
	for i, m := range t.Match().Matches() {
		if m.IsToken() == m.IsRule() {
			w.c.Fail("kind", "part %d of %s is token=%v rule=%v", i, t.Name(), m.IsToken(), m.IsRule())
			continue
		}
		if m.IsToken() {
			subs := m.Token().Matches()
			given := m.Token().Discoveries()
			if len(given) != len(subs) {
				w.c.Fail("discoveries", "part %d of %s has %d sub tokens and %d texts", i, t.Name(), len(subs), len(given))
				continue
			}
			for j, s := range subs {
				got := w.token(s)
				if given[j] != got {
					w.c.Fail("discoveries", "sub token %d of part %d of %s has the text %q, expected %q", j, i, t.Name(), given[j], got)
				}
				text += got
			}
			w.names[m.Token().Token()] += len(subs)
			continue
		}
		res := m.Rule().Result()
		sum := ""
		for _, d := range res.Discoveries().All() {
			sum += d.Content()
		}
		if sum != res.Discoveries().Content() || int(res.Discoveries().Amount()) != len(sum) {
			w.c.Fail("rule", "the rule %s holds %q, its text is %q (%d)", m.Rule().Rule(), sum, res.Discoveries().Content(), res.Discoveries().Amount())
		}
		if res.Prefix()+sum+res.Suffix() != res.Input() || res.HasPrefix() != (res.Prefix() != "") || res.HasSuffix() != (res.Suffix() != "") {
			w.c.Fail("input", "the rule %s read %q from %q, with %q before and %q after", m.Rule().Rule(), sum, res.Input(), res.Prefix(), res.Suffix())
		}
		if res.Prefix() != "" {
			w.c.Fail("prefix", "the rule %s skips %q", m.Rule().Rule(), res.Prefix())
		}
		text += sum
		w.names[m.Rule().Rule()]++
	}
	if t.Discovery() != text {
		w.c.Fail("token", "the token %s has the text %q, its parts %q", t.Name(), t.Discovery(), text)
	}
	return text
}

// occurrences lists the texts under that name at or below the root's nodes.
func xBelow(r roots.Root, into map[string]map[string]bool) {
	for name, node := range r.Nodes().All() {
		if into[name] == nil {
			into[name] = map[string]bool{}
		}
		into[name][node.Content()] = true
		for _, c := range node.Containers().List() {
			into[name][c.Content()] = true
			if c.HasRoot() {
				xBelow(c.Root(), into)
			}
		}
	}
}

// xScanned gives the name and text of what a scan returned.
func xScanned(r roots.Root, n roots.Node, k roots.Container, s string) (string, string, int) {
	count, name, text := 0, "", ""
	if r != nil {
		count, name, text = count+1, r.Name(), r.Content()
	}
	if n != nil {
		count, name, text = count+1, n.Name(), n.Content()
	}
	if k != nil {
		count, name, text = count+1, k.Name(), k.Content()
	}
	if s != "" {
		count, text = count+1, s
	}
	return name, text, count
}

func (w *xWalk) root(r roots.Root, absent string) {
	below := map[string]map[string]bool{}
	xBelow(r, below)
	all := r.Nodes().All()
	if int(r.Nodes().Amount()) != len(all) {
		w.c.Fail("amount", "%s holds %d nodes, it says %d", r.Name(), len(all), r.Nodes().Amount())
	}
	names := sortedKeys(below)
	for _, name := range append(names, absent) {
		_, direct := all[name]
		if r.Nodes().Exists(name) != direct {
			w.c.Fail("exists", "%s says that %s exists=%v, expected %v", r.Name(), name, r.Nodes().Exists(name), direct)
		}
		node, err := r.Nodes().Fetch(name)
		if (err == nil) != direct || (direct && (node.Name() != name || node.Content() != all[name].Content())) {
			w.c.Fail("fetch", "%s fetched %s: %v, expected %v", r.Name(), name, err, direct)
		}
		rt, nd, ct, s, err := r.Nodes().Scan(name)
		if name == absent {
			if err == nil {
				w.c.Fail("scan", "%s found the unknown %s", r.Name(), name)
			}
			continue
		}
		if err != nil {
			w.c.Fail("scan", "%s did not find %s, which it holds", r.Name(), name)
			continue
		}
		got, text, n := xScanned(rt, nd, ct, s)
		if n != 1 || got != name || !below[name][text] {
			w.c.Fail("scan", "%s scanned for %s gives %d elements: %s %q", r.Name(), name, n, got, text)
		}
		if direct && text != all[name].Content() {
			w.c.Fail("scan", "%s scanned for its node %s gives %q, expected %q", r.Name(), name, text, all[name].Content())
		}
		w.nodes++
	}
	if me, _, _, _, err := r.Scan(r.Name()); err != nil || me == nil || me.Content() != r.Content() {
		w.c.Fail("scan", "%s scanned for itself gives %v (%v)", r.Name(), me, err)
	}
	for _, node := range all {
		whole := ""
		for _, c := range node.Containers().List() {
			whole += c.Content()
			if c.Name() != node.Name() {
				w.c.Fail("container", "a container of the node %s is named %s", node.Name(), c.Name())
			}
			if c.HasRoot() {
				if c.Root().Content() != c.Content() {
					w.c.Fail("container", "a container of %s holds %q, its root %q", node.Name(), c.Content(), c.Root().Content())
				}
				w.root(c.Root(), absent)
			}
		}
		if whole != node.Content() || whole != node.Containers().Content() {
			w.c.Fail("node", "the node %s holds %q, its content is %q", node.Name(), whole, node.Content())
		}
		if one, err := node.Containers().Fetch(node.Name()); err != nil || one.Name() != node.Name() {
			w.c.Fail("container", "the containers of %s do not give it: %v", node.Name(), err)
		}
	}
}

func runL06(x *Ctx) {
	x.Each("tree", x.Scale(6000, 150000), func(c *Case) {
		r := c.R
		o := gramOpts{tokens: r.Range(1, 6), recur: r.P(2, 3), channels: r.P(1, 2), nots: r.P(1, 5), specs: r.P(1, 5), switches: r.P(1, 5)}
		g := drawGrammar(r, o)
		c.Put("grammar", g.script())
		for k := 0; k < 4; k++ {
			text := g.genText(r, g.root, r.Range(6, 40))
			if r.P(1, 4) {
				text = mutate(r, text, xAlpha+" _")
			}
			if text == "" {
				continue
			}
			if _, _, ok := g.recognize(g.root, text, 2500); !ok {
				c.Event("texts skipped, too costly")
				continue
			}
			c.Put("text", text)
			got := g.real(xNewLexer(), g.root, text)
			if got.err != nil {
				c.Fail("error", "%s: %v", got.where, got.err)
				continue
			}
			if got.node == nil {
				c.Event("texts refused")
				continue
			}
			w := &xWalk{c: c, names: map[string]int{}}
			whole := w.token(got.ast.Success())
			if !strings.HasPrefix(text, whole) || whole == "" {
				c.Fail("start", "the tree of %q holds %q", text, whole)
			}
			if got.root == nil || got.root.Content() != whole || got.root.Name() != g.root {
				c.Fail("root", "the root of %q does not hold %q", text, whole)
				continue
			}
			// the root holds what the tree holds
			if a, b := got.node.rootString(), xRootString(got.root); a != b {
				c.Fail("root", "the tree of %q is %s, its root %s", text, a, b)
			}
			w.root(got.root, "absentelement")
			c.Event("trees walked")
			c.EventN("nodes walked", w.nodes)
			c.Distinct(g.script(), text)
		}
		c.Sample(g.script())
	})
}

// ---------------------------------------------------------------- L07

func xMistakeString(m mistakes.Mistake) string {
	if m == nil {
		return "none"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d/%d/%d", m.Index().Index(), m.Index().Line(), m.Index().Column())
	k := m.Path().Container()
	if k.IsRule() {
		b.WriteString(" rule " + k.Rule())
	}
	if k.IsToken() {
		b.WriteString(" token " + k.Token())
	}
	if m.Path().HasParents() {
		b.WriteString(" of " + strings.Join(m.Path().Parents(), ">"))
	}
	t := m.Content()
	switch {
	case t.IsTokenHasNoMatch():
		b.WriteString(" no match")
	case t.IsContainsValidNotMatch():
		fmt.Fprintf(&b, " not line %d", t.ContainsValidNotMatch().Line())
	case t.IsSpecifierDoNotMatch():
		fmt.Fprintf(&b, " specifier %s %d", t.SpecifierDoNotMatch().ContainerName(), t.SpecifierDoNotMatch().Amount())
	case t.IsContainsNextElement():
		fmt.Fprintf(&b, " next %v", xNextString(t))
	case t.IsCardinalityIsInvalid():
		fmt.Fprintf(&b, " amount %d", t.CardinalityIsInvalid().Amount())
	case t.IsContainsPrefix():
		fmt.Fprintf(&b, " prefix %q", t.ContainsPrefix().Prefix())
	}
	return b.String()
}

func xNextString(t mistakes.Content) string {
	n := t.ContainsNextElement().NextElement()
	if n.IsConstant() {
		return n.Constant()
	}
	if n.IsPattern() {
		return "a pattern"
	}
	return "nothing"
}

// full renders everything a reading gave.
func (x *xReal) full() string {
	if x.err != nil {
		return "error in " + x.where
	}
	out := ""
	if x.node != nil {
		out = "tree " + xFromAST(x.ast.Success()).String()
	}
	if x.mistake != nil {
		out += "mistake " + xMistakeString(x.mistake)
	}
	if x.root != nil {
		out += " root " + xRootString(x.root)
	}
	return out
}

type xJob struct {
	g    *xGrammar
	root string
	text string
	bad  string // a way in which the grammar's scripts are spoiled
}

func (j *xJob) run(lex lexers.Application) *xReal {
	if j.bad != "" {
		out := &xReal{}
		m, err := xMultiple(j.g.patternsScript(), j.g.rulesScript(), j.bad+xTokensScript(j.g.tokens), "")
		if err == nil {
			_, err = lex.Tests(m)
		}
		if err == nil {
			_, err = lex.Tokens(m.Container())
		}
		if err != nil {
			out.err, out.where = err, "malformed"
		}
		return out
	}
	return j.g.real(lex, j.root, j.text)
}

func runL07(x *Ctx) {
	x.Each("history", x.Scale(1600, 40000), func(c *Case) {
		r := c.R
		grams := []*xGrammar{}
		for k := r.Range(1, 3); k > 0; k-- {
			grams = append(grams, drawGrammar(r, gramOpts{tokens: r.Range(1, 5), recur: r.P(2, 3), channels: r.P(1, 2), nots: r.P(1, 3), specs: r.P(1, 3), switches: r.P(1, 4)}))
		}
		jobs := []*xJob{}
		for k := r.Range(4, 9); k > 0; k-- {
			g := Pick(r, grams)
			j := &xJob{g: g, root: Pick(r, g.tokens).name}
			if r.P(1, 10) {
				j.bad = Pick(r, []string{"tz: UNKNOWN;", "(", "tz:", "include a \"x\"", "reference tz no.tz"})
			} else {
				j.text = g.genText(r, j.root, r.Range(3, 14))
				if r.P(1, 2) {
					j.text = mutate(r, j.text, xAlpha+" _")
				}
				if j.text == "" {
					continue
				}
				if _, _, ok := g.recognize(j.root, j.text, 1500); !ok {
					continue
				}
			}
			jobs = append(jobs, j)
		}
		if len(jobs) == 0 {
			return
		}
		// each alone
		want := []string{}
		for _, j := range jobs {
			want = append(want, j.run(xNewLexer()).full())
		}
		// all on one instance, in a random order with repetitions
		shared := xNewLexer()
		kept := []*xReal{}
		which := []int{}
		order := r.Perm(len(jobs))
		for k := r.Range(2, 6); k > 0; k-- {
			order = append(order, r.N(len(jobs)))
		}
		for n, i := range order {
			got := jobs[i].run(shared)
			if s := got.full(); s != want[i] {
				c.Put("grammar", jobs[i].g.script())
				c.Fail("history", "reading %d of the history: %q as %s gives %s, alone it gives %s", n, jobs[i].text, jobs[i].root, s, want[i])
			}
			kept = append(kept, got)
			which = append(which, i)
			// observing alters nothing
			if got.root != nil {
				for _, name := range sortedKeys(got.root.Nodes().All()) {
					got.root.Scan(name)
					got.root.Nodes().Scan("absentelement")
					nd, _ := got.root.Nodes().Fetch(name)
					nd.Containers().Scan(name)
				}
			}
			c.Event("readings in a history")
		}
		for n, got := range kept {
			if s := got.full(); s != want[which[n]] {
				c.Put("grammar", jobs[which[n]].g.script())
				c.Fail("later", "result %d of the history changed: %s, it was %s", n, s, want[which[n]])
			}
		}
		c.Distinct(strings.Join(want, "\n"), fmt.Sprint(order))
	})
	// grammars split over files, which name their includes, references and tokens alike
	x.Each("linked", x.Scale(600, 15000), func(c *Case) {
		r := c.R
		dir, clean := xScratch()
		defer clean()
		type split struct {
			root   *xFile
			flat   *xGrammar
			script string
		}
		list := []split{}
		collide := r.N(3)
		for k := r.Range(2, 3); k > 0; k-- {
			root, flat, files := genSplit(r, "root"+string("xyz"[k-1]))
			if _, err := xLink(dir, files, r, collide); err != nil {
				c.Fail("setup", "%v", err)
				return
			}
			list = append(list, split{root, flat, root.script(r, collide)})
			for _, n := range sortedKeys(files) {
				c.Put("file "+n, files[n].head(NewRng("x"), collide)+files[n].g.shown(collide).script())
			}
		}
		shared, err := xLinkedTo(dir)
		if err != nil {
			c.Fail("setup", "%v", err)
			return
		}
		type job struct {
			split
			tok, text, alone string
		}
		jobs := []job{}
		for k := r.Range(4, 8); k > 0; k-- {
			j := job{split: Pick(r, list)}
			j.tok = Pick(r, j.root.g.tokens).name
			if r.P(1, 2) {
				j.tok = j.root.g.root
			}
			j.text = j.flat.genText(r, j.tok, r.Range(4, 14))
			if r.P(1, 5) {
				j.text = mutate(r, j.text, "abcd _")
			}
			if j.text == "" {
				continue
			}
			if _, _, ok := j.flat.recognize(j.tok, j.text, 1500); !ok {
				continue
			}
			jobs = append(jobs, j)
		}
		run := func(k *xLinked, j job) *xReal {
			s, err := j.root.single(j.script, j.tok, collide)
			if err != nil {
				return &xReal{err: err, where: "resource"}
			}
			return k.read(s, j.text)
		}
		for i := range jobs {
			fresh, err := xLinkedTo(dir)
			if err != nil {
				c.Fail("setup", "%v", err)
				return
			}
			jobs[i].alone = run(fresh, jobs[i]).full()
		}
		kept := []*xReal{}
		which := []int{}
		order := r.Perm(len(jobs))
		for k := r.Range(1, 4); k > 0 && len(jobs) > 0; k-- {
			order = append(order, r.N(len(jobs)))
		}
		for n, i := range order {
			got := run(shared, jobs[i])
			if s := got.full(); s != jobs[i].alone {
				c.Fail("linked", "reading %d of the history: %q as %s gives %s, alone it gives %s", n, jobs[i].text, jobs[i].tok, s, jobs[i].alone)
			}
			if strings.Contains(jobs[i].alone, "ref") {
				c.Event("readings through references in a history")
			}
			kept = append(kept, got)
			which = append(which, i)
			c.Event("readings of files in a history")
		}
		for n, got := range kept {
			if s := got.full(); s != jobs[which[n]].alone {
				c.Fail("later", "result %d of the history changed: %s, it was %s", n, s, jobs[which[n]].alone)
			}
		}
		if len(jobs) > 0 {
			c.Distinct(list[0].script, list[1].script)
		}
	})
	x.Each("adapters", x.Scale(3000, 60000), func(c *Case) {
		r := c.R
		g := drawGrammar(r, gramOpts{tokens: r.Range(2, 5), recur: r.P(2, 3), channels: r.P(1, 2), nots: r.P(1, 3), specs: r.P(1, 3)})
		c.Put("grammar", g.script())
		// one adapter for many scripts, against an adapter per script
		build := func() (tokens.Tokens, tokens.Tokens) {
			pt, err := patterns.NewAdapter().ToPatterns(g.patternsScript())
			if err != nil {
				c.Fail("patterns", "%v", err)
				return nil, nil
			}
			ru, err := rules.NewAdapter().Rules(g.rulesScript(), pt)
			if err != nil {
				c.Fail("rules", "%v", err)
				return nil, nil
			}
			ad, err := tokens.NewAdapterBuilder().Create().WithRules(ru).Now()
			if err != nil {
				c.Fail("tokens", "%v", err)
				return nil, nil
			}
			tk, err := ad.ToTokens(xTokensScript(g.tokens))
			if err != nil {
				c.Fail("tokens", "%v", err)
				return nil, nil
			}
			if len(g.channels) == 0 {
				return tk, nil
			}
			ch, err := ad.ToTokens(xTokensScript(g.channels))
			if err != nil {
				c.Fail("channels", "%v", err)
				return nil, nil
			}
			return tk, ch
		}
		prefixed := r.P(1, 3)
		adapter := func() asts.Adapter {
			tk, ch := build()
			if tk == nil {
				return nil
			}
			rt, err := tk.Find(g.root)
			if err != nil {
				c.Fail("tokens", "%v", err)
				return nil
			}
			b := asts.NewAdapterBuilder().Create().WithRoot(rt).WithTokens(tk)
			if ch != nil {
				b.WithChannels(ch)
			}
			if prefixed {
				b.CanContainPrefix()
			}
			ad, err := b.Now()
			if err != nil {
				c.Fail("adapter", "%v", err)
				return nil
			}
			return ad
		}
		one := adapter()
		if one == nil {
			return
		}
		read := func(ad asts.Adapter, text string) string {
			res, err := ad.ToAST(text)
			if err != nil {
				return "error"
			}
			if res.IsMistake() {
				return "mistake " + xMistakeString(res.Mistake())
			}
			return xFromAST(res.Success()).String()
		}
		type res struct{ text, got string }
		all := []res{}
		for k := 0; k < 5; k++ {
			text := g.genText(r, g.root, r.Range(3, 14))
			if r.P(1, 2) {
				text = mutate(r, text, xAlpha+" _")
			}
			if n := len(all); n > 0 && r.P(1, 4) {
				// the end of a text that was just read
				text = all[n-1].text[r.N(len(all[n-1].text)):]
			} else if r.P(1, 3) {
				text = r.Str(xAlpha+"#", r.Range(1, 3)) + text
			}
			if text == "" {
				continue
			}
			costly := false
			for i := 0; i < len(text) && !costly; i++ {
				_, _, ok := g.recognize(g.root, text[i:], 1500)
				costly = !ok
			}
			if costly {
				continue
			}
			got := read(one, text)
			if want := read(adapter(), text); got != want {
				c.Fail("adapter", "a used adapter reads %q as %s, a fresh one as %s", text, got, want)
			}
			all = append(all, res{text, got})
			c.Event("readings of a used adapter")
		}
		for _, a := range all {
			if got := read(one, a.text); got != a.got {
				c.Fail("adapter", "an adapter reads %q as %s, earlier as %s", a.text, got, a.got)
			}
		}
		// paths of an adapter are not altered by the next ones
		tk, _ := build()
		if tk == nil {
			return
		}
		pa, err := lapaths.NewAdapterBuilder().Create().WithTokens(tk).Now()
		if err != nil {
			c.Fail("paths", "%v", err)
			return
		}
		names := func(p lapaths.Path) string {
			l := []string{}
			for _, e := range p.Dependencies().All() {
				l = append(l, e.Name())
			}
			return p.Element().Name() + ":" + strings.Join(l, ",")
		}
		paths := []lapaths.Path{}
		before := []string{}
		for k := 0; k < 4; k++ {
			t, err := tk.Find(Pick(r, g.tokens).name)
			if err != nil {
				c.Fail("tokens", "%v", err)
				return
			}
			p, err := pa.ToPath(t)
			if err != nil {
				c.Fail("paths", "%v", err)
				return
			}
			paths = append(paths, p)
			before = append(before, names(p))
			for i, old := range paths {
				if s := names(old); s != before[i] {
					c.Fail("paths", "the path of call %d was %s, after call %d it is %s", i, before[i], k, s)
				}
			}
			c.Event("paths watched")
		}
		c.Distinct(g.script())
	})
}

// ---------------------------------------------------------------- L08

// position tells if the position is the one of some part of the text.
func xPositionOf(text string, idx int, line int, col int) bool {
	if idx < 0 || idx > len(text) {
		return false
	}
	for s := 0; s+idx <= len(text); s++ {
		part := text[s : s+idx]
		if strings.Count(part, "\n") != line {
			continue
		}
		tail := len(part[strings.LastIndex(part, "\n")+1:])
		if tail > 0 {
			tail--
		}
		if tail == col {
			return true
		}
	}
	return false
}

// refers tells if a token uses another one in one of its lines.
func (g *xGrammar) refers(from string, to string) bool {
	for _, list := range [][]*xToken{g.tokens, g.channels} {
		for _, t := range list {
			if t.name != from {
				continue
			}
			for _, l := range append(append([]xLine{}, t.must...), t.not...) {
				for _, it := range l {
					if !it.sw && it.el.token == to {
						return true
					}
				}
			}
		}
	}
	return false
}

// holds tells if a token uses a rule in one of its lines.
func (g *xGrammar) holds(token string, rule string) bool {
	t := g.tok(token)
	if t == nil {
		return false
	}
	for _, l := range append(append([]xLine{}, t.must...), t.not...) {
		for _, it := range l {
			if !it.sw && it.el.rule != nil && it.el.rule.name == rule {
				return true
			}
		}
	}
	return false
}

func (g *xGrammar) checkMistake(c *Case, m mistakes.Mistake, root string, text string) {
	i, l, k := int(m.Index().Index()), int(m.Index().Line()), int(m.Index().Column())
	if !xPositionOf(text, i, l, k) {
		c.Fail("position", "a mistake of %q is at index %d, line %d, column %d", text, i, l, k)
	}
	if i > 0 {
		c.Event("mistakes after the beginning")
	}
	if l > 0 {
		c.Event("mistakes after the first line")
	}
	box := m.Path().Container()
	if box.IsRule() == box.IsToken() {
		c.Fail("name", "a mistake of %q has rule=%v token=%v", text, box.IsRule(), box.IsToken())
	}
	if box.IsRule() {
		known := false
		for _, ru := range g.rules {
			known = known || ru.name == box.Rule()
		}
		if !known {
			c.Fail("name", "a mistake of %q names the unknown rule %q", text, box.Rule())
		}
	}
	var tok *xToken
	if box.IsToken() {
		if tok = g.tok(box.Token()); tok == nil {
			c.Fail("name", "a mistake of %q names the unknown token %q", text, box.Token())
		}
	}
	prev := ""
	if m.Path().HasParents() {
		for n, p := range m.Path().Parents() {
			if n == 0 && p != root {
				c.Fail("parents", "the first parent of a mistake of %q is %s, the root is %s", text, p, root)
			}
			if g.tok(p) == nil || (prev != "" && !g.refers(prev, p)) {
				c.Fail("parents", "the parents of a mistake of %q are %v", text, m.Path().Parents())
			}
			prev = p
		}
		if box.IsToken() && tok != nil && !g.refers(prev, tok.name) {
			c.Fail("parents", "the parents of a mistake of %q are %v, the last does not use %s", text, m.Path().Parents(), tok.name)
		}
	}
	// without parents, it is a mistake of the root itself; a rule is one of the token that holds it
	if box.IsToken() && prev == "" && box.Token() != root {
		c.Fail("parents", "a mistake of %q names %s, without its parents up to the root %s", text, box.Token(), root)
	}
	if box.IsRule() {
		holders := []string{root}
		if prev != "" {
			holders = []string{}
			for _, t := range g.tokens {
				if g.refers(prev, t.name) {
					holders = append(holders, t.name)
				}
			}
		}
		held := false
		for _, h := range holders {
			held = held || g.holds(h, box.Rule())
		}
		if !held {
			c.Fail("parents", "a mistake of %q names the rule %s, with the parents %v: no token there holds it", text, box.Rule(), holders)
		}
		c.Event("mistakes in a rule")
	}
	if prev != "" {
		c.Event("mistakes below the root")
	}
	t := m.Content()
	kinds := 0
	if t.IsTokenHasNoMatch() {
		kinds++
		c.Event("mistakes: no match")
	}
	if t.IsContainsValidNotMatch() {
		kinds++
		c.Event("mistakes: not block")
		if tok != nil && int(t.ContainsValidNotMatch().Line()) >= len(tok.not) {
			c.Fail("content", "a mistake of %q is in line %d of the not block of %s", text, t.ContainsValidNotMatch().Line(), tok.name)
		}
	}
	if t.IsSpecifierDoNotMatch() {
		kinds++
		c.Event("mistakes: specifier")
		if sp := t.SpecifierDoNotMatch(); sp.Cardinality().IsValid(sp.Amount()) {
			c.Fail("content", "a mistake of %q says that %d is a wrong amount of %s", text, sp.Amount(), sp.ContainerName())
		}
	}
	if t.IsContainsNextElement() {
		kinds++
		c.Event("mistakes: next element")
		if n := t.ContainsNextElement().NextElement(); n.IsConstant() == n.IsPattern() {
			c.Fail("content", "a mistake of %q expects nothing", text)
		}
	}
	if t.IsCardinalityIsInvalid() {
		kinds++
		c.Event("mistakes: cardinality")
		if ca := t.CardinalityIsInvalid(); ca.Cardinality().IsValid(ca.Amount()) {
			c.Fail("content", "a mistake of %q says that %d is a wrong amount", text, ca.Amount())
		}
	}
	if t.IsContainsPrefix() {
		kinds++
		c.Event("mistakes: prefix")
		if p := t.ContainsPrefix().Prefix(); p == "" || !strings.Contains(text, p) {
			c.Fail("content", "a mistake of %q is the prefix %q", text, p)
		}
	}
	if kinds != 1 {
		c.Fail("content", "a mistake of %q has %d contents", text, kinds)
	}
}

func runL08(x *Ctx) {
	x.Each("refused", x.Scale(6000, 150000), func(c *Case) {
		r := c.R
		o := gramOpts{tokens: r.Range(1, 6), recur: r.P(1, 2), channels: r.P(1, 2), nots: r.P(1, 3), specs: r.P(1, 3), switches: r.P(1, 5)}
		if r.P(1, 3) {
			// white space that the rules themselves read, for the lines and columns
			o.alpha = Pick(r, []string{"a\n", "a\t", "ab\n\t", "\n\ta", " \na", "\t\na ", "a\r\n"})
			if o.channels = r.P(1, 4); o.channels {
				o.overlap = true
			}
		}
		g := drawGrammar(r, o)
		c.Put("grammar", g.script())
		for k := 0; k < 5; k++ {
			root := Pick(r, g.tokens).name
			text := g.genText(r, root, r.Range(3, 16))
			switch r.N(4) {
			case 0:
				text = mutate(r, text, xAlpha+" _\n")
			case 1:
				text = mutate(r, mutate(r, text, xAlpha+"\n"), xAlpha+"\n")
			case 2:
				if text != "" {
					text = text[:r.N(len(text))]
				}
			}
			if text == "" {
				continue
			}
			if _, _, ok := g.recognize(root, text, 2500); !ok {
				c.Event("texts skipped, too costly")
				continue
			}
			c.Put("text", text)
			c.Put("root", root)
			s, err := g.single(root)
			if err != nil {
				c.Fail("resource", "%v", err)
				return
			}
			// mind the legal prefixes and suffixes as well
			pre, suf := r.P(1, 4), r.P(1, 4)
			ct, err := xContent(text, pre, suf)
			if err != nil {
				c.Fail("content", "%v", err)
				return
			}
			ast, err := xNewLexer().AST(s, ct)
			if err != nil || ast == nil {
				c.Fail("error", "AST on %q: %v", text, err)
				continue
			}
			if ast.IsMistake() == ast.IsSuccess() || (ast.Mistake() != nil) != ast.IsMistake() || (ast.Success() != nil) != ast.IsSuccess() {
				c.Fail("both", "%q gives mistake=%v tree=%v", text, ast.IsMistake(), ast.IsSuccess())
			}
			rt, mis, err := xNewLexer().Root(s, ct)
			if err != nil || (rt == nil) == (mis == nil) {
				c.Fail("both", "%q gives root=%v mistake=%v error=%v", text, rt != nil, mis != nil, err)
				continue
			}
			if (mis != nil) != ast.IsMistake() {
				c.Fail("both", "%q is a mistake=%v for the tree, %v for the root", text, ast.IsMistake(), mis != nil)
				continue
			}
			if mis == nil {
				c.Event("texts accepted")
				continue
			}
			if a, b := xMistakeString(mis), xMistakeString(ast.Mistake()); a != b {
				c.Fail("differ", "%q is refused with %s, then with %s", text, a, b)
			}
			c.Distinct(g.script(), root, text)
			g.checkMistake(c, mis, root, text)
		}
		c.Sample(g.script())
	})
	x.Each("place", x.Scale(6000, 100000), func(c *Case) { placeL08(c) })
}

// placeL08 refuses texts of any characters and length, of which the place of the mistake is known.
func placeL08(c *Case) {
	r := c.R
	one := func() string {
		for {
			s := ""
			for k := r.Range(1, 4); k > 0; k-- {
				s += Pick(r, []string{"a", "b", "\n", "\r", "\t", " ", "é", "日", "\x00", "\u2028", "\r\n", "(", "😀"})
			}
			if s != "" {
				return s
			}
		}
	}
	a, b, ch := "A"+one(), "B"+one(), "~"+one()
	if r.P(1, 3) {
		ch += strings.Repeat(one(), r.Range(2, 300))
	}
	if r.P(1, 150) {
		ch += strings.Repeat(one(), r.Range(30000, 40000))
	}
	g := &xGrammar{root: "root", limit: 60000, pats: genPats(r, 1, "yz", false)}
	ra, rb, rc := &xRule{name: "RA", constant: a}, &xRule{name: "RB", constant: b}, &xRule{name: "RC", constant: ch}
	g.rules = []*xRule{ra, rb, rc}
	item := func(ru *xRule, card xCard) xItem { return xItem{el: &xElem{rule: ru, card: card}} }
	g.channels = []*xToken{{name: "cha", must: []xLine{{item(rc, xOne)}}}}
	root := &xToken{name: "root"}
	g.tokens = []*xToken{root}
	text, place := "", ""
	gap := func() string {
		if r.P(1, 2) {
			return strings.Repeat(ch, r.Range(1, 2))
		}
		return ""
	}
	if r.P(1, 2) {
		// what the not block reads
		n := r.Range(1, 3)
		root.must = []xLine{{item(ra, xCard{0, -1, "*"}), item(rb, xCard{0, -1, "*"})}}
		root.not = []xLine{{item(ra, xRange(n, n)), item(rb, xOne)}}
		text = gap() + strings.Repeat(a, n) + gap() + b
		place = text
		if r.P(1, 3) {
			text += ch
		}
	} else {
		root.must = []xLine{{item(ra, xOne), item(rb, xOne)}}
		text = gap() + a + gap() + Pick(r, []string{"", "x", b[:1]})
	}
	c.Put("grammar", g.script())
	c.Put("text", cut(text, 300))
	s, err := g.single("root")
	if err != nil {
		c.Fail("resource", "%v", err)
		return
	}
	ct, err := xContent(text, false, r.P(1, 2))
	if err != nil {
		c.Fail("content", "%v", err)
		return
	}
	rt, mis, err := xNewLexer().Root(s, ct)
	if err != nil || rt != nil || mis == nil {
		c.Fail("both", "the text gives root=%v mistake=%v error=%v", rt != nil, mis != nil, err)
		return
	}
	i, l, k := int(mis.Index().Index()), int(mis.Index().Line()), int(mis.Index().Column())
	c.Distinct(g.script(), text)
	if place == "" {
		// the mistake is somewhere in the text
		if len(text) < 3000 {
			g.checkMistake(c, mis, "root", text)
		}
		return
	}
	line, col := strings.Count(place, "\n"), len(place)-1-strings.LastIndex(place, "\n")
	if col > 0 {
		col--
	}
	if !mis.Content().IsContainsValidNotMatch() {
		c.Fail("content", "the not block reads %q, the mistake is %s", cut(text, 300), xMistakeString(mis))
		return
	}
	if i != len(place) || l != line || k != col {
		c.Fail("position", "the not block reads up to index %d, line %d, column %d of %q, the mistake is at %d, line %d, column %d", len(place), line, col, cut(text, 300), i, l, k)
	}
	if box := mis.Path().Container(); !box.IsToken() || box.Token() != "root" || mis.Path().HasParents() {
		c.Fail("name", "the mistake of the root is %s", xMistakeString(mis))
	}
	if n := mis.Content().ContainsValidNotMatch().Line(); n != 0 {
		c.Fail("content", "the mistake is in line %d of the not block of one line", n)
	}
	c.Event("mistakes whose place is known")
}

// ---------------------------------------------------------------- L11

// drawTests gives tests to some tokens; end tells what white space may end the last text of a token, which is not part of it.
func drawTests(r *Rng, tokens []*xToken, gen func(token string, limit int) string, fits func(token string, text string) bool) {
	for _, t := range tokens {
		if r.P(1, 4) {
			continue
		}
		n := r.Range(1, 4)
		if r.P(1, 60) {
			n = Pick(r, []int{10, 40, 70, 300})
		}
		for k := n; k > 0; k-- {
			text := gen(t.name, r.Range(2, 10))
			switch r.N(8) {
			case 0, 1:
				text = mutate(r, text, xAlpha+" _")
			case 2:
				text = mutate(r, text, " \n")
			case 3:
				text = Pick(r, []string{" ", "  ", "\n", " \t", "\r\n"})
			case 4:
				text = Pick(r, []string{" ", "_", "\n", ""}) + text + Pick(r, []string{" ", "_", "\n", ""})
			}
			if text == "" || strings.ContainsAny(text, ";#+-") || !fits(t.name, text) {
				continue
			}
			t.tests = append(t.tests, text)
			if r.P(1, 4) {
				t.gaps = r.N(512)
			}
		}
		// the white space that ends the last text is layout
		for len(t.tests) > 0 {
			n := len(t.tests) - 1
			last := strings.TrimRight(t.tests[n], " \t\r\n")
			if last == t.tests[n] {
				break
			}
			t.tests = t.tests[:n]
			if last != "" && fits(t.name, last) {
				t.tests = append(t.tests, last)
			}
		}
	}
}

// checkSuites compares the suites with the texts of the tokens, each read alone.
func checkSuites(c *Case, list []suites.Suite, tokens []*xToken, shown func(string) string, success func(token string, text string) (bool, bool)) {
	got := map[string]int{}
	names := []string{}
	for _, s := range list {
		got[s.Name()]++
		names = append(names, s.Name())
		var t *xToken
		for _, one := range tokens {
			if shown(one.name) == s.Name() {
				t = one
			}
		}
		if t == nil || len(t.tests) != len(s.Lines()) {
			c.Fail("suite", "the suite %s has %d lines", s.Name(), len(s.Lines()))
			continue
		}
		for i, l := range s.Lines() {
			if int(l.Index()) != i {
				c.Fail("index", "line %d of the suite %s says it is %d", i, s.Name(), l.Index())
			}
			want, ok := success(t.name, t.tests[i])
			if !ok {
				continue
			}
			if l.IsSuccess() != want {
				c.Fail("verdict", "line %d of the suite %s, %q, success=%v, expected %v", i, s.Name(), t.tests[i], l.IsSuccess(), want)
			}
			if l.IsSuccess() {
				c.Event("lines succeeding")
			} else {
				c.Event("lines failing")
			}
			if strings.TrimSpace(t.tests[i]) != t.tests[i] {
				c.Event("lines with white space at their ends")
			}
		}
		c.Event("suites")
	}
	sort.Strings(names)
	for _, t := range tokens {
		n := 0
		if len(t.tests) > 0 {
			n = 1
		}
		if got[shown(t.name)] != n {
			c.Fail("suite", "the token %s has %d suites in %v, expected %d", t.name, got[shown(t.name)], names, n)
		}
	}
}

func runL11(x *Ctx) {
	x.Each("suites", x.Scale(3000, 60000), func(c *Case) {
		r := c.R
		g := drawGrammar(r, gramOpts{tokens: r.Range(1, 5), recur: r.P(1, 2), channels: r.P(1, 2), nots: r.P(1, 4), specs: r.P(1, 4), switches: r.P(1, 4)})
		drawTests(r, g.tokens, func(token string, limit int) string {
			return g.genText(r, token, limit)
		}, func(token string, text string) bool {
			_, _, ok := g.recognize(token, text, 1500)
			return ok
		})
		c.Put("grammar", g.script())
		m, err := xMultiple(g.patternsScript(), g.rulesScript(), xTokensScript(g.tokens), xTokensScript(g.channels))
		if err != nil {
			c.Fail("resource", "%v", err)
			return
		}
		lex := xNewLexer()
		list, err := lex.Tests(m)
		if err != nil {
			c.Fail("error", "%v", err)
			return
		}
		checkSuites(c, list, g.tokens, func(name string) string { return name }, func(token string, text string) (bool, bool) {
			want, _, _ := g.recognize(token, text, 1500)
			alone := g.real(lex, token, text)
			if alone.err != nil || (want != nil) != (alone.node != nil) {
				c.Fail("verdict", "%q read alone as %s is accepted=%v (%v), expected %v", text, token, alone.node != nil, alone.err, want != nil)
			}
			return want != nil, true
		})
		if len(list) > 0 {
			c.Distinct(g.script())
		}
		c.Sample(g.script())
	})
	x.Each("linked", x.Scale(1000, 20000), func(c *Case) {
		r := c.R
		root, flat, files := genSplit(r, "root")
		drawTests(r, root.g.tokens, func(token string, limit int) string {
			return flat.genText(r, token, limit)
		}, func(token string, text string) bool {
			_, _, ok := flat.recognize(token, text, 1500)
			return ok
		})
		dir, clean := xScratch()
		defer clean()
		link, err := xLink(dir, files, r, 0)
		if err != nil {
			c.Fail("setup", "%v", err)
			return
		}
		script := root.script(r, 0)
		for _, n := range sortedKeys(files) {
			c.Put("file "+n, files[n].head(NewRng("x"), 0)+files[n].g.script())
		}
		m, err := xMultiple(root.g.patternsScript(), root.g.rulesScript(), script, xTokensScript(root.g.channels))
		if err != nil {
			c.Fail("resource", "%v", err)
			return
		}
		list, err := link.lex.Tests(m)
		if err != nil {
			c.Fail("error", "%v", err)
			return
		}
		checkSuites(c, list, root.g.tokens, func(name string) string { return name }, func(token string, text string) (bool, bool) {
			want, _, ok := flat.recognize(token, text, 1500)
			s, err := root.single(script, token, 0)
			if err != nil {
				c.Fail("resource", "%v", err)
				return false, false
			}
			if alone := link.read(s, text); alone.err != nil || (want != nil) != (alone.node != nil) {
				c.Fail("verdict", "%q read alone as %s is accepted=%v (%v), expected %v", text, token, alone.node != nil, alone.err, want != nil)
			}
			if want != nil && strings.Contains(want.String(), "ref") {
				c.Event("lines read through references")
			}
			return want != nil, ok
		})
		if len(list) > 0 {
			c.Distinct(script)
		}
		c.Sample(script)
	})
	x.Each("replaced", x.Scale(900, 20000), func(c *Case) {
		// a lexer that is given other tokens to read in the place of some
		r := c.R
		g := drawGrammar(r, gramOpts{tokens: r.Range(3, 6), channels: r.P(1, 4), nots: r.P(1, 4), switches: r.P(1, 4)})
		lines := func(inner string) []xLine {
			var out []xLine
			for k := r.Range(1, 2); k > 0; k-- {
				l := xLine{}
				for n := r.Range(1, 2); n > 0; n-- {
					e := &xElem{rule: Pick(r, g.rules), card: genCard(r)}
					if inner != "" && r.P(1, 3) {
						e = &xElem{token: inner, card: genCard(r)}
					}
					l = append(l, xItem{el: e})
				}
				out = append(out, l)
			}
			return out
		}
		other := *g
		other.channels = nil
		other.tokens = []*xToken{{name: "tinner", must: lines("")}}
		flat := g.clone()
		names := map[string]string{}
		given := map[string]lapaths.Path{}
		// what the channels refer to stays
		kept := map[string]bool{}
		var keep func(t *xToken)
		keep = func(t *xToken) {
			for _, block := range [][]xLine{t.must, t.not} {
				for _, l := range block {
					for _, it := range l {
						if !it.sw && it.el.rule == nil && !kept[it.el.token] {
							kept[it.el.token] = true
							keep(g.tok(it.el.token))
						}
					}
				}
			}
		}
		for _, t := range g.channels {
			keep(t)
		}
		for _, t := range g.tokens {
			if kept[t.name] || r.P(1, 3) {
				continue
			}
			u := &xToken{name: "tother" + t.name, must: lines(Pick(r, []string{"", "tinner"}))}
			other.tokens = append(other.tokens, u)
			names[t.name] = u.name
		}
		for _, name := range sortedKeys(names) {
			res, err := other.pathResource(names[name])
			if err != nil {
				c.Fail("resource", "%v", err)
				return
			}
			if given[name], err = xNewLexer().Path(res); err != nil {
				c.Fail("refused", "the path of %s: %v", names[name], err)
				return
			}
		}
		at := func(ls []xLine) {
			for _, l := range ls {
				for i := range l {
					if l[i].sw || l[i].el.rule != nil || names[l[i].el.token] == "" {
						continue
					}
					e := *l[i].el
					e.token = names[e.token]
					l[i].el = &e
				}
			}
		}
		for _, t := range flat.tokens {
			at(t.must)
			at(t.not)
		}
		flat.tokens = append(flat.tokens, other.tokens...)
		drawTests(r, g.tokens, func(token string, limit int) string {
			return flat.genText(r, token, 2*limit)
		}, func(token string, text string) bool {
			_, _, ok := flat.recognize(token, text, 1500)
			return ok
		})
		c.Put("grammar", g.script())
		c.Put("read as", flat.script())
		lex, err := lexers.NewBuilder().Create().WithBasePaths(xPaths).WithReplacementPaths(given).Now()
		if err != nil {
			c.Fail("lexer", "%v", err)
			return
		}
		m, err := xMultiple(g.patternsScript(), g.rulesScript(), xTokensScript(g.tokens), xTokensScript(g.channels))
		if err != nil {
			c.Fail("resource", "%v", err)
			return
		}
		list, err := lex.Tests(m)
		if err != nil {
			c.Fail("error", "%v", err)
			return
		}
		checkSuites(c, list, g.tokens, func(name string) string { return name }, func(token string, text string) (bool, bool) {
			want, _, ok := flat.recognize(token, text, 1500)
			if !ok {
				return false, false
			}
			alone := g.real(lex, token, text)
			if alone.err != nil || (want != nil) != (alone.node != nil) {
				c.Fail("verdict", "%q read alone as %s is accepted=%v (%v), expected %v", text, token, alone.node != nil, alone.err, want != nil)
			} else if want != nil && want.String() != alone.node.String() {
				c.Fail("tree", "%q read alone as %s gave %s, expected %s", text, token, alone.node, want)
			}
			if want != nil && strings.Contains(want.String(), "tother") {
				c.Event("lines read through replaced tokens")
			}
			return want != nil, true
		})
		if len(list) > 0 && len(given) > 0 {
			c.Distinct(flat.script())
		}
		c.Sample(g.script())
	})
}

var _ = containers.NewBuilder
