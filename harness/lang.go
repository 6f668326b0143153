//go:build go1.21

package main

import (
	"fmt"
	"strconv"
	"strings"

	lexers "github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	lpaths "github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
)

// ---------------------------------------------------------------- reference model of the patterns

type xGroup struct {
	name  string
	elems []string
}

// at returns the length of the longest element that starts the text.
func (g *xGroup) at(text string) int {
	best := 0
	for _, e := range g.elems {
		if len(e) > best && len(text) >= len(e) && text[:len(e)] == e {
			best = len(e)
		}
	}
	return best
}

type xSerie struct {
	name   string
	groups []*xGroup
}

// at tells how the serie consumes the start of the text: every group in turn.
func (s *xSerie) at(text string) ([]string, bool, *xGroup) {
	out := []string{}
	pos := 0
	for _, g := range s.groups {
		n := g.at(text[pos:])
		if n == 0 {
			return out, false, g
		}
		out = append(out, text[pos:pos+n])
		pos += n
	}
	return out, true, nil
}

type xChoice struct {
	serie *xSerie
	rev   bool
}

type xPat struct {
	name    string
	choices []xChoice
}

// xPatMatch is what the match of a pattern is expected to be.
type xPatMatch struct {
	index    int
	parts    []string // the discoveries in order
	revs     []bool
	complete bool
	next     *xGroup
	nextRev  bool
}

func (m *xPatMatch) text() string { return strings.Join(m.parts, "") }

func (p *xPat) at(text string) *xPatMatch {
	m := &xPatMatch{complete: true}
	rest := text
	for _, c := range p.choices {
		if c.rev {
			if rest == "" {
				m.complete, m.next, m.nextRev = false, c.serie.groups[0], true
				break
			}
			n := len(rest)
			for i := 0; i < len(rest); i++ {
				if _, ok, _ := c.serie.at(rest[i:]); ok {
					n = i
					break
				}
			}
			if n > 0 {
				m.parts = append(m.parts, rest[:n])
				m.revs = append(m.revs, true)
				rest = rest[n:]
			}
			continue
		}
		parts, ok, next := c.serie.at(rest)
		if !ok {
			m.complete, m.next = false, next
			break
		}
		for _, one := range parts {
			m.parts = append(m.parts, one)
			m.revs = append(m.revs, false)
			rest = rest[len(one):]
		}
	}
	if len(m.parts) == 0 {
		return nil
	}
	return m
}

// find looks for the first index where the pattern discovers something.
func (p *xPat) find(text string) *xPatMatch {
	for i := 0; i < len(text); i++ {
		if m := p.at(text[i:]); m != nil {
			m.index = i
			return m
		}
	}
	return nil
}

// xFind is the match of a list of patterns: least index, complete ones first, then the order of the list.
func xFind(list []*xPat, text string) (*xPatMatch, int) {
	var best *xPatMatch
	which := -1
	for i, p := range list {
		m := p.find(text)
		if m == nil {
			continue
		}
		if best == nil || m.index < best.index || (m.index == best.index && m.complete && !best.complete) {
			best, which = m, i
		}
	}
	return best, which
}

// ---------------------------------------------------------------- cardinalities, rules, tokens

type xCard struct {
	min  int
	max  int // -1: none
	text string
}

func (c xCard) ok(n int) bool { return n >= c.min && (c.max < 0 || n <= c.max) }

var xOne = xCard{1, 1, ""}

func xRange(min int, max int) xCard {
	if max < 0 {
		return xCard{min, max, fmt.Sprintf("{%d,}", min)}
	}
	if min == max {
		return xCard{min, max, fmt.Sprintf("{%d}", min)}
	}
	return xCard{min, max, fmt.Sprintf("{%d,%d}", min, max)}
}

type xRule struct {
	name     string
	constant string
	pats     []*xPat
	card     xCard
}

// at returns the text of the rule at the start of the text, "" when it does not match.
func (r *xRule) at(text string) string {
	if r.constant != "" {
		if strings.HasPrefix(text, r.constant) {
			return r.constant
		}
		return ""
	}
	pos, n := 0, 0
	for pos < len(text) && (r.card.max < 0 || n < r.card.max) {
		m, _ := xFind(r.pats, text[pos:])
		if m == nil || m.index > 0 || !m.complete {
			break
		}
		pos += len(m.text())
		n++
	}
	if n == 0 || !r.card.ok(n) {
		return ""
	}
	return text[:pos]
}

type xSpec struct {
	name string
	card xCard
}

type xElem struct {
	rule  *xRule
	token string
	card  xCard
	specs []xSpec
}

func (e *xElem) name() string {
	if e.rule != nil {
		return e.rule.name
	}
	return e.token
}

type xItem struct {
	sw bool
	el *xElem
}

type xLine []xItem

type xToken struct {
	name  string
	must  []xLine
	not   []xLine
	tests []string
	gaps  int // bits tell where delimiters of tests hold nothing between them
}

type xGrammar struct {
	pats     []*xPat
	rules    []*xRule
	tokens   []*xToken
	channels []*xToken
	root     string
	limit    int // steps of the reference, 0 for the usual amount
}

func (g *xGrammar) tok(name string) *xToken {
	for _, t := range g.tokens {
		if t.name == name {
			return t
		}
	}
	return nil
}

func xEsc(e string) string {
	return strings.ReplaceAll(e, "\"", "\\\"")
}

func (g *xGrammar) patternsScript() string {
	var b strings.Builder
	gs, ss := map[string]bool{}, map[string]bool{}
	for _, p := range g.pats {
		b.WriteString(p.name + ":")
		for _, c := range p.choices {
			b.WriteString(" ")
			if c.rev {
				b.WriteString("@")
			}
			b.WriteString(c.serie.name)
		}
		b.WriteString(";\n")
	}
	for _, p := range g.pats {
		for _, c := range p.choices {
			if ss[c.serie.name] {
				continue
			}
			ss[c.serie.name] = true
			b.WriteString(c.serie.name + ":")
			for _, gr := range c.serie.groups {
				b.WriteString(" " + gr.name)
			}
			b.WriteString(";\n")
		}
	}
	for _, p := range g.pats {
		for _, c := range p.choices {
			for _, gr := range c.serie.groups {
				if gs[gr.name] {
					continue
				}
				gs[gr.name] = true
				list := []string{}
				for _, e := range gr.elems {
					list = append(list, xEsc(e))
				}
				b.WriteString(gr.name + ": \"" + strings.Join(list, ",") + "\";\n")
			}
		}
	}
	return b.String()
}

func (g *xGrammar) rulesScript() string {
	var b strings.Builder
	for _, r := range g.rules {
		if r.constant != "" {
			b.WriteString(r.name + ": \"" + strings.ReplaceAll(r.constant, "\"", "\\\"") + "\";\n")
			continue
		}
		names := []string{}
		for _, p := range r.pats {
			names = append(names, p.name)
		}
		b.WriteString(r.name + ": [" + strings.Join(names, " ") + "]" + r.card.text + ";\n")
	}
	return b.String()
}

func xLineScript(l xLine) string {
	parts := []string{}
	for _, it := range l {
		if it.sw {
			parts = append(parts, "#")
			continue
		}
		s := it.el.name() + it.el.card.text
		if len(it.el.specs) > 0 {
			s += "->"
			for _, sp := range it.el.specs {
				s += " " + sp.name + sp.card.text
			}
			s += " <-"
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " ")
}

func xLinesScript(list []xLine) string {
	out := []string{}
	for _, l := range list {
		out = append(out, xLineScript(l))
	}
	return strings.Join(out, "\n\t| ")
}

// testText writes the tests with their delimiters.
func (t *xToken) testText() string {
	out := ""
	if t.gaps&1 != 0 {
		out = "###"
	}
	for i, text := range t.tests {
		if i > 0 {
			out += "###"
		}
		out += text
		if t.gaps&(2<<(i%8)) != 0 {
			out += "###"
		}
	}
	return out
}

func xTokensScript(list []*xToken) string {
	var b strings.Builder
	for _, t := range list {
		b.WriteString(t.name + ": " + xLinesScript(t.must) + "\n")
		if len(t.not) > 0 {
			b.WriteString("\t---\n\t: " + xLinesScript(t.not) + "\n")
		}
		if len(t.tests) > 0 {
			b.WriteString("\t+++\n\t:" + t.testText() + "\n")
		}
		b.WriteString(";\n\n")
	}
	return b.String()
}

func (g *xGrammar) script() string {
	return g.patternsScript() + "----\n" + g.rulesScript() + "----\n" + xTokensScript(g.tokens) + "---- channels\n" + xTokensScript(g.channels) + "---- root " + g.root
}

// ---------------------------------------------------------------- reference recognizer

type xPart struct {
	rule string // rule name, or
	text string // its text
	tok  string // token name
	subs []*xNode
	reps int  // repetitions of the rule
	ch   bool // of a channel text
}

type xNode struct {
	token string
	line  int
	text  string
	parts []xPart
}

func (n *xNode) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *xNode) write(b *strings.Builder) {
	fmt.Fprintf(b, "%s/%d%q(", n.token, n.line, n.text)
	for i, p := range n.parts {
		if i > 0 {
			b.WriteString(" ")
		}
		if p.tok == "" {
			fmt.Fprintf(b, "%s%q", p.rule, p.text)
			continue
		}
		b.WriteString(p.tok + "{")
		for j, s := range p.subs {
			if j > 0 {
				b.WriteString(" ")
			}
			s.write(b)
		}
		b.WriteString("}")
	}
	b.WriteString(")")
}

type xRec struct {
	g      *xGrammar
	text   string
	steps  int
	limit  int
	notHit int // tokens refused by their not block
	chHit  int // channel texts consumed
	recHit int // depth reached
	spHit  int // elements judged by specifiers
	swHit  int // channels refused because a channel is read at the same place
	inChan map[int]bool
}

type xTooDeep struct{}

func (e *xRec) step() {
	e.steps++
	if e.steps > e.limit {
		panic(xTooDeep{})
	}
}

// recognize runs the reference on a text; ok is false when the cost is above the limit.
func (g *xGrammar) recognize(root string, text string, limit int) (node *xNode, rec *xRec, ok bool) {
	rec = &xRec{g: g, text: text, limit: limit}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(xTooDeep); !is {
				panic(r)
			}
			ok = false
		}
	}()
	n, _ := rec.token(g.tok(root), 0, true, 0)
	return n, rec, true
}

// token gives the best match of the token at a position, nil when there is none.
func (e *xRec) token(t *xToken, pos int, ch bool, depth int) (*xNode, int) {
	e.step()
	if depth > e.recHit {
		e.recHit = depth
	}
	n := e.best(t, t.must, pos, ch, depth)
	if n == nil {
		return nil, pos
	}
	if len(t.not) > 0 {
		if e.best(t, t.not, pos, ch, depth) != nil {
			e.notHit++
			return nil, pos
		}
	}
	return n, pos + len(n.text)
}

func (e *xRec) best(t *xToken, lines []xLine, pos int, ch bool, depth int) *xNode {
	var best *xNode
	for i, l := range lines {
		parts, end, ok := e.line(l, pos, ch, depth)
		if !ok || end == pos {
			continue
		}
		if best == nil || end-pos > len(best.text) {
			best = &xNode{token: t.name, line: i, text: e.text[pos:end], parts: parts}
		}
	}
	return best
}

func (e *xRec) line(l xLine, pos int, ch bool, depth int) ([]xPart, int, bool) {
	out := []xPart{}
	act, next := ch, ch
	cur := pos
	for _, it := range l {
		if it.sw {
			next = !next
			if next {
				act = true
			}
			continue
		}
		e.step()
		parts, end, st := e.block(it.el, cur, act, next, depth)
		if st == xAbsent {
			continue
		}
		if st == xInvalid {
			return nil, pos, false
		}
		out = append(out, parts...)
		cur = end
		if !next {
			act = false
		}
	}
	return out, cur, true
}

const (
	xAbsent = iota
	xInvalid
	xValid
)

func (e *xRec) block(el *xElem, pos int, act bool, next bool, depth int) ([]xPart, int, int) {
	e.step()
	if pos >= len(e.text) {
		if el.card.ok(0) {
			return nil, pos, xAbsent
		}
		return nil, pos, xInvalid
	}
	if act && e.inChan[pos] {
		e.swHit++
	}
	if act && !e.inChan[pos] {
		if e.inChan == nil {
			e.inChan = map[int]bool{}
		}
		for _, c := range e.g.channels {
			e.inChan[pos] = true
			n, end := e.token(c, pos, false, depth+1)
			delete(e.inChan, pos)
			if n == nil {
				continue
			}
			e.chHit++
			parts, last, st := e.block(el, end, next, next, depth)
			if st != xAbsent {
				all := []xPart{}
				for _, p := range n.parts {
					p.ch = true
					all = append(all, p)
				}
				return append(all, parts...), last, st
			}
			break
		}
	}
	if el.rule != nil {
		return e.ruleElem(el, pos)
	}
	subs := []*xNode{}
	cur := pos
	t := e.g.tok(el.token)
	for el.card.max < 0 || len(subs) < el.card.max {
		n, end := e.token(t, cur, next, depth+1)
		if n == nil {
			break
		}
		subs = append(subs, n)
		cur = end
	}
	valid := el.card.ok(len(subs))
	for _, sp := range el.specs {
		e.spHit++
		if !sp.card.ok(xCount(subs, sp.name)) {
			valid = false
		}
	}
	if !valid {
		if el.card.ok(0) {
			return nil, pos, xValid
		}
		return nil, pos, xInvalid
	}
	if len(subs) == 0 {
		return nil, pos, xValid
	}
	return []xPart{{tok: el.token, subs: subs}}, cur, xValid
}

func (e *xRec) ruleElem(el *xElem, pos int) ([]xPart, int, int) {
	cur, n := pos, 0
	for el.card.max < 0 || n < el.card.max {
		e.step()
		txt := el.rule.at(e.text[cur:])
		if txt == "" {
			break
		}
		cur += len(txt)
		n++
	}
	if !el.card.ok(n) {
		if el.card.ok(0) {
			return nil, pos, xValid
		}
		return nil, pos, xInvalid
	}
	if n == 0 {
		return nil, pos, xValid
	}
	return []xPart{{rule: el.rule.name, text: e.text[pos:cur], reps: n}}, cur, xValid
}

// xCount counts the direct sub elements of that name.
func xCount(subs []*xNode, name string) int {
	n := 0
	for _, s := range subs {
		n += s.counts(name)
	}
	return n
}

func (n *xNode) counts(name string) int {
	c := 0
	for _, p := range n.parts {
		if p.ch {
			continue
		}
		if p.tok == name {
			c += len(p.subs)
		}
		if p.rule == name && p.tok == "" {
			c += p.count()
		}
	}
	return c
}

// count is the number of times a rule was repeated.
func (p xPart) count() int {
	if p.reps > 0 {
		return p.reps
	}
	return 1
}

// ---------------------------------------------------------------- the real lexer

type xReal struct {
	ast      asts.AST
	node     *xNode
	root     roots.Root
	mistake  mistakes.Mistake
	err      error
	where    string
	nodeErr  string
	isPrefix bool
}

var xPaths = func() lpaths.Paths {
	p, err := lpaths.NewBuilder().Create().WithRules("/nonexistent").WithTokens("/nonexistent").WithChannels("/nonexistent").Now()
	if err != nil {
		panic(err)
	}
	return p
}()

func xNewLexer() lexers.Application {
	l, err := lexers.NewBuilder().Create().WithBasePaths(xPaths).Now()
	if err != nil {
		panic(err)
	}
	return l
}

func xMultiple(pats string, rls string, toks string, chans string) (multiples.Multiple, error) {
	c, err := containers.NewBuilder().Create().WithPatterns(pats).WithRules(rls).WithTokens(toks).Now()
	if err != nil {
		return nil, err
	}
	mb := multiples.NewBuilder().Create().WithContainer(c)
	if chans != "" {
		mb.WithChannels(chans)
	}
	return mb.Now()
}

func (g *xGrammar) single(root string) (singles.Single, error) {
	m, err := xMultiple(g.patternsScript(), g.rulesScript(), xTokensScript(g.tokens), xTokensScript(g.channels))
	if err != nil {
		return nil, err
	}
	return singles.NewBuilder().Create().WithRootToken(root).WithMultiple(m).Now()
}

func xContent(text string, pre bool, suf bool) (contents.Content, error) {
	b := contents.NewBuilder().Create().WithContent(text)
	if pre {
		b.IsPrefixLegal()
	}
	if suf {
		b.IsSuffixLegal()
	}
	return b.Now()
}

// real lexes a text with the code under test, strictly.
func (g *xGrammar) real(lex lexers.Application, root string, text string) *xReal {
	return g.realAs(lex, root, text, false, false)
}

// realAs lexes a text with the code under test, with legal prefixes or suffixes.
func (g *xGrammar) realAs(lex lexers.Application, root string, text string, pre bool, suf bool) *xReal {
	out := &xReal{}
	s, err := g.single(root)
	if err != nil {
		out.err, out.where = err, "resource"
		return out
	}
	c, err := xContent(text, pre, suf)
	if err != nil {
		out.err, out.where = err, "content"
		return out
	}
	ast, err := lex.AST(s, c)
	if err != nil {
		out.err, out.where = err, "AST"
		return out
	}
	out.ast = ast
	if ast.IsMistake() {
		out.mistake = ast.Mistake()
	}
	if ast.IsSuccess() {
		out.node = xFromAST(ast.Success())
	}
	rt, mis, err := lex.Root(s, c)
	if err != nil {
		out.err, out.where = err, "Root"
		return out
	}
	out.root = rt
	if (mis == nil) != (out.mistake == nil) {
		out.nodeErr = fmt.Sprintf("AST says mistake=%v, Root says mistake=%v", out.mistake != nil, mis != nil)
	}
	return out
}

func xFromAST(t asts.Token) *xNode {
	n := &xNode{token: t.Name(), line: int(t.Match().Index()), text: t.Discovery()}
	if !t.Match().HasMatches() {
		return n
	}
	for _, m := range t.Match().Matches() {
		if m.IsToken() {
			p := xPart{tok: m.Token().Token()}
			for _, s := range m.Token().Matches() {
				p.subs = append(p.subs, xFromAST(s))
			}
			n.parts = append(n.parts, p)
		}
		if m.IsRule() {
			n.parts = append(n.parts, xPart{rule: m.Rule().Rule(), text: m.Rule().Result().Discoveries().Content()})
		}
	}
	return n
}

// xRootString renders a root as the grouped view of the reference node would be.
func xRootString(r roots.Root) string {
	var b strings.Builder
	xWriteRoot(&b, r)
	return b.String()
}

func xWriteRoot(b *strings.Builder, r roots.Root) {
	fmt.Fprintf(b, "%s%q(", r.Name(), r.Content())
	all := r.Nodes().All()
	for _, name := range sortedKeys(all) {
		node := all[name]
		fmt.Fprintf(b, "%s/%s%q[", name, node.Name(), node.Content())
		for _, c := range node.Containers().List() {
			if c.HasRoot() {
				fmt.Fprintf(b, "%s%q=", c.Name(), c.Content())
				xWriteRoot(b, c.Root())
				continue
			}
			fmt.Fprintf(b, "%s%q ", c.Name(), c.Content())
		}
		b.WriteString("]")
	}
	b.WriteString(")")
}

// rootString is the grouped view of a reference node.
func (n *xNode) rootString() string {
	var b strings.Builder
	n.writeRoot(&b)
	return b.String()
}

func (n *xNode) writeRoot(b *strings.Builder) {
	fmt.Fprintf(b, "%s%q(", n.token, n.text)
	type cont struct {
		text string
		sub  *xNode
	}
	by := map[string][]cont{}
	for _, p := range n.parts {
		if p.tok != "" {
			for _, s := range p.subs {
				by[p.tok] = append(by[p.tok], cont{s.text, s})
			}
			continue
		}
		by[p.rule] = append(by[p.rule], cont{p.text, nil})
	}
	for _, name := range sortedKeys(by) {
		whole := ""
		for _, c := range by[name] {
			whole += c.text
		}
		fmt.Fprintf(b, "%s/%s%q[", name, name, whole)
		for _, c := range by[name] {
			if c.sub != nil {
				fmt.Fprintf(b, "%s%q=", name, c.text)
				c.sub.writeRoot(b)
				continue
			}
			fmt.Fprintf(b, "%s%q ", name, c.text)
		}
		b.WriteString("]")
	}
	b.WriteString(")")
}

// ---------------------------------------------------------------- generators

const xUpper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// xName gives a distinct name of letters only.
func xName(prefix string, i int, upper bool) string {
	s := prefix
	base := "abcdefghij"
	if upper {
		base = "ABCDEFGHIJ"
	}
	for _, d := range strconv.Itoa(i) {
		s += string(base[d-'0'])
	}
	return s
}

// genPats draws patterns over an alphabet.
func genPats(r *Rng, n int, alpha string, multi bool) []*xPat {
	groups := []*xGroup{}
	ng := r.Range(2, 5)
	for i := 0; i < ng; i++ {
		g := &xGroup{name: xName("$G", i, true)}
		seen := map[string]bool{}
		for k := r.Range(1, 4); k > 0; k-- {
			l := 1
			if multi && r.P(1, 3) {
				l = r.Range(2, 3)
			}
			e := r.Str(alpha, l)
			if !seen[e] {
				seen[e] = true
				g.elems = append(g.elems, e)
			}
		}
		groups = append(groups, g)
	}
	series := []*xSerie{}
	for i := 0; i < r.Range(2, 4); i++ {
		s := &xSerie{name: xName("S", i, true)}
		k := 1
		if r.P(2, 5) {
			k = r.Range(2, 3)
		}
		for ; k > 0; k-- {
			s.groups = append(s.groups, Pick(r, groups))
		}
		series = append(series, s)
	}
	out := []*xPat{}
	for i := 0; i < n; i++ {
		p := &xPat{name: xName("p", i, false)}
		k := 1
		if r.P(1, 2) {
			k = r.Range(2, 3)
		}
		for ; k > 0; k-- {
			p.choices = append(p.choices, xChoice{serie: Pick(r, series), rev: r.P(1, 4)})
		}
		out = append(out, p)
	}
	return out
}

func genCard(r *Rng) xCard {
	switch r.N(10) {
	case 0:
		return xCard{0, 1, "?"}
	case 1:
		return xCard{0, -1, "*"}
	case 2:
		return xCard{1, -1, "+"}
	case 3:
		n := r.Range(1, 3)
		return xRange(n, n)
	case 4:
		n := r.Range(0, 2)
		return xRange(n, n+r.Range(1, 2))
	case 5:
		return xRange(r.Range(0, 3), -1)
	}
	return xOne
}
