//go:build go1.21

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	lpaths "github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	rpaths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
)

func init() {
	register(&Check{ID: "L17", Rule: "a case is non trivial when a text was read by the code under test as a grammar, a part of one or a script, and both the outcome and the time were judged", Run: runL17, Assumptions: []string{
		"grammars that are left recursive, once altered, are read but no script is lexed with them",
		"one reading that takes more than 20 seconds of processor time is one that hangs: the texts are shorter than 200 characters, and a long text may take a time that grows with its cube"}})
}

// ---------------------------------------------------------------- L17

const robustSeconds = 20

// xVocabulary is what grammars are made of.
var xVocabulary = []string{":", ";", "|", "---", "+++", "###", "#", "->", "<-", "@", "$", "\"", ",", "\\", "\\,", "\\\"", "[", "]", "{", "}", "?", "*", "+", "{1}", "{0}", "{1,}", "{,2}", "{2,1}", "{0,3}", "{99999999999999999999}",
	"!", "(", ")", " ", "\n", "\t", "é", "日本", "\x00", "\xff", "A", "a", "z", "AB", "pa", "tokA", "$A", "0", "12", ".", "/", "include", "reference", "replace", "include aa \"./b;./c\"", "include aa \"./b\"", "reference bb aa.cc ", "replace aa.cc bb ", "", ";;", "::", "||", "\"\"", "\" \"", "[]", "{}", "_"}

// xMutate alters a text in a few places.
func xMutate(r *Rng, s string, vocabulary []string) string {
	for k := r.Range(1, 3); k > 0; k-- {
		if s == "" {
			s = Pick(r, vocabulary)
			continue
		}
		// places next to delimiters are drawn more often
		i := r.N(len(s) + 1)
		if r.P(1, 2) {
			for n := 0; n < 40 && i < len(s) && strings.IndexByte(":;|-+#>\"[]{}\n<@", s[i]) < 0; n++ {
				i++
			}
		}
		j := i + r.N(4)
		if r.P(1, 5) {
			j = i + r.N(30)
		}
		if j > len(s) {
			j = len(s)
		}
		switch r.N(7) {
		case 0, 1:
			s = s[:i] + s[j:]
		case 2:
			s = s[:i] + Pick(r, vocabulary) + s[j:]
		case 3, 4:
			s = s[:i] + Pick(r, vocabulary) + s[i:]
		case 5:
			s = s[:j] + s[i:]
		default:
			if r.P(1, 3) {
				s = s[:i]
				continue
			}
			n := r.N(len(s))
			m := n + r.N(20)
			if m > len(s) {
				m = len(s)
			}
			s = s[:i] + s[n:m] + s[i:]
		}
	}
	return s
}

// xNoise is a text of any kind.
func xNoise(r *Rng, vocabulary []string) string {
	out := ""
	for k := r.N(12); k > 0; k-- {
		if r.P(1, 4) {
			out += string(r.Bytes(r.N(6)))
			continue
		}
		out += Pick(r, vocabulary)
	}
	return out
}

// leftRecursive tells whether a token can begin with itself.
func leftRecursive(lists ...tokens.Tokens) bool {
	edges := map[string][]string{}
	for _, list := range lists {
		if list == nil {
			continue
		}
		for _, t := range list.All() {
			blocks := []tokens.Lines{t.Block().Must()}
			if t.Block().HasNot() {
				blocks = append(blocks, t.Block().Not())
			}
			for _, b := range blocks {
				for _, l := range b.All() {
					for _, i := range l.Instructions() {
						if !i.IsElement() {
							continue
						}
						el := i.Element()
						if el.Content().IsToken() {
							edges[t.Name()] = append(edges[t.Name()], el.Content().Token().Name())
						}
						if !el.HasCardinality() || !el.Cardinality().IsValid(0) {
							break
						}
					}
				}
			}
		}
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, m := range edges[n] {
			if visit(m) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range edges {
		if visit(n) {
			return true
		}
	}
	return false
}

// patternsOfLetters is a script of patterns whose patterns are of no use.
const patternsOfLetters = "anyOf: SERIE;SERIE: $G;$G: \"a,b\";"

type xScripts struct {
	pats, rls, toks, chans string
	names                  []string
}

func scriptsOf(g *xGrammar) *xScripts {
	s := &xScripts{pats: g.patternsScript(), rls: g.rulesScript(), toks: xTokensScript(g.tokens), chans: xTokensScript(g.channels)}
	for _, t := range g.tokens {
		s.names = append(s.names, t.name)
	}
	return s
}

func baseScripts() *xScripts {
	dir := filepath.Join(os.Getenv("ZZREPO"), "domain/languages/scripts/resources/base")
	read := func(name string) string {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	return &xScripts{pats: read("patterns.alex"), rls: read("rules.alex"), toks: read("tokens.alex"), chans: read("channels.alex"),
		names: []string{"program", "instruction", "operation", "assignment", "variableDeclaration", "sliceDelimiter", "listValue"}}
}

const referencesScript = `
	include first "./my/rules.alex;./my/tokens.alex"
	include second "./my/rules.alex;./my/tokens.alex;./my/channels.alex"
	reference localTok first.someTok
	reference otherTok second.anyTok
	replace first.subTok localTok
`

// timed runs something and judges the processor time it took.
func timed(c *Case, sig string, fn func()) {
	before := cpuNanos()
	fn()
	if d := (cpuNanos() - before) / 1e9; d > robustSeconds {
		c.Fail("slow "+sig, "%s took %d seconds of processor time", sig, d)
	}
}

func outcome(c *Case, what string, null bool, err error) bool {
	c.Event("readings of " + what)
	if err == nil && null {
		c.Fail("neither "+what, "the %s are neither read nor refused", what)
	}
	if err != nil {
		if !null {
			c.Fail("both "+what, "the %s are read and refused: %v", what, err)
		}
		c.Event("refusals of " + what)
		return false
	}
	return true
}

func runL17(x *Ctx) {
	basics := baseScripts()
	grammarOf := func(r *Rng) *xGrammar {
		return genGrammar(r, gramOpts{tokens: r.Range(1, 4), recur: r.P(1, 2), nots: r.P(1, 2), specs: r.P(1, 2), switches: r.P(1, 2), channels: r.P(1, 2)})
	}

	// the readers, one by one
	x.Each("reader", x.Scale(24000, 400000), func(c *Case) {
		r := c.R
		s := scriptsOf(grammarOf(r))
		base := r.P(1, 12)
		if base {
			s = basics
		}
		alter := func(t string) string {
			if r.P(1, 12) {
				return xNoise(r, xVocabulary)
			}
			return xMutate(r, t, xVocabulary)
		}
		kind := r.N(6)
		switch kind {
		case 0:
			t := alter(s.pats)
			c.Put("patterns", t)
			timed(c, "reading patterns", func() {
				p, err := patterns.NewAdapter().ToPatterns(t)
				if !outcome(c, "patterns", p == nil, err) {
					return
				}
				for k := 0; k < 3; k++ {
					text := xNoise(r, []string{"a", "b", "c", "ab", "\"", "é", "\n", "//", "/*", "*/"})
					c.Put("text", text)
					for _, one := range p.All() {
						if res, err := patterns.NewAdapter().FromPatternToResult(one, text); err == nil && res == nil {
							c.Fail("pattern", "a pattern gives neither a result nor an error")
						}
					}
					_, _ = patterns.NewAdapter().FromPatternsToResult(p, text)
					c.Event("texts matched with altered patterns")
				}
			})
			c.Distinct("patterns", t)
		case 1:
			t := alter(s.rls)
			c.Put("patterns", s.pats)
			c.Put("rules", t)
			p, err := patterns.NewAdapter().ToPatterns(s.pats)
			if err != nil {
				c.Fail("valid", "valid patterns are refused: %v", err)
				return
			}
			timed(c, "reading rules", func() {
				rs, err := rules.NewAdapter().Rules(t, p)
				outcome(c, "rules", rs == nil, err)
			})
			c.Distinct("rules", t)
		case 2, 3:
			t := alter(s.toks)
			if base && len(t) > 4000 {
				at := r.N(len(t) - 3000)
				t = xMutate(r, t[at:at+r.N(3000)], xVocabulary)
			}
			c.Put("rules", s.rls)
			c.Put("tokens", t)
			p, err := patterns.NewAdapter().ToPatterns(s.pats)
			if err != nil {
				c.Fail("valid", "valid patterns are refused: %v", err)
				return
			}
			rs, err := rules.NewAdapter().Rules(s.rls, p)
			if err != nil {
				c.Fail("valid", "valid rules are refused: %v", err)
				return
			}
			timed(c, "reading tokens", func() {
				ad, err := tokens.NewAdapterBuilder().Create().WithRules(rs).Now()
				if err != nil {
					c.Fail("valid", "no adapter is built: %v", err)
					return
				}
				list, err := ad.ToTokens(t)
				if outcome(c, "tokens", list == nil, err) {
					c.EventN("tokens read from altered scripts", len(list.All()))
				}
			})
			c.Distinct("tokens", t)
		case 4:
			t := alter(referencesScript)
			if r.P(1, 2) {
				t = alter(referencesScript + s.toks)
			}
			c.Put("references", t)
			timed(c, "reading references", func() {
				refs, err := references.NewAdapter().ToReferences(t)
				c.Event("readings of references")
				if err != nil {
					c.Event("refusals of references")
					if refs != nil {
						c.Fail("both references", "references are read and refused")
					}
				}
			})
			c.Distinct("references", t)
		default:
			t := xNoise(r, []string{"{", "}", ",", "0", "1", "9", "?", "*", "+", " ", "-", "{1,2}", "{3}", "{,}", "99999999999999999999", "a"})
			c.Put("cardinality", t)
			timed(c, "reading a cardinality", func() {
				card, err := cardinality.NewAdapter().ToCardinality(t)
				if outcome(c, "cardinalities", card == nil, err) {
					low, high := card.Delimiter()
					if high != nil && *high < low && t != "" && !strings.Contains(t, ",") {
						c.Fail("cardinality", "the cardinality goes from %d to %d", low, *high)
					}
					if _, err := cardinality.NewAdapter().ToPatternString(card); err != nil {
						c.Event("cardinalities without pattern")
					}
				}
			})
			c.Distinct("cardinality", t)
		}
	})

	// whole grammars, altered
	x.Each("grammar", x.Scale(9000, 150000), func(c *Case) {
		r := c.R
		g := grammarOf(r)
		s := scriptsOf(g)
		if r.P(1, 3) {
			s.toks = referencesScript[:r.N(len(referencesScript))] + s.toks
		}
		for k := r.Range(1, 2); k > 0; k-- {
			switch r.N(6) {
			case 0:
				s.pats = xMutate(r, s.pats, xVocabulary)
			case 1:
				s.rls = xMutate(r, s.rls, xVocabulary)
			case 2:
				s.chans = xMutate(r, s.chans, xVocabulary)
			default:
				s.toks = xMutate(r, s.toks, append(s.names, xVocabulary...))
			}
		}
		c.Put("patterns", s.pats)
		c.Put("rules", s.rls)
		c.Put("tokens", s.toks)
		c.Put("channels", s.chans)
		c.Distinct(s.pats, s.rls, s.toks, s.chans)
		lexAltered(c, s, g)
	})

	// any script with valid grammars
	x.Each("script", x.Scale(9000, 150000), func(c *Case) {
		r := c.R
		g := grammarOf(r)
		s := scriptsOf(g)
		root := Pick(r, s.names)
		text := g.genText(r, root, 40)
		vocabulary := []string{"a", "b", "c", "d", "\"", "é", "\xff", "\x00", " ", "\n", "aaaa", "abab"}
		for k := r.N(5); k > 0; k-- {
			text = xMutate(r, text, vocabulary)
		}
		if r.P(1, 10) {
			text = strings.Repeat(text+"a", 1+r.N(60))
			if len(text) > 160 {
				text = text[:160]
			}
		}
		c.Put("grammar", g.script())
		c.Put("root", root)
		c.Put("text", text)
		c.Distinct(g.script(), root, text)
		lexOnce(c, s, root, text)
	})

	// deep and long scripts: the time must not multiply at each level
	x.Each("nested", 24, func(c *Case) {
		b := newBReal()
		k := 7 + 9*(c.Index/8)
		shapes := [][3]string{{"(", "bb", ")"}, {"[", "bb", "]"}, {"append [", "bb", "], bb"}, {"isNull(", "bb", ")"}, {"[bb, ", "bb", "][1:2]"}, {"(bb + ", "bb", ")"}, {"if bb { ", "bb++", " }"}, {"for aa, bb := cc { aa = [[bb]] ", "bb--", " }"}}
		sh := shapes[c.Index%8]
		text := "aa := " + strings.Repeat(sh[0], k) + sh[1] + strings.Repeat(sh[2], k)
		if strings.HasPrefix(sh[0], "if") || strings.HasPrefix(sh[0], "for") {
			text = strings.TrimPrefix(text, "aa := ")
		}
		c.Put("text", text)
		timed(c, "lexing a nested script", func() {
			root, mistake, err := b.read("program", text)
			if err != nil {
				c.Fail("nested", "the script is refused: %v", err)
				return
			}
			c.Event("nested scripts")
			if mistake == nil {
				if _, err := b.parse(root, 64); err != nil {
					c.Fail("nested", "the script is not parsed: %v", err)
				}
				c.Event("nested scripts parsed")
			}
			c.Distinct(text)
		})
	})
	// grammars whose tokens refer to one another many times: the work must not multiply at each reference
	x.Each("references", x.Scale(60, 900), func(c *Case) {
		r := c.R
		s := &xScripts{pats: patternsOfLetters, rls: "A: \"a\";\nB: \"b\";\nC: \"c\";\n"}
		kind := c.Index % 6
		n := r.Range(16, 25)
		if kind == 4 || kind == 5 {
			n = r.Range(5, 7)
		}
		s.names = []string{"root"}
		name := func(i int) string {
			return fmt.Sprintf("t%c", 'a'+i)
		}
		cards := []string{"", "", "?", "+", "*", "{1,2}"}
		s.toks = "root: ta" + Pick(r, []string{"", "+", "{1,3}"}) + "\n;\n\n"
		for i := 0; i < n; i++ {
			next := name(i + 1)
			switch kind {
			case 0: // each one refers twice to the next
				s.toks += fmt.Sprintf("%s: A %s | B %s%s\n;\n", name(i), next, next, Pick(r, cards))
			case 1: // levels of operators
				s.toks += fmt.Sprintf("%s: %s %s %s | %s\n;\n", name(i), next, Pick(r, []string{"B", "A"}), next, next)
			case 2: // levels of operators, with a group around the first level
				s.toks += fmt.Sprintf("%s: %s B %s | %s\n;\n", name(i), next, name(i), next)
			case 3: // not blocks and specifiers
				s.toks += fmt.Sprintf("%s: A %s | B %s\n---\n: A A %s\n;\n", name(i), next, next, next)
			case 4: // all refer to all
				s.toks += name(i) + ": C"
				for j := 0; j < n; j++ {
					s.toks += fmt.Sprintf(" | %s %s", Pick(r, []string{"A", "B"}), name(j))
				}
				s.toks += "\n;\n"
			default: // many references in a line
				s.toks += name(i) + ": A"
				for j := 0; j < n; j++ {
					s.toks += fmt.Sprintf(" %s%s", name((i+1+j)%n), Pick(r, []string{"?", "*", "{0,2}"}))
				}
				s.toks += " C\n;\n"
			}
			s.names = append(s.names, name(i))
		}
		switch kind {
		case 2:
			s.toks += fmt.Sprintf("%s: C ta C | A\n;\n", name(n))
		case 0, 1, 3:
			s.toks += fmt.Sprintf("%s: A | C\n;\n", name(n))
		}
		if r.P(1, 4) && kind < 4 {
			s.chans = "chan: D\n;\n"
			s.rls += "D: \" \";\n"
		}
		text := ""
		for k := r.Range(1, 24); k > 0; k-- {
			text += Pick(r, []string{"a", "b", "a", "b", "c", " "})
		}
		if kind == 2 {
			text = strings.Repeat("c", r.Range(0, 3)) + "aba"
			text += strings.Repeat("c", strings.Count(text, "c"))
		}
		c.Put("rules", s.rls)
		c.Put("tokens", s.toks)
		c.Put("text", text)
		c.Distinct(s.toks, text)
		c.Event("grammars of many references")
		ct, err := containers.NewBuilder().Create().WithPatterns(s.pats).WithRules(s.rls).WithTokens(s.toks).Now()
		if err != nil {
			c.Fail("references", "the grammar is refused: %v", err)
			return
		}
		p, err := rpaths.NewBuilder().Create().WithRootToken("root").WithContainer(ct).Now()
		if err != nil {
			c.Fail("references", "the grammar is refused: %v", err)
			return
		}
		timed(c, "making a path", func() {
			path, err := xNewLexer().Path(p)
			outcome(c, "paths", path == nil, err)
			if err != nil {
				c.Fail("references", "the grammar has no path: %v", err)
			}
		})
		lexOnce(c, s, "root", text)
	})

	// scripts that include one another
	x.Each("includes", x.Scale(48, 600), func(c *Case) {
		r := c.R
		dir, err := os.MkdirTemp("", "zzincludes")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		base, err := lpaths.NewBuilder().Create().WithRules(dir).WithTokens(dir).WithChannels(dir).Now()
		if err != nil {
			panic(err)
		}
		lex, err := lexers.NewBuilder().Create().WithBasePaths(base).Now()
		if err != nil {
			panic(err)
		}
		n := r.Range(1, 5)
		back := r.P(2, 3)
		text := "aaa"
		body := func(k int) string {
			target := k + 1
			if k == n-1 {
				target = r.N(n)
			}
			if k == n-1 && !back {
				return "tok: A\n;\n"
			}
			refs := r.Range(1, 2)
			file := Pick(r, []string{"", "./", "../" + filepath.Base(dir) + "/", "./././"}) + fmt.Sprintf("f%d", target)
			out := fmt.Sprintf("include inc \"./rules;%s\"\n", file)
			for j := 0; j < refs; j++ {
				out += fmt.Sprintf("reference ref%c inc.tok\n", 'a'+j)
			}
			if r.P(1, 3) {
				out += "replace inc.other mine\n"
			}
			return out + "\ntok: A ref" + string(rune('a'+r.N(refs))) + Pick(r, []string{"?", "*", ""}) + "\n;\n\nmine: A\n;\n\nother: A\n;\n"
		}
		put := func(name string, content string) {
			c.Put(name, content)
			if err := os.WriteFile(filepath.Join(dir, name), []byte(content), 0o600); err != nil {
				panic(err)
			}
		}
		put("rules", "A: \"a\";\n")
		files := ""
		for k := 0; k < n; k++ {
			content := body(k)
			put(fmt.Sprintf("f%d", k), content)
			files += content
		}
		script := "include inc \"./rules;./f0\"\nreference refa inc.tok\n\nroot: refa\n;\n"
		m, err := xMultiple(patternsOfLetters, "A: \"a\";\n", script, "")
		if err != nil {
			c.Fail("includes", "the grammar is refused: %v", err)
			return
		}
		sg, err := singles.NewBuilder().Create().WithRootToken("root").WithMultiple(m).Now()
		if err != nil {
			c.Fail("includes", "the grammar is refused: %v", err)
			return
		}
		cnt, err := xContent(text, false, false)
		if err != nil {
			panic(err)
		}
		c.Distinct(files)
		timed(c, "lexing with includes", func() {
			ast, err := lex.AST(sg, cnt)
			outcome(c, "included scripts", ast == nil, err)
			if err == nil && back {
				c.Fail("includes", "a script that includes itself is read")
			}
			if err != nil && !back {
				c.Fail("includes", "a script whose includes have no cycle is refused: %v", err)
			}
		})
		timed(c, "running the suites with includes", func() {
			_, err := lex.Tests(m)
			if (err != nil) != back {
				c.Fail("includes", "a script whose includes have no cycle is refused, or the contrary: %v", err)
			}
		})
		if back {
			c.Event("scripts that include themselves")
		}
	})
	x.Each("long", 6, func(c *Case) {
		b := newBReal()
		one := []string{"aa := bb + 5\n", "if aa { bb++ }\n", "log([aa, 5, true])\n", "for aa, bb := cc { break }\n", "list<list<uint>> aa\n", "/* comment */ aa = append bb, 5.5\n"}[c.Index]
		text := strings.Repeat(one, x.Scale(40, 150))
		timed(c, "lexing a long script", func() {
			root, mistake, err := b.read("program", text)
			if err != nil || mistake != nil {
				c.Fail("long", "the script is refused: %v %v", err, mistake)
				return
			}
			if _, err := b.parse(root, 64); err != nil {
				c.Fail("long", "the script is not parsed: %v", err)
			}
			c.Event("long scripts")
			c.Distinct(text)
		})
	})
}

// lexOnce lexes a text and judges that there is one outcome.
func lexOnce(c *Case, s *xScripts, root string, text string) {
	m, err := xMultiple(s.pats, s.rls, s.toks, s.chans)
	if err != nil {
		return
	}
	sg, err := singles.NewBuilder().Create().WithRootToken(root).WithMultiple(m).Now()
	if err != nil {
		return
	}
	for k := 0; k < 3; k++ {
		cnt, err := xContent(text, k == 1, k == 2)
		if err != nil {
			if text != "" {
				c.Fail("content", "the text is refused: %v", err)
			}
			return
		}
		var ast asts.AST
		timed(c, "lexing a script", func() {
			ast, err = xNewLexer().AST(sg, cnt)
		})
		c.Event("texts lexed")
		if err != nil {
			c.Event("texts refused with an error")
			continue
		}
		if ast == nil || ast.IsSuccess() == ast.IsMistake() {
			c.Fail("one outcome", "the reading is neither a success nor a mistake, or both")
			continue
		}
		rt, mis, err := xNewLexer().Root(sg, cnt)
		if err != nil {
			c.Fail("root", "there is a reading, but no root: %v", err)
			continue
		}
		if (rt == nil) == (mis == nil) || (mis == nil) != ast.IsSuccess() {
			c.Fail("one outcome", "the outcomes of the reading and of the root differ")
		}
	}
}

// lexAltered runs all that a lexer does with an altered grammar.
func lexAltered(c *Case, s *xScripts, g *xGrammar) {
	r := c.R
	ct, err := containers.NewBuilder().Create().WithPatterns(s.pats).WithRules(s.rls).WithTokens(s.toks).Now()
	if err != nil {
		c.Event("refusals of containers")
		return
	}
	var list, chans tokens.Tokens
	timed(c, "reading a grammar", func() {
		list, err = xNewLexer().Tokens(ct)
	})
	if !outcome(c, "grammars", list == nil, err) {
		return
	}
	if s.chans != "" {
		cc, err := containers.NewBuilder().Create().WithPatterns(s.pats).WithRules(s.rls).WithTokens(s.chans).Now()
		if err == nil {
			chans, err = xNewLexer().Tokens(cc)
		}
		if err != nil {
			c.Event("refusals of channels")
			return
		}
	}
	left := leftRecursive(list, chans)
	if left {
		c.Event("left recursive grammars")
	}
	for _, name := range append([]string{"unknownToken"}, s.names...) {
		p, err := rpaths.NewBuilder().Create().WithRootToken(name).WithContainer(ct).Now()
		if err != nil {
			continue
		}
		timed(c, "making a path", func() {
			path, err := xNewLexer().Path(p)
			outcome(c, "paths", path == nil, err)
		})
	}
	if left {
		return
	}
	for k := 0; k < 3; k++ {
		root := Pick(r, s.names)
		text := g.genText(r, root, 12)
		if r.P(1, 2) {
			text = xMutate(r, text, []string{"a", "b", "c", "d", "é", "\n", "aa"})
		}
		c.Put("root", root)
		c.Put("text", text)
		lexOnce(c, s, root, text)
	}
	m, err := xMultiple(s.pats, s.rls, s.toks, s.chans)
	if err != nil {
		return
	}
	timed(c, "running the suites", func() {
		_, err := xNewLexer().Tests(m)
		c.Event("suites run")
		if err != nil {
			c.Event("suites refused")
		}
	})
}
