//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	langparsers "github.com/steve-care-software/steve/applications/languages/parsers"
	lastpaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

func init() {
	register(&Check{ID: "L18", Race: true,
		Rule: "a case is non trivial when at least eight goroutines ran the operations and each answer was compared with the one obtained alone",
		Run:  runL18, Assumptions: []string{
			"a token adapter or a syntax tree adapter is used by one goroutine: the lexer application builds one for each call",
			"a builder is shared through Create, never while it is being filled"}})
}

// ---------------------------------------------------------------- L18

// xOp is something that gives the same answer whenever it is asked.
type xOp struct {
	kind string
	run  func() string
}

// xTogether runs the operations in many goroutines. No lock of the harness is taken between two operations: it would order them.
func xTogether(c *Case, stage string, workers int, rounds int, ops []xOp, want []string, pick func(r *Rng, g int, i int) int) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	done := make([][]int, workers)
	for g := 0; g < workers; g++ {
		wg.Add(1)
		seed := c.R.U64()
		done[g] = make([]int, len(ops))
		go func(g int) {
			defer wg.Done()
			r := NewRng(seed, g)
			<-start
			for i := 0; i < rounds; i++ {
				k := pick(r, g, i)
				got := ""
				if p := Guard(func() { got = ops[k].run() }); p != "" {
					c.Fail("panic "+ops[k].kind, "with others, %s panics: %s", ops[k].kind, p)
					return
				}
				if got != want[k] {
					c.Fail("differs "+ops[k].kind, "with others, %s gives %s, alone it gives %s", ops[k].kind, got, want[k])
					return
				}
				done[g][k]++
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range done {
		for k, n := range done[g] {
			if n > 0 {
				c.EventN("together "+ops[k].kind, n)
				c.Distinct(c.ID, stage, g, k, n)
			}
		}
	}
}

// xStages asks the operations alone, then in many goroutines: any of them, each in turn, and one of them only. Those of
// every stage are made anew.
func xStages(c *Case, build func(c *Case, r *Rng) []xOp, rounds int) {
	seed := c.R.U64()
	fresh := func() []xOp { return build(c, NewRng(seed, 0)) }
	ops := fresh()
	if len(ops) == 0 {
		return
	}
	want := []string{}
	for _, o := range ops {
		want = append(want, o.run())
	}
	for i, o := range ops {
		if got := o.run(); got != want[i] {
			c.Fail("twice", "%s gives %s, then %s", o.kind, want[i], got)
			return
		}
	}
	stage := func(name string, rounds int, pick func(r *Rng, g int, i int) int) {
		if now := fresh(); len(now) == len(want) {
			xTogether(c, name, 8, rounds, now, want, pick)
			return
		}
		c.Fail("twice", "what was made of the same is not the same")
	}
	stage("mixed", rounds, func(r *Rng, g int, i int) int { return r.N(len(want)) })
	stage("same", len(want), func(r *Rng, g int, i int) int { return i })
	again := fresh()
	for k := 0; k < 4; k++ {
		one := c.R.N(len(want))
		xTogether(c, "alike", 8, 4, again, want, func(r *Rng, g int, i int) int { return one })
	}
}

func xTokensString(list tokens.Tokens) string {
	var b strings.Builder
	lines := func(l tokens.Lines) {
		for _, one := range l.All() {
			for _, i := range one.Instructions() {
				if !i.IsElement() {
					b.WriteString(" #")
					continue
				}
				el := i.Element()
				b.WriteString(" " + el.Code())
				if el.HasCardinality() {
					low, high := el.Cardinality().Delimiter()
					fmt.Fprintf(&b, "{%d,%v}", low, high != nil)
				}
			}
			b.WriteString("|")
		}
	}
	for _, t := range list.All() {
		b.WriteString(t.Name() + ":")
		lines(t.Block().Must())
		if t.Block().HasNot() {
			b.WriteString("!")
			lines(t.Block().Not())
		}
		b.WriteString(";")
	}
	return b.String()
}

// xObserve observes a root in every way.
func xObserve(r roots.Root) string {
	out := xRootString(r)
	for _, name := range sortedKeys(r.Nodes().All()) {
		n, err := r.Nodes().Fetch(name)
		if err != nil {
			return "error"
		}
		rt, nd, k, s := xScan(r, name)
		out += fmt.Sprintf(" %s %s %v %v %v %q", name, n.Content(), rt, nd, k, s)
	}
	_, _, _, _, err := r.Nodes().Scan("absentelement")
	return out + fmt.Sprint(err != nil)
}

func xScan(r roots.Root, name string) (bool, bool, bool, string) {
	rt, nd, k, s, _ := r.Nodes().Scan(name)
	return rt != nil, nd != nil, k != nil, s
}

func runL18(x *Ctx) {
	// what is shared is made anew for every stage, out of the same draws: nothing has been asked of it when many ask at once
	grammars := func(c *Case, r *Rng) []xOp {
		shared := xNewLexer()
		sharedBuilder := lexers.NewBuilder()
		patternsAdapter, rulesAdapter, refsAdapter, cardAdapter := patterns.NewAdapter(), rules.NewAdapter(), references.NewAdapter(), cardinality.NewAdapter()
		tokensBuilder := tokens.NewAdapterBuilder()
		parser := langparsers.NewApplication()
		ops := []xOp{}
		add := func(kind string, run func() string) { ops = append(ops, xOp{kind, run}) }
		for k := r.Range(1, 3); k > 0; k-- {
			g := drawGrammar(r, gramOpts{tokens: r.Range(2, 5), recur: r.P(2, 3), channels: r.P(1, 2), nots: r.P(1, 2), specs: r.P(1, 2), switches: r.P(1, 3)})
			pats, rls, toks, chans := g.patternsScript(), g.rulesScript(), xTokensScript(g.tokens), xTokensScript(g.channels)
			c.Put(fmt.Sprintf("grammar %d", k), g.script())
			m, err := xMultiple(pats, rls, toks, chans)
			if err != nil {
				c.Fail("resource", "%v", err)
				return nil
			}
			for n := r.Range(2, 4); n > 0; n-- {
				root := Pick(r, g.tokens).name
				text := g.genText(r, root, r.Range(3, 14))
				if r.P(1, 3) {
					text = mutate(r, text, xAlpha+" _")
				}
				if text == "" {
					continue
				}
				if _, _, ok := g.recognize(root, text, 1200); !ok {
					continue
				}
				add("reading with one shared lexer", func() string { return g.real(shared, root, text).full() })
				add("reading with a lexer of its own", func() string { return g.real(xNewLexer(), root, text).full() })
				add("reading with a lexer of a shared builder", func() string {
					l, err := sharedBuilder.Create().WithBasePaths(xPaths).Now()
					if err != nil {
						return "no lexer"
					}
					return g.real(l, root, text).full()
				})
				// one resource, one content, one result
				sg, err := singles.NewBuilder().Create().WithRootToken(root).WithMultiple(m).Now()
				if err != nil {
					c.Fail("resource", "%v", err)
					return nil
				}
				ct, err := xContent(text, false, false)
				if err != nil {
					c.Fail("content", "%v", err)
					return nil
				}
				add("reading a shared resource", func() string {
					rt, mis, err := shared.Root(sg, ct)
					if rt != nil {
						return xRootString(rt)
					}
					return fmt.Sprint(err != nil) + xMistakeString(mis)
				})
				ast, err := shared.AST(sg, ct)
				if err != nil {
					c.Fail("reading", "%v", err)
					return nil
				}
				add("observing a shared tree", func() string {
					if ast.IsMistake() {
						return xMistakeString(ast.Mistake())
					}
					return xFromAST(ast.Success()).String()
				})
				if rt, _, err := shared.Root(sg, ct); err == nil && rt != nil {
					add("observing a shared root", func() string { return xObserve(rt) })
					events := map[string][]langparsers.EventFunc{}
					for _, t := range g.tokens {
						name := t.name
						events[name] = []langparsers.EventFunc{
							func(r roots.Root, m langparsers.Manager) (interface{}, error) {
								return nil, fmt.Errorf("never")
							},
							func(r roots.Root, m langparsers.Manager) (interface{}, error) {
								out := name + "("
								for _, one := range sortedKeys(r.Nodes().All()) {
									res, err := m.Trigger(one, r)
									if err != nil {
										out += one + ":error "
										continue
									}
									out += one + ":" + xShow(res.First()) + xShow(res.List()) + " "
								}
								return out + ")", nil
							},
						}
					}
					add("parsing a shared root with a shared parser", func() string {
						v, err := parser.Execute(rt, events)
						return fmt.Sprint(v, err != nil)
					})
				}
			}
			pt, err := patternsAdapter.ToPatterns(pats)
			if err != nil {
				c.Fail("patterns", "%v", err)
				return nil
			}
			ru, err := rulesAdapter.Rules(rls, pt)
			if err != nil {
				c.Fail("rules", "%v", err)
				return nil
			}
			list, err := shared.Tokens(m.Container())
			if err != nil {
				c.Fail("tokens", "%v", err)
				return nil
			}
			name := Pick(r, g.tokens).name
			sample := g.genText(r, name, 10) + "ab"
			add("reading patterns and rules with shared readers", func() string {
				p, err := patternsAdapter.ToPatterns(pats)
				if err != nil {
					return "error"
				}
				l, err := rulesAdapter.Rules(rls, p)
				if err != nil {
					return "error"
				}
				out := ""
				for _, one := range l.All() {
					out += one.Name() + " "
				}
				return out
			})
			add("matching with shared patterns", func() string {
				res, err := patternsAdapter.FromPatternsToResult(pt, sample)
				if err != nil {
					return "error"
				}
				out := ""
				for _, one := range pt.All() {
					_, err := patternsAdapter.FromPatternToResult(one, sample)
					out += fmt.Sprint(err != nil)
				}
				return fmt.Sprint(res.Input(), res.HasRemaining(), out)
			})
			add("reading tokens with shared rules", func() string {
				ad, err := tokensBuilder.Create().WithRules(ru).Now()
				if err != nil {
					return "error"
				}
				l, err := ad.ToTokens(toks)
				if err != nil {
					return "error"
				}
				return xTokensString(l)
			})
			add("observing shared tokens", func() string {
				one, err := list.Find(name)
				if err != nil {
					return "absent"
				}
				return one.Name() + xTokensString(list)
			})
			add("reading references and cardinalities", func() string {
				refs, err := refsAdapter.ToReferences(referencesScript)
				out := fmt.Sprint(refs != nil, err != nil)
				card, err := cardAdapter.ToCardinality("{2,7}")
				if err != nil {
					return "error"
				}
				low, high := card.Delimiter()
				return out + fmt.Sprint(low, *high, card.IsValid(1), card.IsValid(7))
			})
			if pathRes, err := g.pathResource(name); err == nil {
				observe := func(p lastpaths.Path) string {
					all := []string{}
					for _, e := range p.CombinedElements() {
						all = append(all, xElementString(e))
					}
					sort.Strings(all)
					return xPathString(p) + strings.Join(all, ";")
				}
				add("asking the path of a token", func() string {
					p, err := shared.Path(pathRes)
					if err != nil {
						return "error"
					}
					return observe(p)
				})
				if p, err := shared.Path(pathRes); err == nil {
					add("observing a shared path", func() string { return observe(p) })
				}
			}
			add("running the suites", func() string {
				all, err := shared.Tests(m)
				if err != nil {
					return "error"
				}
				out := ""
				for _, s := range all {
					out += s.Name()
					for _, l := range s.Lines() {
						out += fmt.Sprint(" ", l.IsSuccess())
					}
				}
				return out
			})
		}
		return ops
	}
	x.Each("grammars", x.Scale(30, 500), func(c *Case) {
		xStages(c, grammars, 40)
	})

	// grammars over several files, read at the same time
	linked := func(c *Case, r *Rng) []xOp {
		var root *xFile
		files := map[string]*xFile{}
		for {
			letters := 0
			files = map[string]*xFile{}
			root = genFile(r, "root", r.Range(1, 3), &letters, nil, files)
			flat := &xGrammar{channels: root.g.channels, root: root.g.root}
			root.inline(flat, map[string]string{})
			if flat.small() && !flat.hopeless() {
				break
			}
		}
		collide := r.N(3)
		dir, clean := xScratch()
		c.Later(clean)
		link, err := xLink(dir, files, r, collide)
		if err != nil {
			c.Fail("setup", "%v", err)
			return nil
		}
		script := root.script(r, collide)
		c.Put("script", script)
		flat := &xGrammar{channels: root.g.channels, root: root.g.root}
		root.inline(flat, map[string]string{})
		ops := []xOp{}
		for k := 0; k < 4; k++ {
			tok := Pick(r, root.g.tokens).name
			text := flat.genText(r, tok, r.Range(4, 12))
			if text == "" {
				continue
			}
			if _, _, ok := flat.recognize(tok, text, 1500); !ok {
				continue
			}
			s, err := root.single(script, tok, collide)
			if err != nil {
				c.Fail("resource", "%v", err)
				return nil
			}
			ops = append(ops, xOp{"reading with a shared lexer and files", func() string { return link.read(s, text).full() }})
			ops = append(ops, xOp{"reading references with a shared lexer", func() string {
				refs, err := link.lex.References(script)
				return fmt.Sprint(refs != nil, err != nil)
			}})
		}
		return ops
	}
	x.Each("linked", x.Scale(14, 240), func(c *Case) {
		xStages(c, linked, 12)
	})

	// the base language
	program := func(c *Case, r *Rng) []xOp {
		b := newBReal()
		events := base.NewEvents(64)
		parser := langparsers.NewApplication()
		ops := []xOp{}
		for k := 0; k < 4; k++ {
			p := bProgramOf(r, r.Range(1, 3), false)
			if len(p.text) > 300 {
				continue
			}
			root, mistake, err := b.read("program", p.text)
			if err != nil || mistake != nil {
				c.Fail("base", "a program is refused: %v %v", err, mistake)
				return nil
			}
			dump := func(rt roots.Root) string {
				v, err := parser.Execute(rt, events)
				if err != nil {
					return "error " + err.Error()
				}
				prog, ok := v.(base.Program)
				if !ok {
					return "not a program"
				}
				return (&bDump{}).program(prog)
			}
			sg := b.single["program"]
			ops = append(ops, xOp{"reading and parsing a program", func() string {
				ct, err := xContent(p.text, false, false)
				if err != nil {
					return "error"
				}
				rt, _, err := b.lex.Root(sg, ct)
				if err != nil || rt == nil {
					return "refused"
				}
				return dump(rt)
			}})
			ops = append(ops, xOp{"parsing a shared root of the base language", func() string { return dump(root) }})
			v, err := parser.Execute(root, events)
			if err != nil {
				c.Fail("base", "a program is not parsed: %v", err)
				return nil
			}
			if prog, ok := v.(base.Program); ok {
				ops = append(ops, xOp{"observing a shared program", func() string { return (&bDump{}).program(prog) }})
			}
			c.Put(fmt.Sprintf("program %d", k), p.text)
		}
		return ops
	}
	x.Each("base", x.Scale(8, 64), func(c *Case) {
		xStages(c, program, 4)
	})

	// parts built by hand, of which nothing was asked yet
	x.Each("parts", x.Scale(8, 120), func(c *Case) {
		p := newPartPool(c.R, c.R.Range(1, 3))
		type seen struct {
			kind *partKind
			part reflect.Value
		}
		all := []seen{}
		for _, k := range p.kinds {
			for _, part := range p.byArg[k.product] {
				if k.product.Kind() == reflect.Interface {
					all = append(all, seen{k, part})
				}
			}
		}
		// the names of the parts of a list, drawn among those of the parts it could have been made of
		names := make([][]string, len(all))
		for i, one := range all {
			f, ok := partFetches[one.kind.name]
			if !ok {
				continue
			}
			for _, s := range one.kind.setters {
				if s.name == f.setter {
					for _, part := range p.byArg[s.arg.Elem()] {
						name, _ := partName(part)
						names[i] = append(names[i], name, "no "+name)
					}
				}
			}
		}
		const workers = 8
		start := make(chan struct{})
		var wg sync.WaitGroup
		answers := make([]map[string]string, workers)
		for g := 0; g < workers; g++ {
			wg.Add(1)
			seed := c.R.U64()
			answers[g] = map[string]string{}
			go func(g int) {
				defer wg.Done()
				r := NewRng(seed, g)
				<-start
				order := r.Perm(len(all))
				if g%2 == 0 {
					// half of them meet on the same parts
					for i := range order {
						order[i] = i
					}
				}
				for _, i := range order {
					for _, m := range r.Perm(len(all[i].kind.getters)) {
						name := all[i].kind.getters[m]
						key := fmt.Sprintf("%d %s %s", i, all[i].kind.name, name)
						if p := Guard(func() { answers[g][key] = xAnswer(all[i].part.MethodByName(name).Call(nil)[0]) }); p != "" {
							answers[g][key] = "panic"
						}
					}
					f, ok := partFetches[all[i].kind.name]
					if !ok {
						continue
					}
					for _, m := range r.Perm(len(names[i])) {
						key := fmt.Sprintf("%d %s %s(%q)", i, all[i].kind.name, f.fetch, names[i][m])
						if p := Guard(func() {
							out := all[i].part.MethodByName(f.fetch).Call([]reflect.Value{reflect.ValueOf(names[i][m])})
							answers[g][key] = xAnswer(out[1])
							if out[1].IsNil() {
								name, _ := partName(out[0])
								answers[g][key] = "the part of the name " + name
							}
						}); p != "" {
							answers[g][key] = "panic"
						}
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := 1; g < workers; g++ {
			for key, one := range answers[0] {
				if other := answers[g][key]; other != one {
					c.Fail("part", "with others, %s gives %s to one and %s to another", key, one, other)
					return
				}
			}
		}
		c.EventN("together observing shared parts", workers*len(answers[0]))
		for key, one := range answers[0] {
			if strings.HasPrefix(one, "the part of the name") {
				c.EventN("together finding "+strings.Fields(key)[1], workers)
			}
		}
		c.Distinct(c.ID, len(all), len(answers[0]))
	})
}

// xAnswer is what can be compared of an answer.
func xAnswer(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		return fmt.Sprint(v.IsNil())
	case reflect.Slice, reflect.Map:
		if v.Type().Elem().Kind() == reflect.String || v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprint(v.Interface())
		}
		return fmt.Sprint(v.Len())
	}
	return fmt.Sprint(v.Interface())
}
