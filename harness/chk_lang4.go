//go:build go1.21

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	lpaths "github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
)

func init() {
	register(&Check{ID: "L10", Rule: "a case is non trivial when the texts of a grammar split over files were compared with the reference reading of the inline one and at least one reference was read", Run: runL10, Assumptions: []string{
		"the rules of linked files use the patterns of the grammar that includes them",
		"a token that replaces another one refers at most to the tokens of the includes written before its own",
		"channels of a grammar never match at the same position", "grammars are not left recursive"}})
}

// ---------------------------------------------------------------- L10

// xFile is a script of a split grammar.
type xFile struct {
	name     string
	g        *xGrammar
	includes []*xInclude
	parent   *xFile
}

type xInclude struct {
	name string
	file *xFile
	refs [][2]string // local name, name in the file
	reps [][2]string // name in the file, local name
}

// rename gives every token of the grammar a name of its file.
func (g *xGrammar) rename(prefix string) {
	to := map[string]string{}
	for _, t := range g.tokens {
		to[t.name] = prefix + strings.TrimPrefix(t.name, "t")
	}
	for _, t := range append(append([]*xToken{}, g.tokens...), g.channels...) {
		if n, ok := to[t.name]; ok {
			t.name = n
		}
		for _, block := range [][]xLine{t.must, t.not} {
			for _, l := range block {
				for _, it := range l {
					if it.sw {
						continue
					}
					if it.el.token != "" {
						it.el.token = to[it.el.token]
					}
					for i := range it.el.specs {
						if n, ok := to[it.el.specs[i].name]; ok {
							it.el.specs[i].name = n
						}
					}
				}
			}
		}
	}
	if g.root != "" {
		g.root = to[g.root]
	}
}

// genFile draws a script that includes others, down to a depth.
func genFile(r *Rng, name string, depth int, letters *int, parent *xFile, files map[string]*xFile) *xFile {
	letter := string("abcdefghijklmnopqrstuvw"[*letters])
	*letters++
	f := &xFile{name: name, parent: parent}
	files[name] = f
	alpha := "abc"
	if r.P(2, 3) {
		alpha = string("abcdefghijklmnopqrstuvw"[3**letters:][:3])
	}
	o := gramOpts{tokens: r.Range(1, 3), recur: r.P(1, 2), nots: r.P(1, 5), specs: r.P(1, 4), switches: r.P(1, 5), alpha: alpha}
	if parent == nil {
		o.channels = r.P(1, 2)
	} else {
		o.pats = parent.g.pats
	}
	f.g = genGrammar(r, o)
	f.g.rename("tok" + letter)
	if depth == 0 {
		return f
	}
	for k := r.Range(1, 2); k > 0 && *letters < 6; k-- {
		inc := &xInclude{name: "inc" + letter + string("abcd"[k])}
		// the file names may hold any characters
		odd := ""
		if r.P(1, 6) {
			odd = Pick(r, []string{" ", "é", "a b", "$", "(", ".", "%d", "\\", "sub/", "#"})
		}
		inc.file = genFile(r, fmt.Sprintf("%s%s_%d", odd, name, k), r.N(depth), letters, f, files)
		f.includes = append(f.includes, inc)
	}
	own := append([]*xToken{}, f.g.tokens...)
	for ii, inc := range f.includes {
		for k := 0; k < r.Range(1, 2); k++ {
			target := Pick(r, inc.file.g.tokens).name
			local := "ref" + letter + string("abcd"[ii]) + string("abcd"[k])
			inc.refs = append(inc.refs, [2]string{local, target})
			// used where a later token may be
			t := own[r.N(len(own))]
			l := r.N(len(t.must))
			it := xItem{el: &xElem{token: local, card: genCard(r)}}
			at := r.N(len(t.must[l]) + 1)
			if r.P(1, 2) {
				t.must[l] = append(append(xLine{}, t.must[l][:at]...), it)
				continue
			}
			t.must[l] = append(append(append(xLine{}, t.must[l][:at]...), it), t.must[l][at:]...)
		}
		if r.P(1, 2) {
			// a token made of rules replaces one that the file uses
			used := []string{}
			for _, t := range inc.file.g.tokens {
				for _, l := range t.must {
					for _, it := range l {
						if !it.sw && it.el.rule == nil && len(it.el.specs) == 0 && it.el.token != t.name && inc.file.g.tok(it.el.token) != nil {
							used = append(used, it.el.token)
						}
					}
				}
			}
			if len(used) > 0 {
				local := &xToken{name: "rep" + letter + string("abcd"[ii])}
				line := xLine{xItem{el: &xElem{rule: Pick(r, f.g.rules), card: xOne}}}
				if r.P(1, 2) {
					line = append(line, xItem{el: &xElem{rule: Pick(r, f.g.rules), card: genCard(r)}})
				}
				local.must = []xLine{line}
				if ii > 0 && r.P(1, 2) {
					// a replacement may refer to the tokens of the other includes
					other := f.includes[r.N(ii)]
					line = append(line, xItem{el: &xElem{token: Pick(r, other.refs)[0], card: genCard(r)}})
					local.must[0] = line
				}
				f.g.tokens = append(f.g.tokens, local)
				if r.P(1, 2) {
					helpers(r, f, local, "tok"+letter)
				}
				inc.reps = append(inc.reps, [2]string{Pick(r, used), local.name})
			}
		}
	}
	return f
}

// helpers gives the token others to refer to, that refer to one another and may be named as the tokens of other files are.
func helpers(r *Rng, f *xFile, local *xToken, prefix string) {
	list := []*xToken{}
	for n := r.Range(1, 3); n > 0; n-- {
		for _, suffix := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"} {
			if f.g.tok(prefix+suffix) == nil {
				h := &xToken{name: prefix + suffix}
				list = append(list, h)
				f.g.tokens = append(f.g.tokens, h)
				break
			}
		}
	}
	rule := func(card xCard) xItem { return xItem{el: &xElem{rule: Pick(r, f.g.rules), card: card}} }
	for i, h := range list {
		line := xLine{rule(xOne)}
		if i+1 < len(list) || r.P(1, 2) {
			line = append(line, xItem{el: &xElem{token: list[(i+1)%len(list)].name, card: genCard(r)}})
		}
		h.must = []xLine{line, {rule(xOne)}}
	}
	at := r.N(len(local.must[0]) + 1)
	it := xItem{el: &xElem{token: list[0].name, card: Pick(r, []xCard{xOne, genCard(r)})}}
	local.must[0] = append(append(append(xLine{}, local.must[0][:at]...), it), local.must[0][at:]...)
}

// specced tells if a specifier of the grammar counts that name.
func (g *xGrammar) specced(name string) bool {
	for _, t := range g.tokens {
		for _, block := range [][]xLine{t.must, t.not} {
			for _, l := range block {
				for _, it := range l {
					if it.sw {
						continue
					}
					for _, s := range it.el.specs {
						if s.name == name {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// shown gives the name under which a token is written: the same names in every file when they collide.
func xShown(name string, collide int) string {
	if collide == 0 || !strings.HasPrefix(name, "tok") {
		return name
	}
	if collide == 2 {
		// names that only differ by the case of their letters
		out := []byte("tokxyz")
		for i := range out[1:] {
			if (name[3]-'a')>>i&1 == 1 {
				out[i+1] -= 32
			}
		}
		return string(out) + name[4:]
	}
	return "tok" + name[4:]
}

func (g *xGrammar) shown(collide int) *xGrammar {
	out := g.clone()
	for _, t := range append(append([]*xToken{}, out.tokens...), out.channels...) {
		t.name = xShown(t.name, collide)
		for _, block := range [][]xLine{t.must, t.not} {
			for _, l := range block {
				for i := range l {
					if l[i].sw {
						continue
					}
					e := *l[i].el
					e.token = xShown(e.token, collide)
					e.specs = nil
					for _, sp := range l[i].el.specs {
						e.specs = append(e.specs, xSpec{xShown(sp.name, collide), sp.card})
					}
					l[i].el = &e
				}
			}
		}
	}
	return out
}

func (n *xNode) shown(collide int) *xNode {
	if n == nil {
		return nil
	}
	out := *n
	out.token = xShown(n.token, collide)
	out.parts = nil
	for _, p := range n.parts {
		p.tok = xShown(p.tok, collide)
		subs := []*xNode{}
		for _, s := range p.subs {
			subs = append(subs, s.shown(collide))
		}
		p.subs = subs
		out.parts = append(out.parts, p)
	}
	return &out
}

// head is the include, reference and replace lines of a script, in any order of the statements.
func (f *xFile) head(r *Rng, collide int) string {
	list := []string{}
	for _, inc := range f.includes {
		list = append(list, fmt.Sprintf("include %s \"%s.rules;%s.tokens\"", inc.name, inc.file.name, inc.file.name))
		for _, p := range inc.refs {
			list = append(list, fmt.Sprintf("reference %s %s.%s", p[0], inc.name, xShown(p[1], collide)))
		}
		for _, p := range inc.reps {
			list = append(list, fmt.Sprintf("replace %s.%s %s", inc.name, xShown(p[0], collide), p[1]))
		}
	}
	out := ""
	for _, i := range r.Perm(len(list)) {
		out += list[i] + Pick(r, []string{"\n", "\n\n", " \n", "\r\n"})
	}
	return out
}

func (f *xFile) script(r *Rng, collide int) string {
	return f.head(r, collide) + "\n" + xTokensScript(f.g.shown(collide).tokens)
}

// inline adds the tokens of the file and its includes to the grammar.
func (f *xFile) inline(into *xGrammar, replaced map[string]string) {
	my := f.g.clone()
	at := func(name string) string {
		if n, ok := replaced[name]; ok {
			return n
		}
		return name
	}
	for _, t := range my.tokens {
		for _, block := range [][]xLine{t.must, t.not} {
			for _, l := range block {
				for i := range l {
					if !l[i].sw && l[i].el.rule == nil {
						e := *l[i].el
						e.token = at(e.token)
						l[i].el = &e
					}
				}
			}
		}
		into.tokens = append(into.tokens, t)
	}
	for _, inc := range f.includes {
		reps := map[string]string{}
		for k, v := range replaced {
			reps[k] = v
		}
		for _, p := range inc.reps {
			reps[p[0]] = p[1]
		}
		inc.file.inline(into, reps)
		for _, p := range inc.refs {
			t := *into.tok(p[1])
			t.name = p[0]
			into.tokens = append(into.tokens, &t)
		}
	}
}

type xLinked struct {
	dir string
	lex lexers.Application
}

func xLink(dir string, files map[string]*xFile, r *Rng, collide int) (*xLinked, error) {
	for _, f := range files {
		if f.parent == nil {
			continue
		}
		for _, kind := range []string{"r", "t"} {
			if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, kind, f.name)), 0o700); err != nil {
				return nil, err
			}
		}
		if err := os.WriteFile(filepath.Join(dir, "r", f.name+".rules"), []byte(f.g.rulesScript()), 0o600); err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dir, "t", f.name+".tokens"), []byte(f.script(r, collide)), 0o600); err != nil {
			return nil, err
		}
	}
	return xLinkedTo(dir)
}

// xLinkedTo gives a fresh lexer of the files of the directory.
func xLinkedTo(dir string) (*xLinked, error) {
	base, err := lpaths.NewBuilder().Create().WithRules(filepath.Join(dir, "r")).WithTokens(filepath.Join(dir, "t")).WithChannels(filepath.Join(dir, "c")).Now()
	if err != nil {
		return nil, err
	}
	lex, err := lexers.NewBuilder().Create().WithBasePaths(base).Now()
	if err != nil {
		return nil, err
	}
	return &xLinked{dir, lex}, nil
}

func (f *xFile) single(script string, root string, collide int) (singles.Single, error) {
	m, err := xMultiple(f.g.patternsScript(), f.g.rulesScript(), script, xTokensScript(f.g.shown(collide).channels))
	if err != nil {
		return nil, err
	}
	return singles.NewBuilder().Create().WithRootToken(xShown(root, collide)).WithMultiple(m).Now()
}

func (k *xLinked) read(s singles.Single, text string) *xReal {
	return k.readAs(s, text, false, false)
}

func (k *xLinked) readAs(s singles.Single, text string, pre bool, suf bool) *xReal {
	out := &xReal{}
	ct, err := xContent(text, pre, suf)
	if err != nil {
		out.err, out.where = err, "content"
		return out
	}
	ast, err := k.lex.AST(s, ct)
	if err != nil {
		out.err, out.where = err, "AST"
		return out
	}
	out.ast = ast
	if ast.IsMistake() {
		out.mistake = ast.Mistake()
	}
	if ast.IsSuccess() {
		out.node = xFromAST(ast.Success())
	}
	rt, _, err := k.lex.Root(s, ct)
	if err != nil {
		out.err, out.where = err, "Root"
		return out
	}
	out.root = rt
	return out
}

func xScratch() (string, func()) {
	dir, err := os.MkdirTemp("", "zzverif-link-")
	if err != nil {
		panic(err)
	}
	for _, d := range []string{"r", "t", "c"} {
		if err := os.Mkdir(filepath.Join(dir, d), 0o700); err != nil {
			panic(err)
		}
	}
	return dir, func() { os.RemoveAll(dir) }
}

// genSplit draws a grammar split over files, whose names start with the one given, and the inline one that it stands for.
func genSplit(r *Rng, name string) (*xFile, *xGrammar, map[string]*xFile) {
	var root *xFile
	files := map[string]*xFile{}
	flat := &xGrammar{}
	for {
		letters := 0
		files = map[string]*xFile{}
		root = genFile(r, name, r.Range(1, 3), &letters, nil, files)
		bad := false
		for _, f := range files {
			for _, inc := range f.includes {
				for _, p := range inc.reps {
					bad = bad || inc.file.g.specced(p[0])
				}
			}
		}
		flat = &xGrammar{channels: root.g.channels, root: root.g.root}
		root.inline(flat, map[string]string{})
		if !bad && flat.small() && !flat.hopeless() {
			break
		}
	}
	return root, flat, files
}

// genChain draws a script that includes others, whose replacements refer to the tokens of the other includes.
func genChain(r *Rng) (*xFile, *xGrammar, map[string]*xFile) {
	files := map[string]*xFile{}
	alphas := r.Perm(19)
	grammar := func(k int, pats []*xPat) *xGrammar {
		g := genGrammar(r, gramOpts{tokens: 1, alpha: string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ01234"[3*alphas[k]:][:3]), pats: pats})
		g.tokens = nil
		return g
	}
	item := func(g *xGrammar, token string, card xCard) xItem {
		if token == "" {
			return xItem{el: &xElem{rule: Pick(r, g.rules), card: card}}
		}
		return xItem{el: &xElem{token: token, card: card}}
	}
	root := &xFile{name: "root", g: grammar(0, nil)}
	files[root.name] = root
	n := r.Range(2, 4)
	if r.P(1, 40) {
		n = r.Range(9, 12)
	}
	// names that only differ by the case of their letters
	cased := r.P(1, 3)
	for k := 0; k < n; k++ {
		letter := string("abcdefghijklmn"[k+1])
		f := &xFile{name: "root_" + letter, g: grammar(k+1, root.g.pats), parent: root}
		files[f.name] = f
		one, two := "tok"+letter+"a", "tok"+letter+"b"
		line := xLine{item(f.g, "", xOne), item(f.g, two, Pick(r, []xCard{xOne, xOne, genCard(r)}))}
		if r.P(1, 3) {
			line = append(line, item(f.g, "", xOne))
		}
		f.g.tokens = []*xToken{{name: one, must: []xLine{line}}, {name: two, must: []xLine{{item(f.g, "", xOne)}}}}
		inc := &xInclude{name: "inc" + string("ghijkl"[alphas[k]%6]) + letter, file: f, refs: [][2]string{{"ref" + letter, one}}}
		if cased {
			name := []byte("incxyz")
			for i := range name[1:] {
				if alphas[k]>>i&1 == 1 {
					name[i+1] -= 32
				}
			}
			inc.name = string(name)
		}
		root.includes = append(root.includes, inc)
		if k == 0 && r.P(1, 4) {
			continue
		}
		local := &xToken{name: "rep" + letter}
		body := xLine{item(root.g, "", xOne)}
		if k > 0 {
			earlier := root.includes[r.N(k)].refs[0][0]
			if r.P(1, 3) {
				// through another token
				through := &xToken{name: "toka" + letter, must: []xLine{{item(root.g, earlier, Pick(r, []xCard{xOne, genCard(r)}))}}}
				root.g.tokens = append(root.g.tokens, through)
				earlier = through.name
			}
			body = append(body, item(root.g, earlier, Pick(r, []xCard{xOne, xOne, genCard(r)})))
		}
		local.must = []xLine{body}
		root.g.tokens = append(root.g.tokens, local)
		inc.reps = [][2]string{{two, local.name}}
	}
	top := &xToken{name: "toka"}
	for k := n - 1; k >= 0; k-- {
		top.must = append(top.must, xLine{item(root.g, root.includes[k].refs[0][0], xOne)})
		if r.P(1, 2) {
			break
		}
	}
	root.g.tokens = append(root.g.tokens, top)
	root.g.root = top.name
	flat := &xGrammar{root: top.name}
	root.inline(flat, map[string]string{})
	return root, flat, files
}

func runL10(x *Ctx) {
	split := func(c *Case, collide int, chain bool) {
		r := c.R
		var root *xFile
		var flat *xGrammar
		var files map[string]*xFile
		if chain {
			root, flat, files = genChain(r)
		} else {
			root, flat, files = genSplit(r, "root")
		}
		dir, clean := xScratch()
		defer clean()
		link, err := xLink(dir, files, r, collide)
		if err != nil {
			c.Fail("setup", "%v", err)
			return
		}
		script := root.script(r, collide)
		for _, n := range sortedKeys(files) {
			c.Put("file "+n, files[n].head(NewRng("x"), collide)+files[n].g.shown(collide).script())
		}
		reps := 0
		for _, f := range files {
			for _, inc := range f.includes {
				reps += len(inc.reps)
			}
			for _, t := range f.g.tokens {
				if strings.HasPrefix(t.name, "rep") {
					for _, it := range t.must[0] {
						if !it.sw && strings.HasPrefix(it.el.token, "ref") {
							c.Event("replacements that refer to other includes")
							for _, inc := range f.includes {
								for _, p := range inc.refs {
									if len(inc.reps) > 0 && p[0] == it.el.token {
										c.Event("replacements that refer to other includes with replacements")
									}
								}
							}
						}
					}
				}
			}
		}
		for k := 0; k < 5; k++ {
			tok := root.g.root
			if r.P(1, 2) {
				tok = Pick(r, root.g.tokens).name
			}
			text := flat.genText(r, tok, r.Range(4, 14))
			if r.P(1, 5) {
				text = mutate(r, text, "abcd _")
			}
			if text == "" {
				continue
			}
			want, _, ok := flat.recognize(tok, text, 2500)
			if !ok {
				c.Event("texts skipped, too costly")
				continue
			}
			s, err := root.single(script, tok, collide)
			if err != nil {
				c.Fail("resource", "%v", err)
				return
			}
			c.Put("text", text)
			c.Put("root", tok)
			got := link.read(s, text)
			if got.err != nil {
				c.Fail("error", "%s on %q: %v", got.where, text, got.err)
				return
			}
			if (want == nil) != (got.node == nil) {
				c.Fail("verdict", "the split grammar reads %q as %v, the inline one as %v", text, got.node, want)
				continue
			}
			want = want.shown(collide)
			if want == nil {
				c.Event("texts refused")
				continue
			}
			c.Event("texts accepted")
			if got.node.String() != want.String() {
				c.Fail("tree", "the split grammar reads %q as %s, the inline one as %s", text, got.node, want)
				continue
			}
			if xRootString(got.root) != want.rootString() {
				c.Fail("root", "the split grammar reads %q as root %s, the inline one as %s", text, xRootString(got.root), want.rootString())
			}
			str := want.String()
			if strings.Contains(str, "ref") {
				c.Event("readings through references")
				c.Distinct(script, text)
			}
			if strings.Contains(str, "rep") {
				c.Event("readings through replacements")
			}
		}
		c.EventN("files", len(files))
		c.EventN("replacements", reps)
		c.Sample(script)
	}
	x.Each("split", x.Scale(2000, 50000), func(c *Case) { split(c, 0, false) })
	x.Each("collide", x.Scale(2000, 50000), func(c *Case) { split(c, 1+c.R.N(4)/3, false) })
	x.Each("chain", x.Scale(1500, 30000), func(c *Case) { split(c, c.R.N(3), true) })
	x.Each("ring", x.Scale(200, 4000), func(c *Case) { ringL10(c) })
	x.Each("broken", x.Scale(300, 4000), func(c *Case) {
		r := c.R
		dir, clean := xScratch()
		defer clean()
		write := func(kind string, name string, text string) {
			if err := os.WriteFile(filepath.Join(dir, kind, name), []byte(text), 0o600); err != nil {
				panic(err)
			}
		}
		write("r", "x.rules", "X: \"x\";\n")
		write("t", "x.tokens", "good: X;\nbroken: X other;\n")
		write("t", "y.tokens", "good: X X;\n")
		base, err := lpaths.NewBuilder().Create().WithRules(filepath.Join(dir, "r")).WithTokens(filepath.Join(dir, "t")).WithChannels(filepath.Join(dir, "c")).Now()
		if err != nil {
			panic(err)
		}
		lex, err := lexers.NewBuilder().Create().WithBasePaths(base).Now()
		if err != nil {
			panic(err)
		}
		heads := []string{
			"reference local no.good\n",
			"include inc \"x.rules;none.tokens\"\nreference local inc.good\n",
			"include inc \"none.rules;y.tokens\"\nreference local inc.good\n",
			"include inc \"x.rules;y.tokens\"\nreference local inc.none\n",
			"include inc \"x.rules\"\nreference local inc.good\n",
			"include inc \"x.rules;y.tokens;z;w\"\nreference local inc.good\n",
			"include inc \"x.rules;x.tokens\"\nreference local inc.good\n", // an undeclared token in the file
			"include inc \"x.rules;y.tokens\"\n",                           // local is never declared
			"include inc \"x.rules;y.tokens\"\nreference local inc.good\nreplace inc.good none\n",
			"include inc \"x.rules;y.tokens\"\nreference local inc.good\nreplace no.good root\n",
		}
		i := r.N(len(heads) + 1)
		head := "include inc \"x.rules;y.tokens\"\nreference local inc.good\n"
		if i < len(heads) {
			head = heads[i]
		}
		c.Put("head", head)
		m, err := xMultiple("anyOf: SERIE;SERIE: $G;$G: \"a,b\";", "A: \"a\";\n", head+"root: A local;\nfine: A;\n", "")
		if err != nil {
			c.Fail("resource", "%v", err)
			return
		}
		s, err := singles.NewBuilder().Create().WithRootToken("root").WithMultiple(m).Now()
		if err != nil {
			c.Fail("resource", "%v", err)
			return
		}
		got := (&xLinked{dir, lex}).read(s, "axx")
		if i == len(heads) {
			if got.err != nil || got.node == nil || got.node.text != "axx" {
				c.Fail("control", "a right script is refused: %v", got.err)
			}
			c.Event("right scripts")
			return
		}
		if got.err == nil {
			c.Fail("broken", "the head %q is accepted and reads %v", head, got.node)
		}
		c.Event("broken scripts")
		c.Distinct(head)
	})
}

// ringL10 reads tokens through a long line of files, the last of which may include another of them.
func ringL10(c *Case) {
	r := c.R
	dir, clean := xScratch()
	defer clean()
	n := r.Range(1, 14)
	back := -1
	if r.P(1, 2) {
		back = r.N(n)
	}
	name := func(i int) string { return "file" + xName("", i, false) }
	want := ""
	for i := 0; i < n; i++ {
		letter := string("abcdefghijklmnopqrs"[i])
		text := "tok: A;\n"
		next := i + 1
		if next == n {
			next = back
		}
		if next >= 0 {
			text = fmt.Sprintf("include inc \"%s.rules;%s.tokens\"\nreference nxt inc.tok\n\ntok: A nxt;\n", name(next), name(next))
		}
		want += letter
		for kind, body := range map[string]string{"r": fmt.Sprintf("A: \"%s\";\n", letter), "t": text} {
			ext := map[string]string{"r": ".rules", "t": ".tokens"}[kind]
			if err := os.WriteFile(filepath.Join(dir, kind, name(i)+ext), []byte(body), 0o600); err != nil {
				c.Fail("setup", "%v", err)
				return
			}
		}
	}
	link, err := xLinkedTo(dir)
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	c.Put("files", fmt.Sprintf("%d files, the last one includes %d", n, back))
	m, err := xMultiple("anyOf: SERIE;SERIE: $G;$G: \"a,b\";", "Z: \"z\";\n", fmt.Sprintf("include inc \"%s.rules;%s.tokens\"\nreference local inc.tok\n\nroot: Z local;\n", name(0), name(0)), "")
	if err != nil {
		c.Fail("resource", "%v", err)
		return
	}
	s, err := singles.NewBuilder().Create().WithRootToken("root").WithMultiple(m).Now()
	if err != nil {
		c.Fail("resource", "%v", err)
		return
	}
	got := link.read(s, "z"+want)
	c.Distinct(n, back)
	if back >= 0 {
		if got.err == nil {
			c.Fail("broken", "%d files, the last of which includes the one at %d, are accepted", n, back)
		}
		c.Event("files that include themselves, refused")
		return
	}
	if got.err != nil || got.node == nil || got.node.text != "z"+want {
		c.Fail("error", "a line of %d files does not read %q: %v", n, "z"+want, got.err)
		return
	}
	if short := link.read(s, "z"+want[:n-1]); short.err != nil || short.node != nil {
		c.Fail("verdict", "a line of %d files reads a text that is too short (%v)", n, short.err)
	}
	c.Event("lines of files")
}
