//go:build go1.21

package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

func init() {
	register(&Check{ID: "L13", Rule: "a case is non trivial when a generated program was accepted as a whole and what it was parsed into was compared with what was written", Run: runL13, Assumptions: []string{
		"how a chain of operators nests is not part of what a program says, parentheses are",
		"comments and texts between quotes are not empty"}})
	register(&Check{ID: "L14", Rule: "a case is non trivial when a corrupted program was read and the outcome was judged by an independent recogniser of the language", Run: runL14, Assumptions: []string{
		"a text after a program is never part of it, so a program followed by anything is accepted up to there"}})
	register(&Check{ID: "L15", Rule: "a case is non trivial when a numeric literal was parsed, or refused, and compared with the number computed with big numbers", Run: runL15, Assumptions: []string{
		"an integer literal is signed when it begins with a minus, unsigned otherwise", "floats of other sizes than 32 bits are rounded as 64 bits ones"}})
}

// bGroups tells which of the expected groups are missing in the found ones.
func bGroups(want []string, got []string) []string {
	count := map[string]int{}
	for _, g := range got {
		count[g]++
	}
	missing := []string{}
	for _, w := range want {
		if count[w] == 0 {
			missing = append(missing, w)
			continue
		}
		count[w]--
	}
	sort.Strings(missing)
	return missing
}

type bProgram struct {
	toks   []string
	groups []string
	want   string
	text   string
}

func bProgramOf(r *Rng, budget int, comments bool) *bProgram {
	g := &bGen{r: r, budget: budget}
	want := g.program()
	return &bProgram{toks: g.toks, groups: g.groups, want: want, text: bPrint(r, g.toks, comments)}
}

// consumed tells how much of the text a root read.
func bConsumed(text string, content string) (string, bool) {
	if !strings.HasPrefix(text, content) {
		return "", false
	}
	e := newBRec(text[len(content):])
	return text[len(content):][e.skip(0):], true
}

func runL13(x *Ctx) {
	b := newBReal()
	runParts(x, b)
	x.Each("program", x.Scale(2400, 40000), func(c *Case) {
		p := bProgramOf(c.R, bBudget(c.R), c.R.P(1, 2))
		if len(p.text) > 1500 {
			return
		}
		b.compare(c, p)
	})
	// programs that are large in one way, and simple otherwise
	x.Each("wide", x.Scale(240, 6000), func(c *Case) {
		wide := bWides[c.Index%len(bWides)]
		p := bWideOf(c.R, wide)
		if len(p.text) > 12000 {
			return
		}
		if b.compare(c, p) {
			c.Event("programs compared that are large in their " + wide)
		}
	})
}

var bWides = []string{"headers", "instructions", "assigned", "assignables", "types", "texts", "names", "chains", "parentheses", "blocks", "lists"}

// bWideOf writes a program that is large in one way.
func bWideOf(r *Rng, wide string) *bProgram {
	g := &bGen{r: r, budget: 1, wide: wide}
	out := []string{}
	switch wide {
	case "headers":
		out = append(out, g.headers(r.Range(5, 60)))
		out = append(out, g.simple())
	case "names":
		out = append(out, g.headers(r.Range(1, 3)))
	}
	switch wide {
	case "instructions":
		for n := r.Range(20, 120); n > 0; n-- {
			out = append(out, g.simple())
		}
	case "assigned", "types", "texts", "names":
		for n := r.Range(1, 3); n > 0; n-- {
			out = append(out, g.simple())
		}
	case "assignables":
		out = append(out, g.assigned(func() string { return g.simples(r.Range(5, 70)) }))
	case "lists":
		out = append(out, g.assigned(func() string {
			g.t("[")
			l := g.simples(r.Range(5, 70))
			g.t("]")
			return "[" + l + "]"
		}))
	case "chains":
		out = append(out, g.assigned(func() string {
			flat := g.number()
			for n := r.Range(2, 6); n > 0; n-- {
				flat += " " + g.operator()
				flat += " " + g.number()
			}
			return flat
		}))
	case "parentheses":
		out = append(out, g.assigned(func() string {
			n := r.Range(2, 4)
			for k := 0; k < n; k++ {
				g.t("(")
			}
			flat := g.name()
			for k := 0; k < n; k++ {
				flat += " " + g.operator()
				flat += " " + g.number()
				g.groups = append(g.groups, flat)
				g.t(")")
			}
			return flat
		}))
	case "blocks":
		n := r.Range(3, 8)
		says := ""
		for k := 0; k < n; k++ {
			g.t("if")
			says += "if " + g.name() + "{"
			g.t("{")
		}
		says += g.simple()
		for k := 0; k < n; k++ {
			g.t("}")
			says += "}"
		}
		out = append(out, says)
	}
	return &bProgram{toks: g.toks, groups: g.groups, want: strings.Join(out, "; "), text: bPrint(r, g.toks, r.P(1, 4))}
}

// assigned assigns something to a name.
func (g *bGen) assigned(value func() string) string {
	n := g.name()
	g.t("=")
	return n + " = " + value()
}

func (g *bGen) simples(n int) string {
	out := []string{}
	for ; n > 0; n-- {
		if len(out) > 0 {
			g.t(",")
		}
		out = append(out, g.literal())
	}
	return strings.Join(out, ", ")
}

func (g *bGen) literal() string {
	if g.r.P(1, 3) || g.wide == "texts" {
		s := g.str()
		g.t("\"" + s + "\"")
		return fmt.Sprintf("string %q", s)
	}
	return g.number()
}

// simple writes an instruction without operations nor blocks.
func (g *bGen) simple() string {
	switch g.r.N(4) {
	case 0:
		return g.declaration()
	case 1:
		n := g.name()
		g.t("+", "+")
		return "incr " + n + " int 1"
	}
	names := []string{}
	n := g.r.N(2)
	if g.wide == "assigned" {
		n = g.r.N(40)
	}
	first := g.r.P(1, 2) || g.wide == "types"
	for ; n >= 0; n-- {
		if len(names) > 0 {
			g.t(",")
		}
		if first && g.r.P(1, 2) {
			names = append(names, g.declaration())
		} else {
			names = append(names, g.assigneeName())
		}
	}
	op := " = "
	if first {
		g.t(":")
		op = " := "
	}
	g.t("=")
	return strings.Join(names, ", ") + op + g.literal()
}

// compare reads a program and compares what it is parsed into with what it says.
func (b *bReal) compare(c *Case, p *bProgram) bool {
	c.Put("program", p.text)
	c.Put("says", p.want)
	if !newBRec(p.text).program() {
		c.Fail("harness", "the generated program is not one")
		return false
	}
	c.Event("programs generated")
	root, mistake, err := b.read("program", p.text)
	if err != nil {
		c.Fail("refused", "the program is refused: %v", err)
		return false
	}
	if mistake != nil {
		c.Fail("mistake", "the program is refused with a mistake at %d of the token %v", mistake.Index(), mistake.Path())
		return false
	}
	left, ok := bConsumed(p.text, root.Content())
	if !ok {
		c.Fail("content", "the root says it read what is not the beginning of the program: %q", root.Content())
		return false
	}
	if left != "" {
		c.Fail("partial", "the reading stopped before %q", left)
		return false
	}
	v, err := b.parse(root, 64)
	if err != nil {
		c.Fail("parse", "the program was read, but not parsed: %v", err)
		return false
	}
	prog, ok := v.(base.Program)
	if !ok {
		c.Fail("type", "a %T was parsed", v)
		return false
	}
	d := &bDump{}
	got := d.program(prog)
	c.Put("parsed", got)
	if got != p.want {
		c.Fail("says", "the program was parsed into something else")
		return false
	}
	if len(d.bad) > 0 {
		c.Fail("kinds", "%s", strings.Join(d.bad, "; "))
		return false
	}
	if missing := bGroups(p.groups, d.groups); len(missing) > 0 {
		c.Fail("groups", "the parentheses around %q are not in what was parsed", missing)
		return false
	}
	c.Event("programs compared")
	c.EventN("groups compared", len(p.groups))
	c.EventN("instructions compared", strings.Count(got, ";")+1)
	c.Distinct(got)
	c.Sample(map[string]string{"program": p.text, "parsed": got})
	return true
}

// bPart is a part of the language that can be read alone, from its own token.
type bPart struct {
	root  string
	write func(g *bGen) string
	dump  func(d *bDump, v interface{}) string
}

var bParts = []bPart{
	{"headerVariables", func(g *bGen) string { return g.headers(g.r.Range(1, 4)) }, func(d *bDump, v interface{}) string { return d.headers(v.(base.HeaderVariables)) }},
	{"headerVariable", func(g *bGen) string { return g.headers(1) }, func(d *bDump, v interface{}) string { return d.header(v.(base.HeaderVariable)) }},
	{"instructions", func(g *bGen) string { return g.instructions(g.r.Range(1, 3)) }, func(d *bDump, v interface{}) string { return d.instructions(v.(base.Instructions)) }},
	{"instruction", (*bGen).instruction, func(d *bDump, v interface{}) string { return d.instruction(v.(base.Instruction)) }},
	{"variableDeclarations", func(g *bGen) string {
		out := g.declaration()
		for g.r.P(2, 3) {
			g.t(",")
			out += ", " + g.declaration()
		}
		return out
	}, func(d *bDump, v interface{}) string {
		out := []string{}
		for _, o := range v.(base.VariableDeclarations).All() {
			out = append(out, d.declaration(o))
		}
		return strings.Join(out, ", ")
	}},
	{"variableDeclaration", (*bGen).declaration, func(d *bDump, v interface{}) string { return d.declaration(v.(base.VariableDeclaration)) }},
	{"declarativeType", func(g *bGen) string { return g.typ() }, func(d *bDump, v interface{}) string { return d.typ(v.(base.Type)) }},
	{"variableName", (*bGen).name, func(d *bDump, v interface{}) string { return v.(string) }},
	{"assignables", func(g *bGen) string { return g.assignables(g.r.Range(1, 4)) }, func(d *bDump, v interface{}) string { return d.assignables(v.(base.Assignables)) }},
	{"assignable", (*bGen).assignable, func(d *bDump, v interface{}) string { return d.assignable(v.(base.Assignable)) }},
	{"singleAssignable", (*bGen).single, func(d *bDump, v interface{}) string { return d.single(v.(base.SingleAssignable)) }},
	{"totalListAssignable", func(g *bGen) string { return g.totalList(false) }, func(d *bDump, v interface{}) string { return d.totalListAssignable(v.(base.TotalListAssignable)) }},
	{"totalListValue", func(g *bGen) string { return g.totalList(true) }, func(d *bDump, v interface{}) string { return d.totalListValue(v.(base.TotalListValue)) }},
	{"listValue", (*bGen).list, func(d *bDump, v interface{}) string { return d.listValue(v.(base.ListValue)) }},
	{"indexValue", (*bGen).index, func(d *bDump, v interface{}) string { return d.index(v.(base.IndexValue)) }},
	{"sliceDelimiter", func(g *bGen) string {
		out := g.index() + ":"
		g.t(":")
		if g.r.P(1, 2) {
			out += g.index()
		}
		return out
	}, func(d *bDump, v interface{}) string {
		s := v.(base.SliceDelimiter)
		out := d.index(s.Index()) + ":"
		if s.HasAmount() {
			out += d.index(s.Amount())
		}
		return out
	}},
	{"operation", func(g *bGen) string { return g.operation(g.r.Range(1, 4)) }, func(d *bDump, v interface{}) string { return d.operation(v.(base.Operation)) }},
	{"operationElement", func(g *bGen) string { return g.operand(g.r.Range(0, 3)) }, func(d *bDump, v interface{}) string { return d.element(v.(base.OperationElement)) }},
	{"operationSuffix", func(g *bGen) string {
		op := g.operator()
		return op + " " + g.operand(g.r.Range(0, 3))
	}, func(d *bDump, v interface{}) string {
		s := v.(base.OperationSuffix)
		return d.operator(s.Operator()) + " " + d.element(s.Element())
	}},
	{"operator", (*bGen).operator, func(d *bDump, v interface{}) string { return d.operator(v.(uint16)) }},
	{"declarableValue", func(g *bGen) string {
		switch g.r.N(3) {
		case 0:
			v := g.r.P(1, 2)
			g.t(fmt.Sprint(v))
			return fmt.Sprintf("bool %v", v)
		case 1:
			s := g.str()
			g.t("\"" + s + "\"")
			return fmt.Sprintf("string %q", s)
		}
		return g.number()
	}, func(d *bDump, v interface{}) string { return d.value(v.(base.Value)) }},
	{"computableValue", (*bGen).number, func(d *bDump, v interface{}) string { return d.value(v.(base.Value)) }},
	{"assigneeName", (*bGen).assigneeName, func(d *bDump, v interface{}) string { return d.name(v.(base.AssigneeName)) }},
	{"assigneeNames", func(g *bGen) string {
		out := g.assigneeName()
		for g.r.P(2, 3) {
			g.t(",")
			out += ", " + g.assigneeName()
		}
		return out
	}, func(d *bDump, v interface{}) string {
		out := []string{}
		for _, o := range v.(base.AssigneeNames).All() {
			out = append(out, d.name(o))
		}
		return strings.Join(out, ", ")
	}},
}

// runParts reads parts of the language alone, each from its own token.
func runParts(x *Ctx, b *bReal) {
	x.Each("part", x.Scale(2500, 30000), func(c *Case) {
		r := c.R
		part := bParts[c.Index%len(bParts)]
		g := &bGen{r: r, budget: r.Range(1, 3)}
		want := part.write(g)
		text := bPrint(r, g.toks, r.P(1, 3))
		if part.root == "variableName" {
			// the channels are off at its very beginning
			text = strings.Join(g.toks, " ")
		}
		c.Put("token", part.root)
		c.Put("text", text)
		c.Put("says", want)
		if len(text) > 400 {
			return
		}
		root, mistake, err := b.read(part.root, text)
		if err != nil {
			c.Fail("refused", "the %s is refused: %v", part.root, err)
			return
		}
		if mistake != nil {
			c.Fail("mistake", "the %s is refused with a mistake at %d of the token %v", part.root, mistake.Index(), mistake.Path())
			return
		}
		left, ok := bConsumed(text, root.Content())
		if !ok {
			c.Fail("content", "the root says it read what is not the beginning of the text: %q", root.Content())
			return
		}
		if left != "" {
			c.Fail("partial", "the reading stopped before %q", left)
			return
		}
		v, err := b.parse(root, 64)
		if err != nil {
			c.Fail("parse", "the %s was read, but not parsed: %v", part.root, err)
			return
		}
		d := &bDump{}
		got := part.dump(d, v)
		c.Put("parsed", got)
		if got != want {
			c.Fail("says", "the %s was parsed into something else", part.root)
			return
		}
		if len(d.bad) > 0 {
			c.Fail("kinds", "%s", strings.Join(d.bad, "; "))
			return
		}
		if missing := bGroups(g.groups, d.groups); len(missing) > 0 {
			c.Fail("groups", "the parentheses around %q are not in what was parsed", missing)
			return
		}
		c.Event("parts compared")
		c.Event("compared alone: " + part.root)
		c.Distinct(part.root + " " + got)
	})
}

// bBudget is mostly small: reading takes long for large programs.
func bBudget(r *Rng) int {
	if r.P(2, 3) {
		return r.Range(1, 3)
	}
	return r.Range(4, 14)
}

// ---------------------------------------------------------------- L14

var bVocabulary = []string{"->", "<-", ":", "?", "{", "}", "[", "]", "(", ")", ",", "=", ".", "...", "+", "-", "*", "/", "<", ">", "!", "&", "|", "_", "\"",
	"if", "for", "log", "append", "break", "continue", "list", "int", "uint", "bool", "string", "float", "true", "isNull", "name", "x", "12", "\"text\"", ";", "@", "é", "++", "--"}

// bCorrupt alters the lexical tokens of a program; it gives what was done.
func bCorrupt(r *Rng, toks []string) ([]string, string) {
	out := append([]string{}, toks...)
	i := r.N(len(out))
	switch r.N(7) {
	case 6:
		// the case of a letter of a keyword is changed
		words := []int{}
		for k, t := range out {
			if bIsWord(t) {
				words = append(words, k)
			}
		}
		if len(words) > 0 {
			k := Pick(r, words)
			t := out[k]
			j := r.N(len(t))
			out[k] = t[:j] + string(t[j]^' ') + t[j+1:]
			return out, "wrote " + t + " as " + out[k]
		}
	}
	switch r.N(6) {
	case 0, 1:
		what := "removed " + out[i]
		return append(out[:i:i], out[i+1:]...), what
	case 2:
		return append(out[:i+1:i+1], out[i:]...), "doubled " + out[i]
	case 3:
		j := r.N(len(out))
		if r.P(2, 3) && i+1 < len(out) {
			j = i + 1
		}
		out[i], out[j] = out[j], out[i]
		return out, "swapped " + out[i] + " and " + out[j]
	case 4:
		what := "replaced " + out[i]
		out[i] = Pick(r, bVocabulary)
		return out, what + " by " + out[i]
	}
	n := Pick(r, bVocabulary)
	return append(out[:i:i], append([]string{n}, out[i:]...)...), "inserted " + n
}

// bCorruptText alters the bytes of a program.
func bCorruptText(r *Rng, text string) (string, string) {
	if text == "" {
		return text, "nothing"
	}
	i := r.N(len(text))
	switch r.N(4) {
	case 3:
		// the case of a letter is changed
		at := []int{}
		for k := range text {
			if text[k] >= 'a' && text[k] <= 'z' || text[k] >= 'A' && text[k] <= 'Z' {
				at = append(at, k)
			}
		}
		if len(at) > 0 {
			k := Pick(r, at)
			return text[:k] + string(text[k]^' ') + text[k+1:], fmt.Sprintf("changed the case of %q", text[k])
		}
	}
	switch r.N(3) {
	case 0:
		return text[:i] + text[i+1:], fmt.Sprintf("removed the byte %q", text[i])
	case 1:
		return text[:i], "cut"
	}
	n := Pick(r, bVocabulary)
	return text[:i] + n + text[i:], "inserted " + n
}

// bPrefix tells whether the text begins with a program.
func (e *bRec) prefix() bool {
	return len(e.rule("program")(0)) > 0
}

func runL14(x *Ctx) {
	b := newBReal()
	x.Each("corrupted", x.Scale(3600, 60000), func(c *Case) {
		r := c.R
		budget := r.Range(1, 2)
		if r.P(1, 6) {
			budget = r.Range(3, 9)
		}
		g := &bGen{r: r, budget: budget}
		g.program()
		toks := g.toks
		did := []string{}
		text := ""
		if r.P(3, 4) {
			for k := r.Range(1, 2); k > 0 && len(toks) > 0; k-- {
				var what string
				toks, what = bCorrupt(r, toks)
				did = append(did, what)
			}
			text = bPrint(r, toks, r.P(1, 3))
		} else {
			var what string
			text, what = bCorruptText(r, bPrint(r, toks, r.P(1, 3)))
			did = append(did, what)
		}
		c.Put("text", text)
		c.Put("did", strings.Join(did, "; "))
		if len(text) > 1000 || text == "" {
			return
		}
		b.corrupted(c, text)
		c.Sample(map[string]string{"text": text, "did": strings.Join(did, "; ")})
	})
	// every lexical token of a program is removed and doubled, one at a time
	x.Each("each", x.Scale(90, 3000), func(c *Case) {
		r := c.R
		g := &bGen{r: r, budget: 1}
		g.program()
		if len(g.toks) > 40 {
			return
		}
		did := []string{"removed", "doubled", "written in letters of another case"}
		for i, t := range g.toks {
			without := append(append([]string{}, g.toks[:i]...), g.toks[i+1:]...)
			twice := append(append([]string{}, g.toks[:i+1]...), g.toks[i:]...)
			variants := [][]string{without, twice}
			if bIsWord(t) {
				j := r.N(len(t))
				other := append([]string{}, g.toks...)
				other[i] = t[:j] + string(t[j]^' ') + t[j+1:]
				variants = append(variants, other)
			}
			for k, toks := range variants {
				text := bPrint(r, toks, r.P(1, 4))
				if text == "" {
					continue
				}
				c.Put("text", text)
				c.Put("did", fmt.Sprintf("%s %s", did[k], t))
				b.corrupted(c, text)
				c.Event("tokens " + did[k])
			}
		}
	})
}

// corrupted judges what is made of a text that may be no program.
func (b *bReal) corrupted(c *Case, text string) {
	whole, begins := newBRec(text).program(), newBRec(text).prefix()
	root, mistake, err := b.read("program", text)
	switch {
	case whole:
		c.Event("corrupted texts that are programs still")
	case begins:
		c.Event("corrupted texts that begin with a program")
	default:
		c.Event("corrupted texts that do not begin with a program")
	}
	if err != nil || mistake != nil {
		c.Event("refused")
		if err == nil && root != nil {
			c.Fail("both", "a mistake and a root are given")
		}
		c.Distinct(text)
		return
	}
	if root == nil {
		c.Fail("neither", "neither a mistake nor a root is given")
		return
	}
	if !begins {
		c.Fail("accepted", "the text does not begin with a program, but %q was read as one", root.Content())
		return
	}
	left, ok := bConsumed(text, root.Content())
	if !ok {
		c.Fail("content", "the root says it read what is not the beginning of the text: %q", root.Content())
		return
	}
	read := root.Content()
	if !newBRec(read).program() {
		c.Fail("accepted", "%q was read as a program, but is not one", read)
		return
	}
	c.Event("read as a program, in part or whole")
	c.Distinct(text)
	v, err := b.parse(root, 64)
	if err != nil {
		c.Fail("parse", "the program was read, but not parsed: %v", err)
		return
	}
	prog, ok := v.(base.Program)
	if !ok {
		c.Fail("type", "a %T was parsed", v)
		return
	}
	d := &bDump{}
	got := d.program(prog)
	if len(d.bad) > 0 {
		c.Fail("kinds", "%s", strings.Join(d.bad, "; "))
		return
	}
	if left == "" {
		return
	}
	// what follows the program has no influence on what it says
	alone, mistake, err := b.read("program", read)
	if err != nil || mistake != nil {
		c.Fail("alone", "what was read as a program, %q, is not one alone (%v)", read, err)
		return
	}
	if left, ok := bConsumed(read, alone.Content()); !ok || left != "" {
		c.Fail("alone", "what was read as a program, %q, is read alone as %q", read, alone.Content())
		return
	}
	w, err := b.parse(alone, 64)
	if err != nil {
		c.Fail("alone", "what was read as a program is not parsed alone: %v", err)
		return
	}
	d = &bDump{}
	if again := d.program(w.(base.Program)); again != got {
		c.Put("parsed", got)
		c.Put("parsed alone", again)
		c.Fail("alone", "what was read as a program says something else alone")
		return
	}
	c.Event("compared with the same program alone")
}

// ---------------------------------------------------------------- L15

// bDigits draws digits around the limits of the machine's numbers.
func bDigits(r *Rng) string {
	n := ""
	switch r.N(6) {
	case 0:
		n = fmt.Sprint(r.N(300))
	case 1:
		n = r.Str("0123456789", r.Range(1, 25))
	case 2, 3:
		k := Pick(r, []uint{7, 8, 15, 16, 24, 31, 32, 53, 63, 64})
		v := new(big.Int).Lsh(big.NewInt(1), k)
		v.Add(v, big.NewInt(int64(r.Range(0, 4)-2)))
		n = v.String()
	case 4:
		n = "9" + strings.Repeat("9", r.N(22))
	default:
		n = "1" + strings.Repeat("0", r.N(22))
	}
	if r.P(1, 5) {
		n = strings.Repeat("0", r.Range(1, 4)) + n
	}
	return n
}

func bFraction(r *Rng) string {
	switch r.N(4) {
	case 0:
		return strings.Repeat("0", r.N(12)) + fmt.Sprint(r.N(1000))
	case 1:
		return Pick(r, []string{"5", "25", "125", "1", "3", "50000000000000000000001", "49999999999999999999"})
	}
	return r.Str("0123456789", r.Range(1, 40))
}

// bMiddle draws a number at the middle of two neighbouring floats, or right beside it.
func bMiddle(r *Rng) (string, string) {
	f := math.Ldexp(1+float64(r.U64()>>12)/(1<<52), r.Range(0, 160)-100)
	if r.P(1, 12) {
		f = math.Ldexp(1+float64(r.U64()>>12)/(1<<52), -1022-r.N(50))
	}
	low, high := f, math.Nextafter(f, math.Inf(1))
	if r.P(1, 2) && f > math.SmallestNonzeroFloat32 {
		f32 := float32(f)
		low, high = float64(f32), float64(math.Nextafter32(f32, float32(math.Inf(1))))
	}
	mid := new(big.Rat).Add(new(big.Rat).SetFloat64(low), new(big.Rat).SetFloat64(high))
	mid.Quo(mid, big.NewRat(2, 1))
	digits := mid.Denom().BitLen() - 1 // the denominator is a power of two
	if side := r.N(3); side > 0 {
		digits += r.Range(1, 30)
		tiny := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil))
		if side == 1 {
			tiny.Neg(tiny)
		}
		mid.Add(mid, tiny)
	}
	if digits == 0 {
		digits = 1
	}
	parts := strings.SplitN(mid.FloatString(digits), ".", 2)
	return parts[0], parts[1]
}

type bNumber struct {
	minus      bool
	whole, dec string
	float      bool
}

func (n *bNumber) String() string {
	s := n.whole
	if n.minus {
		s = "-" + s
	}
	if n.float {
		s += "." + n.dec
	}
	return s
}

func (n *bNumber) toks() []string {
	out := []string{}
	if n.minus {
		out = append(out, "-")
	}
	out = append(out, n.whole)
	if n.float {
		out = append(out, ".", n.dec)
	}
	return out
}

// want gives the number as the parsed program would say it, empty when it does not fit.
func (n *bNumber) want(bits uint) string {
	if n.float {
		rat, ok := new(big.Rat).SetString(n.String())
		if !ok {
			panic("no number: " + n.String())
		}
		f := 0.0
		if bits == 32 {
			f32, _ := rat.Float32()
			f = float64(f32)
		} else {
			f, _ = rat.Float64()
		}
		if math.IsInf(f, 0) {
			return ""
		}
		if f == 0 && n.minus {
			f = math.Copysign(0, -1)
		}
		return fmt.Sprintf("float %v", f)
	}
	v, _ := new(big.Int).SetString(n.String(), 10)
	if n.minus {
		low := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits-1))
		if v.Cmp(low) < 0 {
			return ""
		}
		return "int " + v.String()
	}
	if v.BitLen() > int(bits) {
		return ""
	}
	return "uint " + v.String()
}

func bNumberOf(r *Rng, index bool) *bNumber {
	n := &bNumber{whole: bDigits(r)}
	if index {
		return n
	}
	n.minus = r.P(1, 3)
	if n.float = r.P(2, 5); n.float {
		n.dec = bFraction(r)
		switch r.N(12) {
		case 0:
			n.whole = "1" + strings.Repeat("7", r.Range(30, 330))
		case 1:
			n.whole, n.dec = strings.Repeat("0", r.Range(1, 3)), strings.Repeat("0", r.Range(10, 340))+bDigits(r)
		case 2, 3, 4:
			n.whole, n.dec = bMiddle(r)
		}
	}
	return n
}

func runL15(x *Ctx) {
	b := newBReal()
	x.Each("literal", x.Scale(6000, 90000), func(c *Case) {
		r := c.R
		bits := Pick(r, []uint{8, 16, 32, 64})
		root := Pick(r, []string{"computableValue", "computableValue", "declarableValue", "intValue", "floatValue", "indexValue", "sliceDelimiter", "operation", "program"})
		list := []*bNumber{bNumberOf(r, root == "indexValue" || root == "sliceDelimiter")}
		first := list[0]
		switch root {
		case "intValue":
			first.float = false
		case "floatValue":
			if first.float = true; first.dec == "" {
				first.dec = bFraction(r)
			}
		}
		toks := append([]string{}, first.toks()...)
		other := bNumberOf(r, root == "sliceDelimiter")
		switch root {
		case "sliceDelimiter":
			toks = append(append(toks, ":"), other.toks()...)
			list = append(list, other)
		case "operation":
			toks = append(append(toks, "+"), other.toks()...)
			list = append(list, other)
		case "program":
			toks = append(append(append([]string{"name", "="}, toks...), ","), other.toks()...)
			list = append(list, other)
		}
		text := bPrint(r, toks, r.P(1, 6))
		want := []string{}
		for _, n := range list {
			want = append(want, n.want(bits))
		}
		c.Put("text", text)
		c.Put("root", root)
		c.Put("bits", fmt.Sprint(bits))
		c.Put("want", fmt.Sprint(want))
		refused := false
		for _, w := range want {
			refused = refused || w == ""
		}
		rt, mistake, err := b.read(root, text)
		if err != nil || mistake != nil {
			c.Fail("read", "the literal is refused: %v %v", err, mistake)
			return
		}
		if left, ok := bConsumed(text, rt.Content()); !ok || left != "" {
			c.Fail("read", "the literal is read as %q", rt.Content())
			return
		}
		v, err := b.parse(rt, bits)
		if refused {
			if err == nil {
				c.Fail("fits", "a number that does not fit in %d bits is parsed into %v", bits, v)
				return
			}
			c.Event("numbers that do not fit, refused")
			c.Distinct(text, bits)
			return
		}
		if err != nil {
			c.Fail("parse", "the number is refused: %v", err)
			return
		}
		d := &bDump{}
		got := []string{}
		switch o := v.(type) {
		case base.Value:
			got = append(got, d.value(o))
		case base.IndexValue:
			got = append(got, d.index(o))
		case base.SliceDelimiter:
			got = append(got, d.index(o.Index()))
			if o.HasAmount() {
				got = append(got, d.index(o.Amount()))
			}
		case base.Operation:
			got = strings.Split(d.operation(o), " + ")
		case base.Program:
			got = strings.Split(strings.TrimPrefix(d.program(o), "name = "), ", ")
		default:
			c.Fail("type", "a %T was parsed", v)
			return
		}
		c.Put("parsed", fmt.Sprint(got))
		if fmt.Sprint(got) != fmt.Sprint(want) || len(d.bad) > 0 {
			c.Fail("value", "the number was changed (%s)", strings.Join(d.bad, "; "))
			return
		}
		c.EventN("numbers compared", len(got))
		c.Event(fmt.Sprintf("numbers compared with %d bits", bits))
		c.Distinct(text, bits)
		c.Sample(map[string]string{"text": text, "parsed": fmt.Sprint(got)})
	})
}
