//go:build go1.21

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	langparsers "github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

// ---------------------------------------------------------------- the base language, real side

type bReal struct {
	lex    lexers.Application
	multi  multiples.Multiple
	single map[string]singles.Single
}

func newBReal() *bReal {
	dir := filepath.Join(os.Getenv("ZZREPO"), "domain/languages/scripts/resources/base")
	read := func(name string) string {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	m, err := xMultiple(read("patterns.alex"), read("rules.alex"), read("tokens.alex"), read("channels.alex"))
	if err != nil {
		panic(err)
	}
	return &bReal{lex: xNewLexer(), multi: m, single: map[string]singles.Single{}}
}

func (b *bReal) read(root string, text string) (roots.Root, mistakes.Mistake, error) {
	s := b.single[root]
	if s == nil {
		n, err := singles.NewBuilder().Create().WithRootToken(root).WithMultiple(b.multi).Now()
		if err != nil {
			return nil, nil, err
		}
		s = n
		b.single[root] = s
	}
	c, err := xContent(text, false, false)
	if err != nil {
		return nil, nil, err
	}
	return b.lex.Root(s, c)
}

func (b *bReal) parse(r roots.Root, bits uint) (interface{}, error) {
	return langparsers.NewApplication().Execute(r, base.NewEvents(bits))
}

// ---------------------------------------------------------------- what a program says, written in one form

type bDump struct {
	groups []string // the flat text of every operation of the parsed program
	bad    []string
}

func (d *bDump) fail(format string, args ...interface{}) {
	d.bad = append(d.bad, fmt.Sprintf(format, args...))
}

func one(flags ...bool) bool {
	n := 0
	for _, f := range flags {
		if f {
			n++
		}
	}
	return n == 1
}

func (d *bDump) program(p base.Program) string {
	var b strings.Builder
	if p.HasVariables() {
		b.WriteString(d.headers(p.Variables()) + "; ")
	}
	b.WriteString(d.instructions(p.Instructions()))
	return b.String()
}

func (d *bDump) headers(list base.HeaderVariables) string {
	out := []string{}
	for _, h := range list.All() {
		out = append(out, d.header(h))
	}
	return strings.Join(out, "; ")
}

func (d *bDump) header(h base.HeaderVariable) string {
	return fmt.Sprintf("head in=%v must=%v %s key=%s", h.IsInput(), h.IsMandatory(), d.declaration(h.Declaration()), h.Keyname())
}

func (d *bDump) instructions(list base.Instructions) string {
	out := []string{}
	for _, i := range list.All() {
		out = append(out, d.instruction(i))
	}
	return strings.Join(out, "; ")
}

func (d *bDump) block(has bool, list base.Instructions) string {
	if has != (list != nil) {
		d.fail("a block has instructions: %v, but gives %v", has, list)
	}
	if !has {
		return "{}"
	}
	return "{" + d.instructions(list) + "}"
}

func (d *bDump) instruction(i base.Instruction) string {
	if !one(i.IsAssignment(), i.IsVariableDeclaration(), i.IsIfDeclaration(), i.IsForDeclaration(), i.IsFuncCall(), i.IsDirection(), i.IsIntIncrement()) {
		d.fail("an instruction is not of one kind")
	}
	switch {
	case i.IsAssignment():
		return d.assignment(i.Assignment())
	case i.IsVariableDeclaration():
		return d.declaration(i.VariableDeclaration())
	case i.IsIfDeclaration():
		f := i.IfDeclaration()
		return "if " + d.operation(f.Condition()) + d.block(f.HasInstructions(), f.Instructions())
	case i.IsForDeclaration():
		f := i.ForDeclaration()
		s := f.Statement()
		return fmt.Sprintf("for %s, %s in %s%s", d.name(s.Index()), d.name(s.Value()), d.totalListValue(s.Iterable()), d.block(f.HasInstructions(), f.Instructions()))
	case i.IsFuncCall():
		if !i.FuncCall().IsLog() {
			d.fail("a call is not a log")
			return "call"
		}
		return "log(" + d.assignable(i.FuncCall().Log()) + ")"
	case i.IsDirection():
		if !one(i.Direction().IsBreak(), i.Direction().IsContinue()) {
			d.fail("a direction is not of one kind")
		}
		if i.Direction().IsBreak() {
			return "break"
		}
		return "continue"
	case i.IsIntIncrement():
		return fmt.Sprintf("incr %s %s", i.IntIncrement().VariableName(), d.value(i.IntIncrement().Increment()))
	}
	return "nothing"
}

func (d *bDump) declaration(v base.VariableDeclaration) string {
	return fmt.Sprintf("decl %s %s", d.typ(v.Type()), v.Name())
}

func bTypeName(flag uint8, dept uint) string {
	name := map[uint8]string{
		base.TypeBoolFlag:                            "bool",
		base.TypeStringFlag:                          "string",
		base.TypeFloatFlag:                           "float",
		base.TypeIntegerFlag:                         "int",
		base.TypeIntegerFlag | base.TypeUnsignedFlag: "uint",
	}[flag]
	if name == "" {
		name = fmt.Sprintf("flag%d", flag)
	}
	return strings.Repeat("list of ", int(dept)) + name
}

func (d *bDump) typ(t base.Type) string { return bTypeName(t.Flag(), t.Dept()) }

func (d *bDump) name(n base.AssigneeName) string {
	if !one(n.IsSkip(), n.IsVariable()) {
		d.fail("an assignee name is not of one kind")
	}
	if n.IsSkip() {
		return "_"
	}
	return n.Variable()
}

func (d *bDump) assignment(a base.Assignment) string {
	to := a.Assignee()
	if !one(to.IsFirst(), to.IsName()) {
		d.fail("an assignee is not of one kind")
	}
	names := []string{}
	op := " = "
	if to.IsFirst() {
		op = " := "
		for _, n := range to.First().All() {
			if !one(n.IsDeclaration(), n.IsAssigneeName()) {
				d.fail("an assignee name is not of one kind")
			}
			if n.IsDeclaration() {
				names = append(names, d.declaration(n.Declaration()))
			} else {
				names = append(names, d.name(n.AssigneeName()))
			}
		}
	} else {
		for _, n := range to.Name().All() {
			names = append(names, d.name(n))
		}
	}
	return strings.Join(names, ", ") + op + d.assignables(a.Assignables())
}

func (d *bDump) assignables(a base.Assignables) string {
	if a.IsEmpty() != (len(a.All()) == 0) {
		d.fail("%d assignables are empty: %v", len(a.All()), a.IsEmpty())
	}
	out := []string{}
	for _, o := range a.All() {
		out = append(out, d.assignable(o))
	}
	return strings.Join(out, ", ")
}

// assignable: a name alone can be read as a list or as an operation, both say the same.
func (d *bDump) assignable(a base.Assignable) string {
	if !one(a.IsList(), a.IsSingle()) {
		d.fail("an assignable is not of one kind")
	}
	if a.IsList() {
		return d.totalListAssignable(a.List())
	}
	return d.single(a.Single())
}

func (d *bDump) single(s base.SingleAssignable) string {
	if !one(s.IsDeclarableValue(), s.IsOperation(), s.IsExtract(), s.IsListFetchElement()) {
		d.fail("a single assignable is not of one kind")
	}
	switch {
	case s.IsDeclarableValue():
		return d.value(s.DeclarableValue())
	case s.IsOperation():
		return d.operation(s.Operation())
	case s.IsExtract():
		return "extract(" + d.totalListAssignable(s.Extract()) + ")"
	case s.IsListFetchElement():
		f := s.ListFetchElement()
		return "fetch(" + d.totalListValue(f.List()) + " at " + d.index(f.Index()) + ")"
	}
	return "nothing"
}

func (d *bDump) totalListValue(t base.TotalListValue) string {
	if !one(t.IsAssignable(), t.IsVariableName()) {
		d.fail("a list value is not of one kind")
	}
	if t.IsVariableName() {
		return t.VariableName()
	}
	return d.totalListAssignable(t.Assignable())
}

func (d *bDump) totalListAssignable(t base.TotalListAssignable) string {
	if !one(t.IsListValue(), t.IsSlice(), t.IsAppend()) {
		d.fail("a list is not of one kind")
	}
	switch {
	case t.IsListValue():
		return d.listValue(t.ListValue())
	case t.IsSlice():
		s := t.Slice()
		to := ""
		if s.Delimiter().HasAmount() {
			to = d.index(s.Delimiter().Amount())
		} else if s.Delimiter().Amount() != nil {
			d.fail("a slice without amount gives one")
		}
		return "slice(" + d.listValue(s.List()) + " " + d.index(s.Delimiter().Index()) + ":" + to + ")"
	case t.IsAppend():
		return "append(" + d.listValue(t.Append().List()) + ", " + d.single(t.Append().Assignable()) + ")"
	}
	return "nothing"
}

func (d *bDump) listValue(l base.ListValue) string {
	if !one(l.IsAssignables(), l.IsVariableName()) {
		d.fail("a list is not of one kind")
	}
	if l.IsVariableName() {
		return l.VariableName()
	}
	return "[" + d.assignables(l.Assignables()) + "]"
}

func (d *bDump) index(i base.IndexValue) string {
	if !one(i.IsValue(), i.IsVariableName()) {
		d.fail("an index is not of one kind")
	}
	if i.IsVariableName() {
		return i.VariableName()
	}
	return d.value(i.Value())
}

func (d *bDump) value(v base.Value) string {
	t := d.typ(v.Type())
	el := v.Element()
	ok := false
	switch e := el.(type) {
	case uint:
		ok = t == "uint"
	case int:
		ok = t == "int"
	case float64:
		ok = t == "float"
	case bool:
		ok = t == "bool"
	case string:
		ok = t == "string"
		return fmt.Sprintf("%s %q", t, e)
	}
	if !ok {
		d.fail("a value of type %s holds a %T", t, el)
	}
	return fmt.Sprintf("%s %v", t, el)
}

// operation is written flat: how a chain of operators is nested is not part of what the program says.
func (d *bDump) operation(o base.Operation) string {
	flat := d.element(o.Element())
	if o.HasSuffix() {
		flat += " " + d.operator(o.Suffix().Operator()) + " " + d.element(o.Suffix().Element())
	}
	d.groups = append(d.groups, flat)
	return flat
}

func (d *bDump) operator(op uint16) string {
	name := map[uint16]string{
		base.OpArithmetic | base.OpAriPlus:                          "+",
		base.OpArithmetic | base.OpAriMinus:                         "-",
		base.OpArithmetic | base.OpAriMultiply:                      "*",
		base.OpArithmetic | base.OpAriDivide:                        "/",
		base.OpRelational | base.OpRelLessThan:                      "<",
		base.OpRelational | base.OpRelLessThan | base.OpRelEqual:    "<=",
		base.OpRelational | base.OpRelGreaterThan:                   ">",
		base.OpRelational | base.OpRelGreaterThan | base.OpRelEqual: ">=",
		base.OpRelational | base.OpRelNot | base.OpRelEqual:         "!=",
		base.OpRelational | base.OpRelEqual:                         "==",
		base.OpLogical | base.OpLogAnd:                              "&&",
		base.OpLogical | base.OpLogOr:                               "||",
	}[op]
	if name == "" {
		d.fail("the operator %d is unknown", op)
	}
	return name
}

func (d *bDump) element(e base.OperationElement) string {
	if !one(e.IsBoolValue(), e.IsVariableName(), e.IsComputableValue(), e.IsOperation(), e.IsFuncCall()) {
		d.fail("an element of an operation is not of one kind")
	}
	switch {
	case e.IsBoolValue():
		return fmt.Sprintf("bool %v", *e.BoolValue())
	case e.IsVariableName():
		return *e.VariableName()
	case e.IsComputableValue():
		return d.value(e.ComputableValue())
	case e.IsOperation():
		return d.operation(e.Operation())
	case e.IsFuncCall():
		if !e.FuncCall().IsNull() {
			d.fail("a call is not isNull")
			return "call"
		}
		return "isNull(" + d.operation(e.FuncCall().Null()) + ")"
	}
	return "nothing"
}

// ---------------------------------------------------------------- generated programs

// bGen writes a program as its lexical tokens, along with what it says.
type bGen struct {
	r      *Rng
	toks   []string
	groups []string // what must be kept together
	budget int
	depth  int
	names  []string
	// whether the last operation has operators of its own
	chained bool
	// the dimension in which the program is large, if any
	wide string
}

func (g *bGen) t(list ...string) { g.toks = append(g.toks, list...) }

var bWords = []string{"append", "for", "if", "isNull", "log", "true", "false", "break", "continue", "int", "uint", "float", "bool", "string", "list"}

func bIsWord(s string) bool {
	for _, w := range bWords {
		if w == s {
			return true
		}
	}
	return false
}

func (g *bGen) newName() string {
	r := g.r
	for {
		n := ""
		if r.P(1, 6) {
			n = Pick(r, bWords)
		} else {
			n = r.Str("abcdefghijklmnopqrstuvwxyz", 1)
		}
		most := 6
		if g.wide == "names" {
			most = 120
		}
		n += r.Str("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", r.Range(1, most))
		if !bIsWord(n) {
			return n
		}
	}
}

func (g *bGen) name() string {
	if len(g.names) == 0 || g.r.P(1, 4) {
		g.names = append(g.names, g.newName())
	}
	n := Pick(g.r, g.names)
	g.t(n)
	return n
}

func (g *bGen) program() string {
	out := []string{}
	if k := g.r.N(4) - 1; k > 0 {
		out = append(out, g.headers(k))
	}
	out = append(out, g.instructions(g.r.Range(1, 4)))
	return strings.Join(out, "; ")
}

func (g *bGen) headers(k int) string {
	out := []string{}
	for ; k > 0; k-- {
		in := g.r.P(1, 2)
		if in {
			g.t("->")
		} else {
			g.t("<-")
		}
		decl := g.declaration()
		most := 8
		if g.wide == "names" {
			most = 120
		}
		key := g.r.Str("abcxyz_", g.r.Range(1, most))
		g.t(":", key)
		must := g.r.P(1, 2)
		if !must {
			g.t("?")
		}
		out = append(out, fmt.Sprintf("head in=%v must=%v %s key=%s", in, must, decl, key))
	}
	return strings.Join(out, "; ")
}

func (g *bGen) instructions(n int) string {
	out := []string{}
	for ; n > 0; n-- {
		out = append(out, g.instruction())
	}
	return strings.Join(out, "; ")
}

func (g *bGen) block() string {
	g.t("{")
	out := "{}"
	if g.budget > 0 && g.r.P(2, 3) {
		out = "{" + g.instructions(g.r.Range(1, 3)) + "}"
	}
	g.t("}")
	return out
}

func (g *bGen) instruction() string {
	g.budget--
	k := g.r.N(12)
	if g.budget <= 0 && (k == 8 || k == 9) {
		k = 0
	}
	switch k {
	case 6:
		return g.declaration()
	case 7:
		g.t("log", "(")
		out := g.assignable()
		g.t(")")
		return "log(" + out + ")"
	case 8:
		g.t("if")
		return "if " + g.operation(g.r.Range(1, 4)) + g.block()
	case 9:
		g.t("for")
		n := 0
		for g.r.P(1, 3) && n < 3 {
			n++
			g.t("(")
		}
		a := g.assigneeName()
		g.t(",")
		b := g.assigneeName()
		g.t(":", "=")
		it := g.totalList(true)
		for ; n > 0; n-- {
			g.t(")")
		}
		return fmt.Sprintf("for %s, %s in %s%s", a, b, it, g.block())
	case 10:
		if g.r.P(1, 2) {
			g.t("break")
			return "break"
		}
		g.t("continue")
		return "continue"
	case 11:
		n := g.name()
		if g.r.P(1, 2) {
			g.t("+", "+")
			return "incr " + n + " int 1"
		}
		g.t("-", "-")
		return "incr " + n + " int -1"
	}
	names := []string{}
	op := " = "
	first := g.r.P(1, 2)
	n := g.r.N(3)
	if g.wide == "assigned" {
		n = g.r.N(40)
	}
	for ; n >= 0; n-- {
		if len(names) > 0 {
			g.t(",")
		}
		if first && g.r.P(1, 2) {
			names = append(names, g.declaration())
		} else {
			names = append(names, g.assigneeName())
		}
	}
	if first {
		g.t(":")
		op = " := "
	}
	g.t("=")
	return strings.Join(names, ", ") + op + g.assignables(g.r.Range(1, 3))
}

func (g *bGen) assigneeName() string {
	if g.r.P(1, 4) {
		g.t("_")
		return "_"
	}
	return g.name()
}

func (g *bGen) declaration() string {
	t := g.typ()
	return "decl " + t + " " + g.name()
}

func (g *bGen) typ() string {
	dept := 0
	most := 4
	if g.wide == "types" {
		most = 30
	}
	for dept < most && (g.r.P(1, 4) || most > 4 && g.r.P(9, 10)) {
		dept++
		g.t("list", "<")
	}
	n := Pick(g.r, []string{"bool", "string", "float", "uint", "int"})
	g.t(n)
	for k := dept; k > 0; k-- {
		g.t(">")
	}
	return strings.Repeat("list of ", dept) + n
}

func (g *bGen) assignables(n int) string {
	out := []string{}
	for k := 0; k < n; k++ {
		if k > 0 {
			g.t(",")
		}
		out = append(out, g.assignable())
	}
	return strings.Join(out, ", ")
}

func (g *bGen) assignable() string {
	if g.r.P(1, 3) {
		return g.totalList(false)
	}
	return g.single()
}

// totalList: a name, a list, a slice or an append.
func (g *bGen) totalList(name bool) string {
	g.depth++
	defer func() { g.depth-- }()
	k := g.r.N(4)
	if g.depth > 5 && k == 3 {
		k = 0
	}
	switch k {
	case 2:
		l := g.list()
		g.t("[")
		from := g.index()
		g.t(":")
		to := ""
		if g.r.P(1, 2) {
			to = g.index()
		}
		g.t("]")
		return "slice(" + l + " " + from + ":" + to + ")"
	case 3:
		g.t("append")
		l := g.list()
		g.t(",")
		return "append(" + l + ", " + g.single() + ")"
	}
	return g.list()
}

func (g *bGen) list() string {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth > 5 || g.r.P(1, 2) {
		return g.name()
	}
	g.t("[")
	out := "[]"
	if g.r.P(4, 5) {
		out = "[" + g.assignables(g.r.Range(1, 3)) + "]"
	}
	g.t("]")
	return out
}

func (g *bGen) index() string {
	if g.r.P(1, 3) {
		return g.name()
	}
	n := fmt.Sprint(g.r.N(200))
	g.t(n)
	return "uint " + n
}

func (g *bGen) number() string {
	out := ""
	sign := g.r.P(1, 4)
	if sign {
		g.t("-")
		out = "-"
	}
	n := fmt.Sprint(g.r.N(1000))
	g.t(n)
	if g.r.P(1, 3) {
		d := fmt.Sprint(g.r.Range(1, 999))
		g.t(".", d)
		var f float64
		fmt.Sscan(out+n+"."+d, &f)
		return fmt.Sprintf("float %v", f)
	}
	if sign {
		if n == "0" {
			return "int 0"
		}
		return "int -" + n
	}
	return "uint " + n
}

func (g *bGen) single() string {
	g.depth++
	defer func() { g.depth-- }()
	k := g.r.N(8)
	if g.depth > 5 && k > 4 {
		k = 1
	}
	switch k {
	case 0, 1:
		return g.number()
	case 2:
		v := g.r.P(1, 2)
		g.t(fmt.Sprint(v))
		return fmt.Sprintf("bool %v", v)
	case 3:
		s := g.str()
		g.t("\"" + s + "\"")
		return fmt.Sprintf("string %q", s)
	case 6:
		g.t("(")
		l := g.totalList(false)
		g.t(")", "...")
		return "extract(" + l + ")"
	case 7:
		if g.r.P(1, 3) {
			l := g.list()
			g.t("[")
			i := g.index()
			g.t("]")
			return "fetch(" + l + " at " + i + ")"
		}
		g.t("(")
		l := g.totalList(true)
		g.t(")", "[")
		i := g.index()
		g.t("]")
		return "fetch(" + l + " at " + i + ")"
	case 5:
		if g.r.P(1, 2) {
			l := g.list()
			g.t("...")
			return "extract(" + l + ")"
		}
	}
	return g.operation(g.r.Range(1, 4))
}

var bStrChars = []string{"\r", "\x00", "\xff", "a", "Z", "0", " ", "\t", "\n", "//", "/*", "*/", "'", "\\", "{", "}", "[", "]", "(", ")", ",", ";", ":", "=", "+", "é", "日", "$", "#", "@", "|", "---", "+++", "###"}

func (g *bGen) str() string {
	out := ""
	most := 8
	if g.wide == "texts" {
		most = 500
	}
	for k := g.r.Range(1, most); k > 0; k-- {
		out += Pick(g.r, bStrChars)
	}
	return out
}

var bOps = []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "!=", "==", "&&", "||"}

func (g *bGen) operator() string {
	op := Pick(g.r, bOps)
	switch op {
	case "<=", ">=", "!=":
		g.t(op[:1], op[1:])
	default:
		g.t(op)
	}
	return op
}

// operation writes an operation and gives its flat text.
func (g *bGen) operation(depth int) string {
	flat := g.operand(depth)
	chained := false
	defer func() { g.chained = chained }()
	for n := 0; g.r.P(1, 2) && n < 2; n++ {
		chained = true
		op := g.operator()
		flat += " " + op + " " + g.operand(depth)
	}
	return flat
}

func (g *bGen) operand(depth int) string {
	k := g.r.N(8)
	if depth <= 0 && k > 5 {
		k = 0
	}
	switch k {
	case 4:
		return g.number()
	case 5:
		v := g.r.P(1, 2)
		g.t(fmt.Sprint(v))
		return fmt.Sprintf("bool %v", v)
	case 6:
		g.t("(")
		at := len(g.groups)
		flat := g.operation(depth - 1)
		g.t(")")
		if strings.Contains(flat, " ") && g.chained {
			// parentheses around a single operand say nothing
			g.groups = append(g.groups[:at:at], append([]string{flat}, g.groups[at:]...)...)
		}
		g.chained = false
		return flat
	case 7:
		g.t("isNull", "(")
		flat := g.operation(depth - 1)
		g.t(")")
		return "isNull(" + flat + ")"
	}
	return g.name()
}

func bIsWordByte(b byte) bool {
	return b == '_' || (b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z')
}

// bPrint lays the lexical tokens out.
func bPrint(r *Rng, toks []string, comments bool) string {
	var b strings.Builder
	gap := func(need bool, slash bool) {
		k := r.N(6)
		if !need && k < 3 {
			return
		}
		if k < 5 {
			b.WriteString(Pick(r, []string{" ", " ", "\n", "\t", "  ", "\n\t"}))
		}
		for comments && r.P(1, 8) {
			if slash {
				b.WriteString(" ")
			}
			if r.P(1, 2) {
				b.WriteString("/*" + Pick(r, []string{"c", " a b ", "x := 5", "\n", "// z", "\"", "é", "*", "{"}) + "*/")
			} else {
				b.WriteString("//" + Pick(r, []string{"c", " a b ", "x := 5", "/* z", "\"", "}", "//"}) + "\n")
			}
			slash = false
			if r.P(1, 2) {
				b.WriteString(" ")
			}
		}
		if need && k == 5 {
			b.WriteString(" ")
		}
	}
	gap(false, false)
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			need := bIsWordByte(p[len(p)-1]) && bIsWordByte(t[0])
			gap(need, strings.HasSuffix(p, "/"))
		}
		b.WriteString(t)
	}
	return b.String()
}

// ---------------------------------------------------------------- an independent recogniser of the base language

// bSet is a set of places.
type bSet map[int]bool

// bRec tells which prefixes of a text the tokens of the base language can be, in all possible ways.
type bRec struct {
	text  string
	memo  map[string]map[int]bSet
	rules map[string]func(int) bSet
	steps int
}

type bP func(int) bSet

func (e *bRec) skip(i int) int {
	for {
		switch {
		case i < len(e.text) && strings.IndexByte(" \t\n", e.text[i]) >= 0:
			i++
		case strings.HasPrefix(e.text[i:], "//"):
			k := strings.IndexByte(e.text[i:], '\n')
			if k < 0 {
				return i
			}
			i += k + 1
		case strings.HasPrefix(e.text[i:], "/*"):
			k := strings.Index(e.text[i+2:], "*/")
			if k < 0 {
				return i
			}
			i += k + 4
		default:
			return i
		}
	}
}

func (e *bRec) lit(s string) bP {
	return func(i int) bSet {
		i = e.skip(i)
		if strings.HasPrefix(e.text[i:], s) {
			return bSet{i + len(s): true}
		}
		return nil
	}
}

func (e *bRec) word(first string, rest string, min int) bP {
	return func(i int) bSet {
		i = e.skip(i)
		n := 0
		for i < len(e.text) && strings.IndexByte(func() string {
			if n == 0 {
				return first
			}
			return rest
		}(), e.text[i]) >= 0 {
			i++
			n++
		}
		if n < min {
			return nil
		}
		return bSet{i: true}
	}
}

func (e *bRec) seq(list ...bP) bP {
	return func(i int) bSet {
		at := bSet{i: true}
		for _, p := range list {
			next := bSet{}
			for k := range at {
				for j := range p(k) {
					next[j] = true
				}
			}
			if len(next) == 0 {
				return nil
			}
			at = next
		}
		return at
	}
}

func (e *bRec) alt(list ...bP) bP {
	return func(i int) bSet {
		out := bSet{}
		for _, p := range list {
			for j := range p(i) {
				out[j] = true
			}
		}
		return out
	}
}

func (e *bRec) opt(p bP) bP {
	return func(i int) bSet {
		out := bSet{i: true}
		for j := range p(i) {
			out[j] = true
		}
		return out
	}
}

func (e *bRec) many(p bP) bP {
	return func(i int) bSet {
		out := bSet{i: true}
		todo := []int{i}
		for len(todo) > 0 {
			k := todo[0]
			todo = todo[1:]
			for j := range p(k) {
				if !out[j] {
					out[j] = true
					todo = append(todo, j)
				}
			}
		}
		return out
	}
}

func (e *bRec) rule(name string) bP {
	return func(i int) bSet {
		if m := e.memo[name]; m != nil {
			if s, ok := m[i]; ok {
				return s
			}
		} else {
			e.memo[name] = map[int]bSet{}
		}
		e.memo[name][i] = bSet{} // nothing is left recursive here
		s := e.rules[name](i)
		e.memo[name][i] = s
		return s
	}
}

func newBRec(text string) *bRec {
	e := &bRec{text: text, memo: map[string]map[int]bSet{}}
	lit, seq, alt, opt, many, rule := e.lit, e.seq, e.alt, e.opt, e.many, e.rule
	lower, upper, digits := "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"
	name := e.word(lower, lower+upper, 2)
	num := e.word(digits, digits, 1)
	key := e.word(lower+"_", lower+"_", 1)
	str := func(i int) bSet {
		i = e.skip(i)
		if i >= len(e.text) || e.text[i] != '"' {
			return nil
		}
		k := strings.IndexByte(e.text[i+1:], '"')
		if k <= 0 {
			return nil
		}
		return bSet{i + k + 2: true}
	}
	list := func(p bP) bP { return seq(p, many(seq(lit(","), p))) }
	assignee := alt(name, lit("_"))
	number := seq(opt(lit("-")), num, opt(seq(lit("."), num)))
	boolean := alt(lit("true"), lit("false"))
	operator := alt(lit("+"), lit("-"), lit("*"), lit("/"), seq(lit("<"), opt(lit("="))), seq(lit(">"), opt(lit("="))), seq(lit("!"), lit("=")), lit("=="), lit("&&"), lit("||"))
	index := alt(num, name)
	e.rules = map[string]func(int) bSet{
		"program":     seq(many(rule("header")), seq(rule("instruction"), many(rule("instruction")))),
		"header":      seq(alt(lit("->"), lit("<-")), rule("declaration"), lit(":"), key, opt(lit("?"))),
		"type":        alt(lit("bool"), lit("string"), lit("float"), lit("uint"), lit("int"), seq(lit("list"), lit("<"), rule("type"), lit(">"))),
		"declaration": seq(rule("type"), name),
		"instruction": alt(rule("assignment"), rule("declaration"),
			seq(lit("if"), rule("operation"), lit("{"), many(rule("instruction")), lit("}")),
			seq(lit("for"), rule("for"), lit("{"), many(rule("instruction")), lit("}")),
			seq(lit("log"), lit("("), rule("assignable"), lit(")")),
			lit("break"), lit("continue"),
			seq(name, alt(seq(lit("+"), lit("+")), seq(lit("-"), lit("-"))))),
		"for":         alt(seq(assignee, lit(","), assignee, lit(":"), lit("="), rule("anyList")), seq(lit("("), rule("for"), lit(")"))),
		"assignment":  seq(alt(seq(list(alt(rule("declaration"), assignee)), lit(":"), lit("=")), seq(list(assignee), lit("="))), rule("assignables")),
		"assignables": list(rule("assignable")),
		"assignable":  alt(rule("totalList"), rule("single")),
		"anyList":     alt(name, rule("totalList")),
		"totalList":   alt(rule("list"), seq(rule("list"), lit("["), index, lit(":"), opt(index), lit("]")), seq(lit("append"), rule("list"), lit(","), rule("single"))),
		"list":        alt(name, seq(lit("["), opt(rule("assignables")), lit("]"))),
		"single": alt(number, boolean, str, rule("operation"),
			seq(alt(rule("totalList"), seq(lit("("), rule("totalList"), lit(")"))), lit("...")),
			seq(alt(rule("anyList"), seq(lit("("), rule("anyList"), lit(")"))), lit("["), index, lit("]"))),
		"operation": seq(rule("operand"), many(seq(operator, rule("operand")))),
		"operand":   alt(boolean, name, number, seq(lit("("), rule("operation"), lit(")")), seq(lit("isNull"), lit("("), rule("operation"), lit(")"))),
	}
	return e
}

// program tells whether the whole text is a program, channel texts after it included.
func (e *bRec) program() bool {
	for j := range e.rule("program")(0) {
		if e.skip(j) == len(e.text) {
			return true
		}
	}
	return false
}
