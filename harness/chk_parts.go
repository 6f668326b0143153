//go:build go1.21

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	lppars "github.com/steve-care-software/steve/applications/languages/parsers"
	lasts "github.com/steve-care-software/steve/domain/languages/lexers/asts"
	lmistakes "github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	lastpaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	lresults "github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	lasttokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	lcard "github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	lpatterns "github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	lrules "github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	llinks "github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	bparsers "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

func init() {
	register(&Check{ID: "L16", Rule: "a case is non trivial when parts of several kinds were built from drawn subsets of what their builders accept and everything they give back was compared with what was given", Run: runL16, Assumptions: []string{
		"at most one of the alternatives of a part is given to its builder",
		"the parts given to a builder are themselves built with the builders of the code under test"}})
}

// ---------------------------------------------------------------- L16

// partFetches are the parts that are found by name in the ones that hold a list of them.
var partFetches = map[string]struct{ setter, fetch string }{
	"lexers/containers/tokens.Builder":                {"WithTokens", "Find"},
	"lexers/containers/tokens.TokenSpecifiersBuilder": {"WithTokenSpecifiers", "Find"},
	"lexers/containers/rules.Builder":                 {"WithRules", "Find"},
	"lexers/containers/patterns.Builder":              {"WithList", "Find"},
	"lexers/containers/patterns.GroupsBuilder":        {"WithList", "Find"},
	"lexers/roots.ContainersBuilder":                  {"WithList", "Fetch"},
	"lexers/asts/paths.DependenciesBuilder":           {"WithDependencies", "Fetch"},
}

// partUnique are the lists that refuse two parts of the same name.
var partUnique = map[string]string{
	"lexers/containers/tokens.Builder": "WithTokens",
	"lexers/containers/rules.Builder":  "WithRules",
}

func partName(v reflect.Value) (string, bool) {
	m := v.MethodByName("Name")
	if m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 && m.Type().Out(0).Kind() == reflect.String {
		return m.Call(nil)[0].String(), true
	}
	if m := v.MethodByName("Content"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().Out(0).Kind() == reflect.Interface {
		return partName(m.Call(nil)[0])
	}
	return "", false
}

// partDistinct keeps the first part of each name.
func partDistinct(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Slice || v.Type().Elem().Kind() != reflect.Interface {
		return v
	}
	seen := map[string]bool{}
	out := reflect.MakeSlice(v.Type(), 0, v.Len())
	for i := 0; i < v.Len(); i++ {
		name, ok := "", false
		if v.Index(i).Type().NumMethod() > 0 {
			name, ok = partName(v.Index(i))
		}
		if ok && seen[name] {
			continue
		}
		seen[name] = true
		out = reflect.Append(out, v.Index(i))
	}
	return out
}

// partEmpty is the empty value of a type.
func partEmpty(t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.Slice:
		return reflect.MakeSlice(t, 0, 0), true
	case reflect.Map:
		return reflect.MakeMap(t), true
	case reflect.String, reflect.Uint, reflect.Uint8, reflect.Int, reflect.Bool, reflect.Float64:
		return reflect.Zero(t), true
	}
	return reflect.Value{}, false
}

func partIsEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Bool:
		return false
	}
	return v.IsZero()
}

func hasString(list []string, s string) bool {
	for _, one := range list {
		if one == s {
			return true
		}
	}
	return false
}

// partBuilt is a part with what was given to its builder.
type partBuilt struct {
	kind  *partKind
	rule  partRule
	part  reflect.Value
	given map[string]reflect.Value
	order string
}

// partTry draws what is given to a builder, builds and tells whether the builder did as it should.
func partTry(c *Case, p *partPool, k *partKind, rule partRule, builder reflect.Value) *partBuilt {
	r := c.R
	order, vals, given := []int{}, map[int]reflect.Value{}, map[string]reflect.Value{}
	chosen := ""
	if len(rule.one) > 0 {
		chosen = Pick(r, rule.one)
		if r.P(1, 12) {
			chosen = "nothing"
		}
	}
	dense := r.P(1, 2)
	for _, i := range r.Perm(len(k.setters)) {
		s := k.setters[i]
		if hasString(rule.one, s.name) && s.name != chosen {
			continue
		}
		if s.name != chosen {
			if dense && r.P(1, 8) || !dense && r.P(1, 2) {
				continue
			}
		}
		if s.arg == nil {
			given[s.name] = reflect.Value{}
			order = append(order, i)
			continue
		}
		v, ok := p.value(s.arg)
		if !ok {
			c.Fail("machinery", "%s: there is no %s to give to %s", k.name, s.arg, s.name)
			continue
		}
		v = partDistinct(v)
		listed := hasString(rule.refused, s.name) || hasString(rule.absent, s.name) || hasString(rule.kept, s.name)
		for n := 0; n < 20 && partIsEmpty(v); n++ {
			v, _ = p.value(s.arg)
			v = partDistinct(v)
		}
		if listed && r.P(1, 6) {
			if e, ok := partEmpty(s.arg); ok {
				v = e
			}
		}
		if s.arg.Kind() == reflect.Interface && s.arg.NumMethod() > 0 && r.P(1, 12) {
			v = reflect.Zero(s.arg)
		}
		vals[i] = v
		order = append(order, i)
		if s.arg.Kind() == reflect.Interface && v.IsNil() {
			continue
		}
		if !hasString(rule.kept, s.name) && partIsEmpty(v) {
			continue
		}
		given[s.name] = v
	}
	names := ""
	for _, i := range order {
		names += " " + k.setters[i].name
		if v, ok := vals[i]; ok && partIsEmpty(v) {
			names += "(empty)"
		}
	}
	ready := false
	for _, list := range rule.need {
		all := true
		for _, n := range list {
			if _, ok := given[n]; !ok {
				all = false
			}
		}
		if all {
			ready = true
		}
	}
	var part reflect.Value
	built := false
	if msg := Guard(func() { part, built = k.build(builder, order, vals) }); msg != "" {
		c.Fail("panic", "%s with%s: %s", k.name, names, msg)
		return nil
	}
	if built != ready {
		c.Fail("built", "%s with%s: built=%v, expected %v", k.name, names, built, ready)
		return nil
	}
	if !built {
		c.Event("parts refused")
		return nil
	}
	c.Event("parts built")
	b := &partBuilt{kind: k, rule: rule, part: part, given: given, order: names}
	b.judge(c, "")
	return b
}

// partGet calls the methods of a path like Content.Token one after another.
func partGet(part reflect.Value, path string) reflect.Value {
	for _, name := range strings.Split(path, ".") {
		part = part.MethodByName(name).Call(nil)[0]
	}
	return part
}

// judge compares a part with what was given to its builder.
func (b *partBuilt) judge(c *Case, when string) {
	if msg := Guard(func() {
		for setter, getter := range b.rule.gives {
			v, ok := b.given[setter]
			if !ok {
				continue
			}
			if got := partGet(b.part, getter); !partSame(v, got) {
				c.Fail("gives", "%s with%s: %s gives %s and not what was given to %s, %s%s", b.kind.name, b.order, getter, partShow(got), setter, partShow(v), when)
			}
			c.Event("values given back")
		}
		for getter, setter := range b.rule.tells {
			_, want := b.given[setter]
			if got := partGet(b.part, getter).Bool(); got != want {
				c.Fail("tells", "%s with%s: %s is %v, expected %v%s", b.kind.name, b.order, getter, got, want, when)
			}
			c.Event("answers on what was given")
		}
		if f, ok := partFetches[b.kind.name]; ok {
			list := b.given[f.setter]
			taken := map[string]bool{}
			for i := 0; list.IsValid() && i < list.Len(); i++ {
				name, _ := partName(list.Index(i))
				taken[name] = true
			}
			for i := 0; list.IsValid() && i < list.Len(); i++ {
				name, _ := partName(list.Index(i))
				if near := Pick(c.R, partNear(c.R, name)); !taken[near] {
					if out := b.part.MethodByName(f.fetch).Call([]reflect.Value{reflect.ValueOf(near)}); out[1].IsNil() {
						c.Fail("fetch", "%s: %s(%q) gives a part, those of it are %v%s", b.kind.name, f.fetch, near, taken, when)
					}
					c.Event("names that look like one of a part")
				}
				out := b.part.MethodByName(f.fetch).Call([]reflect.Value{reflect.ValueOf(name)})
				if !out[1].IsNil() || !partSame(list.Index(i), out[0]) {
					c.Fail("fetch", "%s: %s(%q) does not give the part of that name%s", b.kind.name, f.fetch, name, when)
				}
				c.Event("parts found by name")
			}
			if out := b.part.MethodByName(f.fetch).Call([]reflect.Value{reflect.ValueOf("no such name")}); out[1].IsNil() {
				c.Fail("fetch", "%s: %s gives a part for a name nothing has%s", b.kind.name, f.fetch, when)
			}
		}
	}); msg != "" {
		c.Fail("panic", "%s with%s: %s%s", b.kind.name, b.order, msg, when)
	}
}

func runL16(x *Ctx) {
	for _, b := range partBuilders {
		if _, ok := partRules[b.name]; !ok {
			x.One("rules", func(c *Case) { c.Fail("machinery", "there is no rule for %s", b.name) })
		}
	}
	x.Each("parts", x.Scale(4000, 60000), func(c *Case) {
		r := c.R
		p := newPartPool(r, r.Range(2, 4))
		all := []*partBuilt{}
		kinds := []string{}
		for _, k := range p.kinds {
			rule := partRules[k.name]
			if rule.custom || k.name == "scripts/base/parsers.OperationBuilder" {
				continue
			}
			builder := k.fresh()
			built := 0
			for try := 0; try < 3+len(k.setters); try++ {
				if b := partTry(c, p, k, rule, builder); b != nil {
					built++
					all = append(all, b)
				}
				// the next one is built with what the used builder creates
				builder = builder.MethodByName("Create").Call(nil)[0]
			}
			if built > 0 {
				kinds = append(kinds, k.name)
			}
			if setter, ok := partUnique[k.name]; ok {
				partTwice(c, p, k, setter)
			}
		}
		for _, b := range all {
			b.judge(c, ", once others were built")
		}
		c.Distinct(kinds, len(all))
		if c.Index < 3 {
			list := []string{}
			for _, b := range all[:20] {
				list = append(list, b.kind.name+":"+b.order)
			}
			c.Sample(list)
		}
		partValues(c, p)
		partOperations(c, p)
		partResults(c, p)
		partLists(c, p)
		partMistakes(c, p)
		partReadings(c, p)
	})
}

// partTwice gives two parts of the same name.
func partTwice(c *Case, p *partPool, k *partKind, setter string) {
	for i, s := range k.setters {
		if s.name != setter {
			continue
		}
		v, _ := p.value(s.arg)
		v = partDistinct(v)
		twice := reflect.Append(v, v.Index(c.R.N(v.Len())))
		if _, ok := k.build(k.fresh(), []int{i}, map[int]reflect.Value{i: twice}); ok {
			c.Fail("twice", "%s: two parts of the same name were accepted", k.name)
		}
		c.Event("repeated names refused")
	}
}

// partValues builds values.
func partValues(c *Case, p *partPool) {
	r := c.R
	b := bparsers.NewValueBuilder()
	for n := 0; n < 8; n++ {
		b = b.Create()
		var want interface{}
		flag := uint8(0)
		switch r.N(8) {
		case 0:
			v := uint(r.N(1 << 30))
			if r.P(1, 3) {
				v = ^uint(0) >> uint(r.N(3))
			}
			b, want, flag = b.WithUint(v), v, bparsers.TypeUnsignedFlag|bparsers.TypeIntegerFlag
		case 1:
			v := r.N(1<<30) - 1<<29
			if r.P(1, 3) {
				v = int(partInt(r))
			}
			b, want, flag = b.WithInt(v), v, bparsers.TypeIntegerFlag
		case 2:
			v := float64(r.N(1<<20)-1<<19) / 128
			if r.P(1, 3) {
				v = partFloat(r)
			}
			b, want, flag = b.WithFloat(v), v, bparsers.TypeFloatFlag
		case 3:
			v := r.P(1, 2)
			b, want, flag = b.WithBool(v), v, bparsers.TypeBoolFlag
		case 4:
			v := r.Str("abc \"é", r.N(8))
			b, want, flag = b.WithString(v), v, bparsers.TypeStringFlag
		case 5:
			t := Pick(r, p.byArg[reflect.TypeOf((*bparsers.Type)(nil)).Elem()]).Interface().(bparsers.Type)
			v := r.Str("xyz", 3)
			val, err := b.WithType(t).WithElement(v).Now()
			if err != nil || val.Type() != t || val.Element() != v {
				c.Fail("value", "a value built of a type and an element does not give them back: %v", err)
			}
			c.Event("values built")
			continue
		case 6:
			if v, err := b.Now(); err == nil || v != nil {
				c.Fail("value", "a value was built of nothing")
			}
			if v, err := b.Create().WithElement("abc").Now(); err == nil || v != nil {
				c.Fail("value", "a value was built without type")
			}
			c.Event("parts refused")
			continue
		case 7:
			t := Pick(r, p.byArg[reflect.TypeOf((*bparsers.Type)(nil)).Elem()]).Interface().(bparsers.Type)
			if v, err := b.WithType(t).Now(); err == nil || v != nil {
				c.Fail("value", "a value was built without element")
			}
			c.Event("parts refused")
			continue
		}
		val, err := b.Now()
		if err != nil {
			c.Fail("value", "the value %v (%T) was refused: %v", want, want, err)
			continue
		}
		if val.Element() != want {
			c.Fail("value", "the element of the value %v (%T) is %v (%T)", want, want, val.Element(), val.Element())
		}
		if val.Type().Flag() != flag || val.Type().Dept() != 0 {
			c.Fail("value", "the type of the value %v (%T) has the flag %d and the dept %d, expected %d and 0", want, want, val.Type().Flag(), val.Type().Dept(), flag)
		}
		c.Event("values built")
	}
	types := p.byArg[reflect.TypeOf((*bparsers.Type)(nil)).Elem()]
	for n := 0; n < 4; n++ {
		a, b := Pick(r, types).Interface().(bparsers.Type), Pick(r, types).Interface().(bparsers.Type)
		if r.P(1, 2) {
			flag, dept := a.Flag(), a.Dept()
			switch r.N(3) {
			case 0:
				flag ^= 1 << uint(r.N(5))
			case 1:
				dept++
			}
			if t, err := bparsers.NewTypeBuilder().Create().WithFlag(flag).WithDept(dept).Now(); err == nil {
				b = t
			}
		}
		same := a.Flag() == b.Flag() && a.Dept() == b.Dept()
		if (a.Compare(b) == nil) != same {
			c.Fail("compare", "the types (flag %d, dept %d) and (flag %d, dept %d): comparing them gives %v", a.Flag(), a.Dept(), b.Flag(), b.Dept(), a.Compare(b))
		}
		c.Event("types compared")
	}
}

// partOperations builds operations: the ones of one element that is an operation are that operation.
func partOperations(c *Case, p *partPool) {
	r := c.R
	el := func() bparsers.OperationElement {
		return Pick(r, p.byArg[reflect.TypeOf((*bparsers.OperationElement)(nil)).Elem()]).Interface().(bparsers.OperationElement)
	}
	b := bparsers.NewOperationBuilder()
	for n := 0; n < 6; n++ {
		b = b.Create()
		if r.P(1, 8) {
			if op, err := b.Now(); err == nil || op != nil {
				c.Fail("operation", "an operation was built of nothing")
			}
			continue
		}
		one := el()
		b = b.WithElement(one)
		if r.P(1, 2) {
			suffix := Pick(r, p.byArg[reflect.TypeOf((*bparsers.OperationSuffix)(nil)).Elem()]).Interface().(bparsers.OperationSuffix)
			op, err := b.WithSuffix(suffix).Now()
			if err != nil || !op.HasSuffix() || op.Suffix() != suffix || op.Element() != one {
				c.Fail("operation", "an operation with a suffix does not give back what was given: %v", err)
				continue
			}
			if op.Optimize() != op {
				c.Fail("operation", "an operation with a suffix was simplified")
			}
			c.Event("operations built")
			continue
		}
		op, err := b.Now()
		if err != nil {
			c.Fail("operation", "an operation of one element was refused: %v", err)
			continue
		}
		if one.IsOperation() {
			if op != one.Operation() {
				c.Fail("operation", "an operation of one operation is not that operation")
			}
			c.Event("operations simplified")
			continue
		}
		if op.HasSuffix() || op.Element() != one || op.Optimize() != op {
			c.Fail("operation", "an operation of one element does not give it back")
		}
		c.Event("operations built")
	}
}

// partResults builds the results of a parser.
func partResults(c *Case, p *partPool) {
	r := c.R
	b := lppars.NewResultBuilder()
	for n := 0; n < 4; n++ {
		b = b.Create()
		if r.P(1, 5) {
			if r.P(1, 2) {
				b = b.WithList([]interface{}{})
			}
			if res, err := b.Now(); err == nil || res != nil {
				c.Fail("result", "a result was built of nothing")
			}
			continue
		}
		want := []interface{}{}
		if r.P(1, 2) {
			want = append(want, r.Str("abc", 4))
			b = b.WithElement(want[0])
		} else {
			for k := r.Range(1, 4); k > 0; k-- {
				want = append(want, r.Str("abc", 4))
			}
			b = b.WithList(want)
		}
		res, err := b.Now()
		if err != nil {
			c.Fail("result", "a result was refused: %v", err)
			continue
		}
		if !reflect.DeepEqual(res.List(), want) || res.First() != want[0] || res.IsSingle() != (len(want) == 1) {
			c.Fail("result", "the result of %v gives %v, first %v, single=%v", want, res.List(), res.First(), res.IsSingle())
		}
		c.Event("results built")
	}
}

// partLists looks at the parts that hold others without order.
func partLists(c *Case, p *partPool) {
	r := c.R
	elements := []lastpaths.Element{}
	v, _ := p.value(reflect.TypeOf(elements))
	elements = partDistinct(v).Interface().([]lastpaths.Element)
	want := []string{}
	for _, e := range elements {
		want = append(want, e.Name())
	}
	given := append([]lastpaths.Element{}, elements...)
	if r.P(1, 2) {
		given = append(given, elements[r.N(len(elements))])
	}
	dep, err := lastpaths.NewDependenciesBuilder().Create().WithDependencies(given).Now()
	if err != nil {
		c.Fail("dependencies", "dependencies were refused: %v", err)
		return
	}
	got := []string{}
	for _, e := range dep.All() {
		got = append(got, e.Name())
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) || dep.IsEmpty() {
		c.Fail("dependencies", "the dependencies %v hold %v, empty=%v", want, got, dep.IsEmpty())
	}
	none, err := lastpaths.NewDependenciesBuilder().Create().Now()
	if err != nil || !none.IsEmpty() || len(none.All()) != 0 {
		c.Fail("dependencies", "dependencies of nothing are not empty: %v", err)
	}
	el := elements[0]
	path, err := lastpaths.NewBuilder().Create().WithElement(el).WithDependencies(dep).Now()
	if err != nil {
		c.Fail("path", "a path was refused: %v", err)
		return
	}
	for n := 0; n < 3; n++ {
		names := []string{}
		for _, e := range path.CombinedElements() {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		all := append([]string{el.Name()}, want...)
		sort.Strings(all)
		if fmt.Sprint(names) != fmt.Sprint(all) {
			c.Fail("path", "the elements of a path are %v, expected %v", names, all)
		}
	}
	c.Event("paths and dependencies built")

	// links are found by both of their names
	lv, _ := p.value(reflect.TypeOf([]llinks.Link{}))
	list := lv.Interface().([]llinks.Link)
	links, err := llinks.NewBuilder().Create().WithLinks(list).Now()
	if err != nil {
		c.Fail("links", "links were refused: %v", err)
		return
	}
	for _, l := range list {
		a, err := links.FetchByLocalToken(l.LocalToken())
		if err != nil || a.LocalToken() != l.LocalToken() {
			c.Fail("links", "the local token %q is not found: %v", l.LocalToken(), err)
		}
		b, err := links.FetchByReferenceToken(l.Include().Name(), l.ReferenceToken())
		if err != nil || b.ReferenceToken() != l.ReferenceToken() || b.Include().Name() != l.Include().Name() {
			c.Fail("links", "the token %q of %q is not found: %v", l.ReferenceToken(), l.Include().Name(), err)
		}
	}
	if _, err := links.FetchByLocalToken("no such name"); err == nil {
		c.Fail("links", "a local token nothing declares was found")
	}
	if _, err := links.FetchByReferenceToken(list[0].Include().Name(), "no such name"); err == nil {
		c.Fail("links", "a token nothing declares was found in an include")
	}
	if _, err := links.FetchByReferenceToken("no such name", list[0].ReferenceToken()); err == nil {
		c.Fail("links", "a token of an include nothing declares was found")
	}
	c.Event("links found")
}

// partMistakes looks at the place of a mistake.
func partMistakes(c *Case, p *partPool) {
	r := c.R
	name := r.Str("abc", 3)
	rule := r.P(1, 2)
	b := lmistakes.NewPathBuilder().Create()
	if rule {
		b = b.WithRule(name)
	} else {
		b = b.WithToken(name)
	}
	path, err := b.Now()
	if err != nil {
		c.Fail("place", "the place of a mistake was refused: %v", err)
		return
	}
	got := path.Container()
	if got.IsRule() != rule || got.IsToken() == rule || rule && got.Rule() != name || !rule && got.Token() != name {
		c.Fail("place", "the place of a mistake (rule=%v, %q) gives another", rule, name)
	}
	c.Event("places of mistakes built")
}

// partPick draws parts of a type, the same one as often as it likes.
func partPick[T any](p *partPool, n int) []T {
	list := p.byArg[reflect.TypeOf((*T)(nil)).Elem()]
	out := []T{}
	for i := 0; i < n; i++ {
		out = append(out, Pick(p.r, list).Interface().(T))
	}
	return out
}

// partDiscovery is what a token of an AST discovered.
func partDiscovery(t lasts.Token) string {
	out := ""
	for _, m := range t.Match().Matches() {
		if m.IsToken() {
			for _, one := range m.Token().Matches() {
				out += partDiscovery(one)
			}
		}
		if m.IsRule() {
			for _, d := range m.Rule().Result().Discoveries().All() {
				out += d.Content()
			}
		}
	}
	return out
}

// partReadings counts and joins what readings put together by hand hold.
func partReadings(c *Case, p *partPool) {
	r := c.R
	n := r.Range(1, 6)
	if r.P(1, 8) {
		n = r.Range(250, 300)
	}
	tokens := partPick[lasttokens.Token](p, n)
	matches, err := lasttokens.NewTokenResultMatchesBuilder().Create().WithResults(tokens).Now()
	if err != nil {
		c.Fail("readings", "%d tokens were refused: %v", n, err)
		return
	}
	k := uint(Pick(r, []int{n, n - 1, n + 1, 0, n + 256, n + 1<<32}))
	if matches.Amount() != uint(n) || matches.IsAmount(k) != (k == uint(n)) || matches.IsAtLeast(k) != (k <= uint(n)) {
		c.Fail("readings", "%d tokens: amount=%d, is %d=%v, at least %d=%v", n, matches.Amount(), k, matches.IsAmount(k), k, matches.IsAtLeast(k))
	}
	partAmounts(c, fmt.Sprintf("%d tokens", n), uint(n), matches.Amount(), matches)
	for _, card := range partPick[lcard.Cardinality](p, 4) {
		min, max := card.Delimiter()
		for _, has := range []bool{true, false} {
			b := lasttokens.NewTokenResultBuilder().Create().WithInput("in").WithCardinality(card)
			amount := uint(0)
			if has {
				b, amount = b.WithMatches(matches), uint(n)
			}
			res, err := b.Now()
			if err != nil {
				c.Fail("readings", "a result was refused: %v", err)
				return
			}
			want := amount >= min && (max == nil || amount <= *max)
			if res.Amount() != amount || res.IsCardinalityValid() != want {
				c.Fail("readings", "a result of %d tokens asked from %d to %s: amount=%d, cardinality valid=%v", amount, min, partMax(max), res.Amount(), res.IsCardinalityValid())
			}
		}
		rule := partPick[lrules.Rule](p, 1)[0]
		path, err := lastpaths.NewRuleBuilder().Create().WithBase(rule).WithCardinality(card).Now()
		if err != nil {
			c.Fail("readings", "the path of a rule was refused: %v", err)
			return
		}
		amount := r.N(5)
		results := partPick[lresults.Result](p, amount)
		list, err := lasttokens.NewResultBuilder().Create().WithResults(results).Now()
		if err != nil {
			c.Fail("readings", "the results of a rule were refused: %v", err)
			return
		}
		match, err := lasttokens.NewRuleMatchResultBuilder().Create().WithPath(path).WithResult(list).Now()
		if err != nil {
			c.Fail("readings", "the match of a rule was refused: %v", err)
			return
		}
		want := uint(amount) >= min && (max == nil || uint(amount) <= *max)
		if list.Amount() != uint(amount) || match.IsCardinalityValid() != want {
			c.Fail("readings", "%d results of a rule asked from %d to %s: amount=%d, cardinality valid=%v", amount, min, partMax(max), list.Amount(), match.IsCardinalityValid())
		}
		text := ""
		for _, one := range results {
			text += one.Content()
		}
		if list.Discoveries() != text {
			c.Fail("readings", "the results of a rule discovered %q, and one after another %q", list.Discoveries(), text)
		}
		c.Event("readings counted")
	}
	for _, one := range partPick[lresults.Result](p, 4) {
		text, amount := "", 0
		if one.HasMatches() {
			for _, m := range one.Matches().List() {
				for _, d := range m.Discoveries().All() {
					text += d.Content()
				}
				amount++
			}
		}
		if one.Content() != text || one.Amount() != uint(amount) {
			c.Fail("readings", "a result of %d matches of %q holds %d of %q", amount, text, one.Amount(), one.Content())
		}
	}
	for _, one := range partPick[lpatterns.Discoveries](p, 4) {
		text := ""
		for _, d := range one.All() {
			text += d.Content()
		}
		if one.Content() != text || one.Index() != one.All()[0].Index() {
			c.Fail("readings", "discoveries of %q at %d say %q at %d", text, one.All()[0].Index(), one.Content(), one.Index())
		}
		partAmounts(c, fmt.Sprintf("discoveries of %d characters in %d parts", len(text), len(one.All())), uint(len(text)), one.Amount(), one)
	}
	for _, t := range partPick[lasts.Token](p, 4) {
		if got, want := t.Discovery(), partDiscovery(t); got != want {
			c.Fail("readings", "a token discovered %q, and what it is made of %q", got, want)
		}
		c.Event("discoveries joined")
	}
}

// partAmounts asks what tells how much it holds whether it holds that much.
func partAmounts(c *Case, what string, n uint, amount uint, of interface {
	IsAmount(amount uint) bool
	IsInRange(min uint, max uint) bool
	IsAtLeast(min uint) bool
}) {
	if amount != n {
		c.Fail("amounts", "%s: the amount is %d", what, amount)
	}
	bounds := []uint{n, n + 1, 0, 1, n + 256, n + 1<<16, n + 1<<32, 1<<63 - 1, 1 << 63, math.MaxUint64 - uint(c.R.N(3)), uint(c.R.N(12))}
	if n > 0 {
		bounds = append(bounds, n-1)
	}
	for _, min := range bounds {
		if got := of.IsAmount(min); got != (min == n) {
			c.Fail("amounts", "%s: IsAmount(%d) is %v", what, min, got)
		}
		if got := of.IsAtLeast(min); got != (min <= n) {
			c.Fail("amounts", "%s: IsAtLeast(%d) is %v", what, min, got)
		}
		for _, max := range bounds {
			if got := of.IsInRange(min, max); got != (min <= n && n <= max) {
				c.Fail("amounts", "%s: IsInRange(%d, %d) is %v", what, min, max, got)
			}
		}
	}
	c.Event("amounts asked")
}

func partMax(max *uint) string {
	if max == nil {
		return "any"
	}
	return fmt.Sprint(*max)
}
