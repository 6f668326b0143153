//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"sort"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
)

func init() {
	register(&Check{ID: "L12", Rule: "a case is non trivial when the events that ran on an accepted script were compared with the expected ones, values included", Run: runL12, Assumptions: []string{
		"an event that succeeds gives something", "events do not alter the lists they are given"}})
}

// ---------------------------------------------------------------- L12

// xEvent is what a recording event does when it runs.
type xEvent struct {
	fails  int      // out of 8: how often it fails, according to what it is given
	asks   []string // names it asks for
	strict bool     // whether it fails as soon as one of them does
	giveup bool     // whether it fails after it asked
	result bool     // gives the result of its last question as it is
	runs   bool     // runs the events of the roots right below instead
}

func (e *xEvent) failing(name string, idx int, content string) bool {
	h := uint64(idx)*2654435761 + 1469598103934665603
	for _, ch := range []byte(name + "/" + content) {
		h = (h ^ uint64(ch)) * 1099511628211
	}
	return int((h>>20)%8) < e.fails
}

type xTable map[string][]*xEvent

func (t xTable) String() string {
	out := []string{}
	for _, n := range sortedKeys(t) {
		for i, e := range t[n] {
			out = append(out, fmt.Sprintf("%s.%d: fails %d/8, asks %v, strict=%v, gives up=%v, result=%v, runs=%v", n, i, e.fails, e.asks, e.strict, e.giveup, e.result, e.runs))
		}
	}
	return strings.Join(out, "\n")
}

type xTrace struct {
	log   []string
	limit int
}

func (t *xTrace) add(s string) error {
	t.log = append(t.log, s)
	if len(t.log) > t.limit {
		panic(xTooDeep{})
	}
	return nil
}

func xShow(v interface{}) string {
	if list, ok := v.([]interface{}); ok {
		out := []string{}
		for _, o := range list {
			out = append(out, xShow(o))
		}
		return "[" + strings.Join(out, ", ") + "]"
	}
	return fmt.Sprintf("%v", v)
}

// below gives the roots right below a root, in a fixed order.
func xRootsBelow(r roots.Root) []roots.Root {
	out := []roots.Root{}
	all := r.Nodes().All()
	names := []string{}
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, c := range all[n].Containers().List() {
			if c.HasRoot() {
				out = append(out, c.Root())
			}
		}
	}
	return out
}

// real makes the events of the table, recording into the trace.
func (t xTable) real(tr *xTrace) map[string][]parsers.EventFunc {
	out := map[string][]parsers.EventFunc{}
	for name, list := range t {
		for i, e := range list {
			name, i, e := name, i, e
			out[name] = append(out[name], func(r roots.Root, m parsers.Manager) (interface{}, error) {
				tr.add(fmt.Sprintf("%s.%d(%s %q)", name, i, r.Name(), r.Content()))
				if e.failing(name, i, r.Content()) {
					return nil, errors.New("asked to fail")
				}
				got := []string{}
				var last parsers.Result
				if e.runs {
					for _, b := range xRootsBelow(r) {
						res, err := m.Execute(b)
						if err != nil {
							got = append(got, "error")
							continue
						}
						got = append(got, fmt.Sprintf("%s %s %v", xShow(res.First()), xShow(res.List()), res.IsSingle()))
					}
				}
				for _, a := range e.asks {
					res, err := m.Trigger(a, r)
					if err != nil {
						if e.strict {
							return nil, err
						}
						got = append(got, a+": error")
						continue
					}
					last = res
					got = append(got, fmt.Sprintf("%s: %s %s %v", a, xShow(res.First()), xShow(res.List()), res.IsSingle()))
				}
				if e.giveup {
					return nil, errors.New("gives up")
				}
				if e.result && last != nil {
					return last, nil
				}
				return fmt.Sprintf("%s.%d%q{%s}", name, i, r.Content(), strings.Join(got, "; ")), nil
			})
		}
	}
	return out
}

// xDispatch says what should happen.
type xDispatch struct {
	t  xTable
	tr *xTrace
}

// xGiven is what an event or a question gives: a list of elements, or one alone (that may be a list itself).
type xGiven struct {
	list []interface{}
}

func xAlone(v interface{}) *xGiven { return &xGiven{list: []interface{}{v}} }

// value is how it is kept among others.
func (g *xGiven) value() interface{} {
	if len(g.list) == 1 {
		return g.list[0]
	}
	return g.list
}

func (d *xDispatch) events(name string, r roots.Root) (*xGiven, bool) {
	for i, e := range d.t[name] {
		d.tr.add(fmt.Sprintf("%s.%d(%s %q)", name, i, r.Name(), r.Content()))
		if e.failing(name, i, r.Content()) {
			continue
		}
		got := []string{}
		var last *xGiven
		failed := false
		if e.runs {
			for _, b := range xRootsBelow(r) {
				g, ok := d.events(b.Name(), b)
				if !ok {
					got = append(got, "error")
					continue
				}
				got = append(got, fmt.Sprintf("%s %s %v", xShow(g.list[0]), xShow(g.list), len(g.list) == 1))
			}
		}
		for _, a := range e.asks {
			res := d.trigger(a, r)
			if res == nil {
				if e.strict {
					failed = true
					break
				}
				got = append(got, a+": error")
				continue
			}
			last = res
			got = append(got, fmt.Sprintf("%s: %s %s %v", a, xShow(res.list[0]), xShow(res.list), len(res.list) == 1))
		}
		if failed || e.giveup {
			continue
		}
		if e.result && last != nil {
			return last, true
		}
		return xAlone(fmt.Sprintf("%s.%d%q{%s}", name, i, r.Content(), strings.Join(got, "; "))), true
	}
	return nil, false
}

// xFindNode gives the occurrences of the first element of the name: right below first, then below what is below in order.
func xFindNode(name string, r roots.Root) roots.Node {
	all := r.Nodes().All()
	if n, ok := all[name]; ok {
		return n
	}
	for _, b := range xRootsBelow(r) {
		if n := xFindNode(name, b); n != nil {
			return n
		}
	}
	return nil
}

func (d *xDispatch) trigger(name string, r roots.Root) *xGiven {
	n := xFindNode(name, r)
	if n == nil {
		return nil
	}
	out := &xGiven{}
	for _, k := range n.Containers().List() {
		if !k.HasRoot() {
			out.list = append(out.list, k.Content())
			continue
		}
		v, ok := d.events(name, k.Root())
		if !ok {
			return nil
		}
		out.list = append(out.list, v.value())
	}
	return out
}

func traced(limit int, f func(tr *xTrace)) (tr *xTrace, ok bool) {
	tr = &xTrace{limit: limit}
	defer func() {
		if v := recover(); v != nil {
			if _, is := v.(xTooDeep); !is {
				panic(v)
			}
			ok = false
		}
	}()
	f(tr)
	return tr, true
}

func runL12(x *Ctx) {
	log.SetOutput(io.Discard)
	dispatch := func(c *Case, wide bool) {
		r := c.R
		limit := 3000
		g := drawGrammar(r, gramOpts{tokens: r.Range(2, 7), recur: r.P(1, 2), channels: r.P(1, 3), nots: r.P(1, 8), specs: r.P(1, 8), switches: r.P(1, 8)})
		times := 6
		if wide {
			// many elements of the same name
			limit, times = 30000, 2
			g = &xGrammar{root: "root", limit: 40000, pats: genPats(r, 1, "yz", false)}
			a, b := &xRule{name: "A", constant: "a"}, &xRule{name: "B", constant: Pick(r, []string{"b", "bc", "é"})}
			g.rules = []*xRule{a, b}
			plus := xCard{1, -1, "+"}
			g.tokens = []*xToken{
				{name: "root", must: []xLine{{xItem{el: &xElem{rule: a, card: plus}}, xItem{el: &xElem{token: "sub", card: plus}}, xItem{el: &xElem{rule: a, card: xCard{0, 1, "?"}}}}}},
				{name: "sub", must: []xLine{{xItem{el: &xElem{rule: b, card: xOne}}}}},
			}
		}
		lex := xNewLexer()
		c.Put("grammar", g.script())
		for k := 0; k < times; k++ {
			from := g.root
			if r.P(1, 3) && !wide {
				from = Pick(r, g.tokens).name
			}
			text := g.genText(r, from, r.Range(4, 16))
			if wide {
				n := Pick(r, []int{17, 100, 255, 256, 257, 300, 511, 513, 600, 1025})
				m := Pick(r, []int{1, 2, 100, 257, 513})
				text = strings.Repeat("a", m) + strings.Repeat(g.rules[1].constant, n) + strings.Repeat("a", r.N(2))
			}
			if text == "" {
				continue
			}
			got := g.real(lex, from, text)
			if got.root == nil {
				continue
			}
			below := []string{}
			seen := map[string]bool{}
			var collect func(rt roots.Root)
			collect = func(rt roots.Root) {
				for n, node := range rt.Nodes().All() {
					if !seen[n] {
						seen[n] = true
						below = append(below, n)
					}
					for _, ct := range node.Containers().List() {
						if ct.HasRoot() {
							collect(ct.Root())
						}
					}
				}
			}
			collect(got.root)
			if len(below) == 0 {
				continue
			}
			sort.Strings(below)
			for q := 0; q < 3; q++ {
				table := xTable{}
				for _, n := range append([]string{from}, below...) {
					if table[n] != nil || r.P(1, 12) {
						continue
					}
					if g.tok(n) == nil && r.P(2, 3) {
						continue
					}
					many := 4
					if wide {
						many = 12
					}
					for i := r.Range(1, many); i > 0; i-- {
						e := &xEvent{strict: r.P(1, 4), giveup: r.P(1, 8), result: r.P(1, 3), runs: r.P(1, 8)}
						if r.P(1, 2) {
							e.fails = r.Range(1, 6)
						}
						asks := r.N(4)
						if wide {
							asks = r.N(2)
							if e.fails == 0 && i > 1 && r.P(2, 3) {
								e.fails = r.Range(1, 8)
							}
						}
						for a := asks; a > 0; a-- {
							if r.P(1, 10) {
								e.asks = append(e.asks, "absent")
								continue
							}
							e.asks = append(e.asks, Pick(r, below))
						}
						table[n] = append(table[n], e)
					}
				}
				if len(table) == 0 {
					continue
				}
				d := &xDispatch{t: table}
				var want *xGiven
				var wantOk bool
				wantTr, ok := traced(limit, func(tr *xTrace) {
					d.tr = tr
					want, wantOk = d.events(from, got.root)
				})
				if !ok {
					c.Event("skipped: too many events")
					continue
				}
				before := xRootString(got.root)
				c.Put("text", text)
				c.Put("root", from)
				c.Put("events", table.String())
				var res interface{}
				var err error
				gotTr, ok := traced(2*len(wantTr.log)+100, func(tr *xTrace) {
					res, err = parsers.NewApplication().Execute(got.root, table.real(tr))
				})
				if !ok {
					c.Fail("trace", "many more events ran than expected: %s…", strings.Join(gotTr.log[:20], " "))
					continue
				}
				if a, b := strings.Join(wantTr.log, " "), strings.Join(gotTr.log, " "); a != b {
					c.Fail("trace", "the events that ran are %s\nexpected %s", b, a)
					continue
				}
				if (err == nil) != wantOk {
					c.Fail("outcome", "error=%v, expected a value: %v", err, wantOk)
					continue
				}
				c.EventN("events", len(wantTr.log))
				c.Distinct(g.script(), text, table.String())
				if !wantOk {
					c.Event("parsings refused")
					if res != nil {
						c.Fail("outcome", "the value %s comes with an error", xShow(res))
					}
				}
				if wantOk {
					// the application gives the first of the elements
					w := want
					if xShow(res) != xShow(w.list[0]) {
						c.Fail("value", "the value is %s, expected %s", xShow(res), xShow(w.list[0]))
					}
					c.Event("parsings compared")
				}
				if after := xRootString(got.root); after != before {
					c.Fail("altered", "parsing changed the root from %s to %s", before, after)
				}

				// the same through a manager, from the outside
				tr := &xTrace{limit: 1 << 30}
				mgr, err := parsers.NewManagerBuilder().Create().WithEvents(table.real(tr)).Now()
				if err != nil {
					c.Fail("manager", "the manager is refused: %v", err)
					continue
				}
				for a := 0; a < 3; a++ {
					name := Pick(r, append([]string{"absent", from}, below...))
					var wres *xGiven
					wtr, ok := traced(limit, func(t *xTrace) {
						d.tr = t
						wres = d.trigger(name, got.root)
					})
					if !ok {
						continue
					}
					tr.log = nil
					res, err := mgr.Trigger(name, got.root)
					if a, b := strings.Join(wtr.log, " "), strings.Join(tr.log, " "); a != b {
						c.Fail("trigger-trace", "asking for %s ran the events %s\nexpected %s", name, b, a)
						continue
					}
					if (err == nil) != (wres != nil) {
						c.Fail("trigger", "asking for %s gives the error %v, expected a value: %v", name, err, wres != nil)
						continue
					}
					c.Event("questions")
					if wres == nil {
						continue
					}
					if xShow(res.List()) != xShow(wres.list) || xShow(res.First()) != xShow(wres.list[0]) || res.IsSingle() != (len(wres.list) == 1) {
						c.Fail("trigger", "asking for %s gives %s %s single=%v, expected %s", name, xShow(res.First()), xShow(res.List()), res.IsSingle(), xShow(wres.list))
					}
				}
				tr.log = nil
				wtr, _ := traced(limit, func(t *xTrace) {
					d.tr = t
					want, wantOk = d.events(from, got.root)
				})
				full, err := mgr.Execute(got.root)
				if (err == nil) != wantOk || strings.Join(tr.log, " ") != strings.Join(wtr.log, " ") {
					c.Fail("again", "running the same manager again gives the error %v and the events %s, expected %v and %s", err, strings.Join(tr.log, " "), wantOk, strings.Join(wtr.log, " "))
					continue
				}
				if wantOk {
					w := want
					if xShow(full.List()) != xShow(w.list) || xShow(full.First()) != xShow(w.list[0]) || full.IsSingle() != (len(w.list) == 1) {
						c.Fail("value", "running gives %s %s single=%v, expected %s", xShow(full.First()), xShow(full.List()), full.IsSingle(), xShow(w.list))
					}
				}
			}
		}
		c.Sample(g.script())
	}
	x.Each("dispatch", x.Scale(5000, 120000), func(c *Case) { dispatch(c, false) })
	// many elements of the same name, many events for a name
	x.Each("wide", x.Scale(120, 3000), func(c *Case) { dispatch(c, true) })
	x.Each("results", x.Scale(300, 3000), func(c *Case) {
		r := c.R
		list := []interface{}{}
		for k := r.N(5); k > 0; k-- {
			list = append(list, r.N(1000))
		}
		b := parsers.NewResultBuilder().Create()
		if r.P(1, 2) {
			b.WithList(list)
			res, err := b.Now()
			if (err == nil) != (len(list) > 0) {
				c.Fail("result", "a result of %d elements gives the error %v", len(list), err)
				return
			}
			if err == nil && (xShow(res.List()) != xShow(list) || res.First() != list[0] || res.IsSingle() != (len(list) == 1)) {
				c.Fail("result", "the result of %v gives %v %v %v", list, res.First(), res.List(), res.IsSingle())
			}
		} else {
			el := fmt.Sprintf("v%d", r.N(100))
			res, err := b.WithElement(el).Now()
			if err != nil || res.First() != el || !res.IsSingle() || len(res.List()) != 1 || res.List()[0] != el {
				c.Fail("result", "the result of one element gives %v %v", res, err)
			}
			if again, err := b.Create().Now(); err == nil {
				c.Fail("result", "a new builder gives %v", again)
			}
		}
		c.Event("results compared")
		c.Distinct(fmt.Sprint(list))
	})
	x.One("empty", func(c *Case) {
		if _, err := parsers.NewManagerBuilder().Create().Now(); err == nil {
			c.Fail("empty", "a manager without events is built")
		}
		if _, err := parsers.NewManagerBuilder().Create().WithEvents(map[string][]parsers.EventFunc{}).Now(); err == nil {
			c.Fail("empty", "a manager of an empty table of events is built")
		}
		c.Event("results compared")
	})
}
