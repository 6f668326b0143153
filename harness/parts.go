//go:build go1.21

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- parts built by hand

// partSetter is a method that gives something to a builder.
type partSetter struct {
	name string
	arg  reflect.Type // nil when it only marks something
}

// partKind is a kind of part, as its builder shows it.
type partKind struct {
	name    string
	make    reflect.Value
	product reflect.Type
	setters []partSetter
	getters []string // methods of the product without parameter that give one value
}

var partError = reflect.TypeOf((*error)(nil)).Elem()

func newPartKind(name string, mk interface{}) *partKind {
	k := &partKind{name: name, make: reflect.ValueOf(mk)}
	b := k.make.Type().Out(0)
	for i := 0; i < b.NumMethod(); i++ {
		m := b.Method(i)
		switch {
		case m.Name == "Now":
			k.product = m.Type.Out(0)
		case m.Name == "Create":
		case m.Type.NumIn() == 0:
			k.setters = append(k.setters, partSetter{name: m.Name})
		case m.Type.NumIn() == 1:
			k.setters = append(k.setters, partSetter{name: m.Name, arg: m.Type.In(0)})
		}
	}
	if k.product.Kind() == reflect.Interface {
		for i := 0; i < k.product.NumMethod(); i++ {
			m := k.product.Method(i)
			if m.Type.NumIn() == 0 && m.Type.NumOut() == 1 {
				k.getters = append(k.getters, m.Name)
			}
		}
	}
	return k
}

// build gives the values to a builder in the order asked and builds the part.
func (k *partKind) build(builder reflect.Value, order []int, vals map[int]reflect.Value) (reflect.Value, bool) {
	for _, i := range order {
		s := k.setters[i]
		args := []reflect.Value{}
		if s.arg != nil {
			args = append(args, vals[i])
		}
		builder = builder.MethodByName(s.name).Call(args)[0]
	}
	out := builder.MethodByName("Now").Call(nil)
	if !out[1].IsNil() {
		if k.product.Kind() == reflect.Interface && !out[0].IsNil() {
			panic("both a part and an error")
		}
		return reflect.Value{}, false
	}
	if k.product.Kind() == reflect.Interface && out[0].IsNil() {
		panic("neither a part nor an error")
	}
	return out[0], true
}

func (k *partKind) fresh() reflect.Value {
	return k.make.Call(nil)[0].MethodByName("Create").Call(nil)[0]
}

// partSame tells whether what is given back is what was given.
func partSame(given reflect.Value, got reflect.Value) bool {
	if got.Kind() == reflect.Ptr && given.Kind() != reflect.Ptr && given.Kind() != reflect.Interface {
		if got.IsNil() {
			return false
		}
		got = got.Elem()
	}
	if given.Kind() == reflect.Interface && !given.IsNil() && got.Kind() == reflect.Interface && !got.IsNil() {
		a, b := given.Elem(), got.Elem()
		if a.Kind() == reflect.Ptr && b.Kind() == reflect.Ptr {
			return a.Pointer() == b.Pointer() && a.Type() == b.Type()
		}
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
	if given.Type() != got.Type() {
		return false
	}
	if given.Kind() == reflect.Slice {
		if given.Len() != got.Len() {
			return false
		}
		for i := 0; i < given.Len(); i++ {
			if !partSame(given.Index(i), got.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(given.Interface(), got.Interface())
}

// partPool holds parts of every type, made of one another.
type partPool struct {
	r     *Rng
	kinds []*partKind
	byArg map[reflect.Type][]reflect.Value
}

func (p *partPool) value(t reflect.Type) (reflect.Value, bool) {
	r := p.r
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(partText(r)).Convert(t), true
	case reflect.Bool:
		return reflect.ValueOf(r.P(1, 2)), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if r.P(1, 6) {
			// as large as a place can be
			return reflect.ValueOf(uint64(math.MaxInt64) - uint64(r.N(3))).Convert(t), true
		}
		return reflect.ValueOf(uint64(r.N(200))).Convert(t), true
	case reflect.Int, reflect.Int64:
		if r.P(1, 6) {
			return reflect.ValueOf(partInt(r)).Convert(t), true
		}
		return reflect.ValueOf(int64(r.N(2000) - 1000)).Convert(t), true
	case reflect.Float64:
		if r.P(1, 6) {
			return reflect.ValueOf(partFloat(r)), true
		}
		return reflect.ValueOf(float64(r.N(100000)) / 64), true
	case reflect.Ptr:
		v, ok := p.value(t.Elem())
		if !ok {
			return v, false
		}
		out := reflect.New(t.Elem())
		out.Elem().Set(v)
		return out, true
	case reflect.Slice:
		out := reflect.MakeSlice(t, 0, 3)
		for n := r.Range(1, 4); n > 0; n-- {
			v, ok := p.value(t.Elem())
			if !ok {
				return v, false
			}
			out = reflect.Append(out, v)
		}
		return out, true
	case reflect.Map:
		out := reflect.MakeMap(t)
		for n := r.Range(1, 3); n > 0; n-- {
			k, ok := p.value(t.Key())
			if !ok {
				return k, false
			}
			v, ok := p.value(t.Elem())
			if !ok {
				return v, false
			}
			out.SetMapIndex(k, v)
		}
		return out, true
	case reflect.Interface:
		if t.NumMethod() == 0 {
			out := reflect.New(t).Elem()
			if r.P(1, 2) {
				out.Set(reflect.ValueOf(r.Str("xyz", 5)))
			} else {
				out.Set(reflect.ValueOf(uint(r.N(5000))))
			}
			return out, true
		}
		list := p.byArg[t]
		if len(list) == 0 {
			return reflect.Value{}, false
		}
		return Pick(r, list), true
	}
	return reflect.Value{}, false
}

// partText draws a text that is not empty.
func partText(r *Rng) string {
	switch r.N(12) {
	case 0:
		return r.Str(" \t\n", 1) + r.Str("abcAB_", r.Range(1, 4)) + r.Str(" \n", 1)
	case 1:
		return r.Str("abcABC", 300)
	case 2:
		return Pick(r, []string{"é", "日本", "\x00", "\xff\xfe", "\"", ";", "###", "a\nb", "__", "ABC", "0", "-1"})
	}
	return r.Str("abcdefghij_KLMNOP./ ", r.Range(1, 12))
}

func partInt(r *Rng) int64 {
	return Pick(r, []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, -1, 1, math.MinInt32, math.MaxInt32, math.MaxUint32, -1 << 31, -1<<31 - 1})
}

func partFloat(r *Rng) float64 {
	return Pick(r, []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.Pi, -0.1, 1e17, 1e-17, math.MaxFloat32, 1 << 53})
}

// partNear are names that look like a name.
func partNear(r *Rng, name string) []string {
	swapped := strings.Map(func(c rune) rune {
		switch {
		case c >= 'a' && c <= 'z':
			return c - 'a' + 'A'
		case c >= 'A' && c <= 'Z':
			return c - 'A' + 'a'
		}
		return c
	}, name)
	cut := r.N(len(name))
	return []string{strings.ToLower(name), strings.ToUpper(name), swapped, name + " ", " " + name, strings.TrimSpace(name), name + name, name[:cut], name[cut:], name[:len(name)-1], name[1:],
		strings.Trim(name, "_"), "_" + name, name + "_", strings.ReplaceAll(name, "_", ""), name + "\n", name + "s"}
}

// newPartPool fills a pool by building parts from parts until every kind that can be built has some.
func newPartPool(r *Rng, spread int) *partPool {
	p := &partPool{r: r, byArg: map[reflect.Type][]reflect.Value{}}
	for _, b := range partBuilders {
		p.kinds = append(p.kinds, newPartKind(b.name, b.make))
	}
	for round := 0; round < 14; round++ {
		for _, k := range p.kinds {
			for try := 0; try < 4*len(k.setters)+4; try++ {
				if len(p.byArg[k.product]) > spread {
					break
				}
				order, vals := []int{}, map[int]reflect.Value{}
				for _, i := range r.Perm(len(k.setters)) {
					if !r.P(3, 5) {
						continue
					}
					if k.setters[i].arg != nil {
						v, ok := p.value(k.setters[i].arg)
						if !ok {
							continue
						}
						vals[i] = v
					}
					order = append(order, i)
				}
				if len(order) == 0 && round < 8 {
					// something that may be made of nothing is made of nothing only when there is nothing else
					continue
				}
				if v, ok := k.build(k.fresh(), order, vals); ok {
					out := reflect.New(k.product).Elem()
					out.Set(v)
					p.byArg[k.product] = append(p.byArg[k.product], out)
				}
			}
		}
	}
	return p
}

func partNames(k *partKind, order []int) string {
	out := []string{}
	for _, i := range order {
		out = append(out, k.setters[i].name)
	}
	sort.Strings(out)
	return strings.Join(out, "+")
}

func partShow(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	if v.Kind() == reflect.Interface && !v.IsNil() {
		return fmt.Sprintf("%T", v.Interface())
	}
	return fmt.Sprintf("%v", v.Interface())
}
