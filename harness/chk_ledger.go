//go:build go1.21

package main

import (
	"crypto/rsa"
	"crypto/sha512"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	uuid "github.com/satori/go.uuid"
	"github.com/steve-care-software/steve/domain/chains"
	crypt "github.com/steve-care-software/steve/domain/cryptography"
	enc "github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/genesis"
	gprivates "github.com/steve-care-software/steve/domain/genesis/privates"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/hashtree"
	"github.com/steve-care-software/steve/domain/identities"
	"github.com/steve-care-software/steve/domain/peers"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/domain/transactions"
	tprivates "github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
)

// node is a ledger record written down as plain data.
type node struct {
	kind string
	f    map[string]interface{} // uint, string, time.Time, hash.Hash, uuid, *node, []*node, []hash.Hash, or a key/signature
}

type kindSpec struct {
	builder   func() interface{}
	mandatory []string
	optional  []string
	list      bool   // With List
	getList   string // the getter of the list
	nanos     bool   // its timestamps count nanoseconds
	hashed    bool
}

var kinds = map[string]*kindSpec{
	"ring":        {builder: func() interface{} { return rings.NewRingBuilder(0, 100000) }, mandatory: []string{"List"}, hashed: true},
	"rings":       {builder: func() interface{} { return rings.NewBuilder() }, mandatory: []string{"List"}, hashed: true},
	"unitcontent": {builder: func() interface{} { return genesis.NewUnitContentBuilder() }, mandatory: []string{"Amount", "Nonce", "ActivatedOn", "CreatedOn"}, nanos: true, hashed: true},
	"unit":        {builder: func() interface{} { return genesis.NewUnitBuilder() }, mandatory: []string{"Content", "Owner"}, hashed: true},
	"units":       {builder: func() interface{} { return genesis.NewUnitsBuilder() }, mandatory: []string{"List"}, getList: "All", hashed: true},
	"genesis":     {builder: func() interface{} { return genesis.NewBuilder() }, mandatory: []string{"Units", "Fees", "CreatedOn"}, nanos: true, hashed: true},
	"gprivate":    {builder: func() interface{} { return gprivates.NewPrivateBuilder() }, mandatory: []string{"Unit", "PrivateKey"}, hashed: true},
	"gprivates":   {builder: func() interface{} { return gprivates.NewBuilder() }, mandatory: []string{"List"}, hashed: true},
	"origin":      {builder: func() interface{} { return transactions.NewOriginBuilder() }, hashed: true},
	"content":     {builder: func() interface{} { return transactions.NewContentBuilder() }, mandatory: []string{"Owner", "Amount", "Origin", "External", "CreatedOn"}, hashed: true},
	"trx":         {builder: func() interface{} { return transactions.NewTransactionBuilder() }, mandatory: []string{"Content", "Authorization"}, hashed: true},
	"trxs":        {builder: func() interface{} { return transactions.NewBuilder() }, mandatory: []string{"List"}, hashed: true},
	"secret":      {builder: func() interface{} { return secrets.NewSecretBuilder() }, mandatory: []string{"Amount", "Nonce", "Public"}, optional: []string{"Origin", "Sides"}, hashed: true},
	"secrets":     {builder: func() interface{} { return secrets.NewBuilder() }, mandatory: []string{"List"}, hashed: true},
	"receipt":     {builder: func() interface{} { return receipts.NewBuilder() }, mandatory: []string{"Secret", "Signature"}, hashed: true},
	"private":     {builder: func() interface{} { return tprivates.NewPrivateBuilder() }, mandatory: []string{"PrivateKey", "Receipt"}, hashed: true},
	"privates":    {builder: func() interface{} { return tprivates.NewBuilder() }, mandatory: []string{"List"}, hashed: true},
	"block":       {builder: func() interface{} { return chains.NewBlockBuilder() }, mandatory: []string{"Height", "Fees", "Transactions", "CreatedOn"}, optional: []string{"Previous"}, hashed: true},
	"chain":       {builder: func() interface{} { return chains.NewBuilder() }, mandatory: []string{"ID", "Root", "CreatedOn"}, optional: []string{"Head"}, hashed: true},
	"identity":    {builder: func() interface{} { return identities.NewBuilder() }, mandatory: []string{"Name", "Transactions"}, optional: []string{"Genesis"}},
	"idtrxs":      {builder: func() interface{} { return identities.NewTransactionsBuilder() }, optional: []string{"Incoming", "Outgoing"}},
	"peer":        {builder: func() interface{} { return peers.NewPeerBuilder(":") }, mandatory: []string{"Host", "Port"}},
	"peers":       {builder: func() interface{} { return peers.NewBuilder() }, mandatory: []string{"List"}},
}

var hashedKinds = []string{"ring", "rings", "unitcontent", "unit", "units", "genesis", "gprivate", "gprivates", "content", "trx", "trxs", "secret", "secrets", "receipt", "private", "privates", "block", "chain"}

// pool holds genuine keys and signatures.
type pool struct {
	pks   []signature.PrivateKey
	sigs  []signature.Signature
	rsigs []signature.RingSignature
}

func newPool(r *Rng) *pool {
	p := &pool{}
	for i := 0; i < 5; i++ {
		k, err := newKeyOf(r)
		if err != nil {
			panic(err)
		}
		p.pks = append(p.pks, k)
	}
	for i := 0; i < 6; i++ {
		s, err := p.pks[i%5].Sign(fmt.Sprintf("message %d", i))
		if err != nil {
			panic(err)
		}
		p.sigs = append(p.sigs, s)
		ring := []signature.PublicKey{p.pks[i%5].PublicKey(), p.pks[(i+1)%5].PublicKey()}
		rs, err := p.pks[i%5].RingSign(fmt.Sprintf("message %d", i), ring)
		if err != nil {
			panic(err)
		}
		p.rsigs = append(p.rsigs, rs)
	}
	return p
}

var zones = []*time.Location{time.UTC, time.FixedZone("a", 3600), time.FixedZone("b", -9*3600), time.FixedZone("c", 19800)}

func genTime(r *Rng) time.Time {
	base := []int64{0, 1, -1, 1700000000, 946684799, -86400, 4102444800}
	s := Pick(r, base) + int64(r.N(100000))
	ns := int64(0)
	switch r.N(3) {
	case 0:
		ns = int64(r.N(1000000000))
	case 1:
		ns = 999999999
	}
	return time.Unix(s, ns).In(Pick(r, zones))
}

func genHash(r *Rng) hash.Hash {
	if r.P(1, 12) {
		return hash.Hash{}
	}
	var h hash.Hash
	copy(h[:], r.Bytes(64))
	return h
}

func genNonce(r *Rng) string {
	switch r.N(5) {
	case 0:
		return r.Str("0123456789", r.Range(1, 8))
	case 1:
		return r.Str("0123456789|", r.Range(1, 12))
	case 2:
		return string(r.Bytes(r.Range(1, 80)))
	default:
		return r.Str("abcdef0123", r.Range(1, 20))
	}
}

func genUint(r *Rng) uint {
	switch r.N(4) {
	case 0:
		return uint(r.Range(1, 20))
	case 1:
		return uint(r.U64()>>1) | 1
	default:
		return uint(r.Range(1, 1000000))
	}
}

func genNode(r *Rng, p *pool, kind string, depth int) *node {
	n := &node{kind: kind, f: map[string]interface{}{}}
	child := func(k string) *node { return genNode(r, p, k, depth+1) }
	list := func(k string) []*node {
		out := []*node{}
		m := r.Range(1, 3)
		if depth == 0 && r.P(1, 25) {
			m = Pick(r, []int{8, 9, 10, 16, 17, r.Range(4, 40)})
		}
		for i := 0; i < m; i++ {
			if i > 0 && r.P(1, 8) {
				// repeated elements
				out = append(out, out[r.N(i)].clone())
				continue
			}
			out = append(out, child(k))
		}
		if m > 3 && r.P(1, 2) {
			out[m-1] = out[m-2].clone()
		}
		return out
	}
	switch kind {
	case "ring":
		l := []hash.Hash{}
		amount := r.Range(1, 4)
		if depth == 0 && r.P(1, 6) || r.P(1, 200) {
			amount = Pick(r, []int{8, 9, 16, 17, 32, 33, 64, 65, r.Range(5, 300)})
		}
		for i := amount; i > 0; i-- {
			if len(l) > 0 && r.P(1, 8) {
				l = append(l, l[r.N(len(l))])
				continue
			}
			l = append(l, genHash(r))
		}
		n.f["List"] = l
	case "rings":
		n.f["List"] = list("ring")
	case "unitcontent":
		n.f["Amount"] = genUint(r)
		n.f["Nonce"] = genNonce(r)
		c := genTime(r)
		n.f["CreatedOn"] = c
		n.f["ActivatedOn"] = c.Add(time.Duration(r.N(3)) * time.Duration(r.N(100000000000))).In(Pick(r, zones))
		if r.P(1, 4) {
			n.f["CreatedOn"] = time.Unix(0, int64(r.Range(0, 99)))
			n.f["ActivatedOn"] = time.Unix(int64(r.Range(1, 1000000)), int64(r.N(1000000000)))
		}
	case "unit":
		n.f["Content"] = child("unitcontent")
		n.f["Owner"] = child("ring")
	case "units":
		n.f["List"] = list("unit")
	case "genesis":
		units := child("units")
		n.f["Units"] = units
		n.f["Fees"] = uint(r.N(200))
		n.f["CreatedOn"] = earliest(units).Add(-time.Duration(r.N(3)) * time.Duration(r.N(1000000000))).In(Pick(r, zones))
	case "gprivate":
		n.f["Unit"] = child("unit")
		n.f["PrivateKey"] = Pick(r, p.pks)
	case "gprivates":
		n.f["List"] = list("gprivate")
	case "origin":
		if depth > 6 || r.P(2, 3) {
			n.f["Genesis"] = child("unit")
		} else {
			n.f["Transaction"] = child("trx")
		}
	case "content":
		n.f["Owner"] = child("ring")
		n.f["Amount"] = genHash(r)
		n.f["Origin"] = child("origin")
		n.f["External"] = genHash(r)
		n.f["CreatedOn"] = genTime(r)
	case "trx":
		n.f["Content"] = child("content")
		n.f["Authorization"] = Pick(r, p.rsigs)
	case "trxs":
		n.f["List"] = list("trx")
	case "secret":
		n.f["Amount"] = genUint(r)
		n.f["Nonce"] = genNonce(r)
		n.f["Public"] = child("trx")
		if depth < 4 && r.P(1, 3) {
			n.f["Origin"] = child("secret")
		}
		if depth < 4 && r.P(1, 4) {
			n.f["Sides"] = child("secrets")
		}
	case "secrets":
		n.f["List"] = list("secret")
	case "receipt":
		n.f["Secret"] = child("secret")
		n.f["Signature"] = Pick(r, p.sigs)
	case "private":
		n.f["PrivateKey"] = Pick(r, p.pks)
		n.f["Receipt"] = child("receipt")
	case "privates":
		n.f["List"] = list("private")
	case "block":
		n.f["Height"] = genUint(r)
		n.f["Fees"] = child("ring")
		n.f["Transactions"] = child("trxs")
		n.f["CreatedOn"] = genTime(r)
		if r.P(1, 2) {
			n.f["Previous"] = genHash(r)
		}
	case "chain":
		id, err := uuid.FromBytes(r.Bytes(16))
		if err != nil {
			panic(err)
		}
		n.f["ID"] = id
		n.f["Root"] = genHash(r)
		n.f["CreatedOn"] = genTime(r)
		if r.P(1, 2) {
			n.f["Head"] = child("block")
		}
	case "idtrxs":
		if r.P(1, 2) {
			n.f["Incoming"] = child("secrets")
		}
		if r.P(1, 2) {
			n.f["Outgoing"] = child("privates")
		}
	case "identity":
		n.f["Name"] = genNonce(r)
		n.f["Transactions"] = child("idtrxs")
		if r.P(1, 2) {
			n.f["Genesis"] = child("privates")
		}
	case "peer":
		n.f["Host"] = r.Str("abc.", r.Range(1, 10))
		n.f["Port"] = uint(r.N(70000))
	case "peers":
		n.f["List"] = list("peer")
	default:
		panic(kind)
	}
	return n
}

func earliest(units *node) time.Time {
	var out time.Time
	for i, u := range units.f["List"].([]*node) {
		t := u.f["Content"].(*node).f["CreatedOn"].(time.Time)
		if i == 0 || t.Before(out) {
			out = t
		}
	}
	return out
}

// canon writes the committed content of a record.
func (n *node) canon(b *strings.Builder) {
	b.WriteString(n.kind + "{")
	for _, k := range sortedKeys(n.f) {
		b.WriteString(k + "=")
		switch v := n.f[k].(type) {
		case *node:
			v.canon(b)
		case []*node:
			b.WriteString("[")
			for _, e := range v {
				e.canon(b)
				b.WriteString(",")
			}
			b.WriteString("]")
		case []hash.Hash:
			for _, h := range v {
				b.WriteString(h.String() + ",")
			}
		case hash.Hash:
			b.WriteString(v.String())
		case time.Time:
			if kinds[n.kind].nanos {
				fmt.Fprintf(b, "%d", v.UnixNano())
			} else {
				fmt.Fprintf(b, "%d", v.Unix())
			}
		case string:
			fmt.Fprintf(b, "%q", v)
		default:
			if s, ok := v.(interface{ String() string }); ok {
				b.WriteString(s.String())
			} else {
				fmt.Fprintf(b, "%v", v)
			}
		}
		b.WriteString(";")
	}
	b.WriteString("}")
}

func (n *node) text() string {
	var b strings.Builder
	n.canon(&b)
	return b.String()
}

func (n *node) clone() *node {
	out := &node{kind: n.kind, f: map[string]interface{}{}}
	for k, v := range n.f {
		switch t := v.(type) {
		case *node:
			out.f[k] = t.clone()
		case []*node:
			l := []*node{}
			for _, e := range t {
				l = append(l, e.clone())
			}
			out.f[k] = l
		case []hash.Hash:
			out.f[k] = append([]hash.Hash{}, t...)
		default:
			out.f[k] = v
		}
	}
	return out
}

func (n *node) all(out *[]*node) {
	*out = append(*out, n)
	for _, k := range sortedKeys(n.f) {
		switch t := n.f[k].(type) {
		case *node:
			t.all(out)
		case []*node:
			for _, e := range t {
				e.all(out)
			}
		}
	}
}

// mutate changes one site of the record; it returns what it did.
func (n *node) mutate(r *Rng, p *pool) string {
	nodes := []*node{}
	n.all(&nodes)
	for tries := 0; tries < 40; tries++ {
		t := Pick(r, nodes)
		if r.P(1, 3) {
			t = n
		}
		keys := sortedKeys(t.f)
		if len(keys) == 0 {
			continue
		}
		if what := t.special(r, p); what != "" {
			return t.kind + ":" + what
		}
		k := Pick(r, keys)
		switch v := t.f[k].(type) {
		case uint:
			switch r.N(4) {
			case 0:
				t.f[k] = v + 1
			case 1:
				t.f[k] = v * 10
			case 2:
				// numbers that are the same to a narrower type
				t.f[k] = v ^ (1 << uint(Pick(r, []int{7, 8, 15, 16, 31, 32, 52, 53, 62, r.N(63)})))
			default:
				t.f[k] = v ^ (1 << uint(r.N(20)))
			}
			if t.f[k].(uint) == 0 || t.f[k].(uint) == v {
				t.f[k] = v + 7
			}
		case string:
			t.f[k] = otherMsg(r, v)
			if t.f[k].(string) == "" {
				t.f[k] = v + "x"
			}
		case time.Time:
			switch r.N(6) {
			case 5:
				// numbers of seconds that are the same to a narrower type
				d := time.Duration(1<<32) * time.Second
				if r.P(1, 2) {
					d = time.Duration(1<<31) * time.Second
				}
				if v.Year() > 2050 {
					d = -d
				}
				t.f[k] = v.Add(d)
			case 0:
				t.f[k] = v.Add(time.Nanosecond)
			case 1:
				t.f[k] = v.Add(time.Second)
			case 2:
				t.f[k] = v.Add(time.Duration(r.N(1000000000)))
			case 3:
				t.f[k] = v.In(Pick(r, zones)) // the same instant
			default:
				t.f[k] = v.Add(time.Hour)
			}
		case hash.Hash:
			v[r.N(64)] ^= 1 << uint(r.N(8))
			t.f[k] = v
		case []hash.Hash:
			switch r.N(6) {
			case 0:
				v[r.N(len(v))][r.N(64)] ^= 1 << uint(r.N(8))
				t.f[k] = v
			case 1:
				t.f[k] = append(v, v[r.N(len(v))])
			case 2:
				i, j := r.N(len(v)), r.N(len(v))
				v[i], v[j] = v[j], v[i]
			case 3:
				if len(v) < 2 {
					continue
				}
				if r.P(1, 2) {
					// the last ones differ
					v[len(v)-1][r.N(64)] ^= 1 << uint(r.N(8))
					t.f[k] = v
					break
				}
				t.f[k] = v[:len(v)-1]
			case 4:
				// the list replaced by its own digest
				all := []byte{}
				for _, h := range v {
					all = append(all, h.Bytes()...)
				}
				t.f[k] = []hash.Hash{hash.Hash(sha512.Sum512(all))}
			default:
				if len(v) < 2 {
					continue
				}
				all := append(v[0].Bytes(), v[1].Bytes()...)
				t.f[k] = append([]hash.Hash{hash.Hash(sha512.Sum512(all))}, v[2:]...)
			}
		case []*node:
			switch r.N(5) {
			case 0:
				t.f[k] = append(v, genNode(r, p, v[0].kind, 5))
			case 1:
				t.f[k] = append(v, v[r.N(len(v))].clone())
			case 2:
				i, j := r.N(len(v)), r.N(len(v))
				v[i], v[j] = v[j], v[i]
			case 3:
				if len(v) < 2 {
					continue
				}
				i := r.N(len(v))
				if r.P(1, 3) {
					i = len(v) - 1
				}
				t.f[k] = append(append([]*node{}, v[:i]...), v[i+1:]...)
			default:
				v[r.N(len(v))] = genNode(r, p, v[0].kind, 5)
			}
		case *node:
			if contains(kinds[t.kind].optional, k) && r.P(1, 2) {
				delete(t.f, k)
				return t.kind + ":drop-" + k
			}
			if v.kind == "origin" || v.kind == "units" {
				continue
			}
			t.f[k] = genNode(r, p, v.kind, 5)
		case signature.PrivateKey:
			t.f[k] = Pick(r, p.pks)
		case signature.RingSignature:
			t.f[k] = Pick(r, p.rsigs)
		case signature.Signature:
			t.f[k] = Pick(r, p.sigs)
		case uuid.UUID:
			v[r.N(16)] ^= 1 << uint(r.N(8))
			t.f[k] = v
		default:
			continue
		}
		return t.kind + ":" + k
	}
	return ""
}

// special plays the edits an adversary would try.
func (n *node) special(r *Rng, p *pool) string {
	if !r.P(1, 3) {
		return ""
	}
	switch n.kind {
	case "unitcontent", "secret":
		amount := fmt.Sprint(n.f["Amount"].(uint))
		nonce := n.f["Nonce"].(string)
		switch r.N(4) {
		case 0: // a digit moves from the amount to the nonce
			if len(amount) < 2 {
				return ""
			}
			var a uint
			fmt.Sscan(amount[:len(amount)-1], &a)
			n.f["Amount"] = a
			n.f["Nonce"] = amount[len(amount)-1:] + nonce
			return "shift-right"
		case 1: // or back
			if len(nonce) < 2 || nonce[0] < '0' || nonce[0] > '9' || len(amount) > 17 {
				return ""
			}
			var a uint
			fmt.Sscan(amount+nonce[:1], &a)
			n.f["Amount"] = a
			n.f["Nonce"] = nonce[1:]
			return "shift-left"
		case 2:
			if n.kind == "secret" {
				// the nonce swallows the origin or the sides
				for _, k := range []string{"Origin", "Sides"} {
					if o, ok := n.f[k].(*node); ok {
						obj, err := o.build(r, nil)
						if err != nil {
							return ""
						}
						h := hashOf(obj)
						n.f["Nonce"] = nonce + string(h.Bytes())
						delete(n.f, k)
						return "swallow-" + k
					}
				}
				return ""
			}
			// the nonce swallows a digit of the activation time
			act := n.f["ActivatedOn"].(time.Time).UnixNano()
			s := fmt.Sprint(act)
			if act < 0 || len(s) < 3 || s[1] == '0' {
				return ""
			}
			var rest int64
			fmt.Sscan(s[1:], &rest)
			if rest < n.f["CreatedOn"].(time.Time).UnixNano() {
				return ""
			}
			n.f["Nonce"] = nonce + s[:1]
			n.f["ActivatedOn"] = time.Unix(0, rest)
			return "swallow-time"
		default:
			if n.kind != "secret" {
				// a digit moves from the activation time to the creation time
				act, created := n.f["ActivatedOn"].(time.Time).UnixNano(), n.f["CreatedOn"].(time.Time).UnixNano()
				if act < 100 || act > 1e18 || created < 1 || created > 1e12 || act%10 == 0 {
					return ""
				}
				var moved int64
				fmt.Sscan(fmt.Sprintf("%d%d", act%10, created), &moved)
				if act/10 < moved {
					return ""
				}
				n.f["ActivatedOn"] = time.Unix(0, act/10)
				n.f["CreatedOn"] = time.Unix(0, moved)
				return "shift-times"
			}
			o, hasO := n.f["Origin"].(*node)
			s, hasS := n.f["Sides"].(*node)
			switch {
			case hasO && !hasS:
				n.f["Sides"] = &node{kind: "secrets", f: map[string]interface{}{"List": []*node{o}}}
				delete(n.f, "Origin")
				return "origin-to-sides"
			case hasS && !hasO:
				n.f["Origin"] = s.f["List"].([]*node)[0]
				delete(n.f, "Sides")
				return "sides-to-origin"
			case !hasO:
				n.f["Origin"] = genNode(r, p, "secret", 5)
				return "add-origin"
			}
			return ""
		}
	case "block":
		if _, ok := n.f["Previous"]; ok {
			delete(n.f, "Previous")
			return "drop-previous"
		}
		n.f["Previous"] = genHash(r)
		return "add-previous"
	case "chain":
		if _, ok := n.f["Head"]; ok {
			delete(n.f, "Head")
			return "drop-head"
		}
		n.f["Head"] = genNode(r, p, "block", 5)
		return "add-head"
	case "content":
		n.f["Amount"], n.f["External"] = n.f["External"], n.f["Amount"]
		return "swap-amount-external"
	}
	return ""
}

func contains(list []string, v string) bool {
	for _, e := range list {
		if e == v {
			return true
		}
	}
	return false
}

func call(recv interface{}, method string, args ...interface{}) []reflect.Value {
	m := reflect.ValueOf(recv).MethodByName(method)
	if !m.IsValid() {
		panic(fmt.Sprintf("%T has no method %s", recv, method))
	}
	in := []reflect.Value{}
	for i, a := range args {
		if a == nil {
			in = append(in, reflect.Zero(m.Type().In(i)))
			continue
		}
		in = append(in, reflect.ValueOf(a))
	}
	return m.Call(in)
}

func hasMethod(recv interface{}, name string) bool {
	return reflect.ValueOf(recv).MethodByName(name).IsValid()
}

func setter(b interface{}, field string, value interface{}) interface{} {
	name := "With" + field
	if !hasMethod(b, name) {
		name = field
	}
	return call(b, name, value)[0].Interface()
}

func finish(b interface{}) (interface{}, error) {
	out := call(b, "Now")
	var err error
	if !out[1].IsNil() {
		err = out[1].Interface().(error)
	}
	if out[0].IsNil() {
		return nil, err
	}
	return out[0].Interface(), err
}

func hashOf(obj interface{}) hash.Hash {
	return call(obj, "Hash")[0].Interface().(hash.Hash)
}

// value turns the field of a record into what its setter wants.
func (n *node) value(r *Rng, field string, objs map[*node]interface{}) (interface{}, error) {
	switch v := n.f[field].(type) {
	case *node:
		return v.build(r, objs)
	case []*node:
		b := kinds[n.kind].builder()
		name := "WithList"
		t := reflect.ValueOf(b).MethodByName(name).Type().In(0)
		out := reflect.MakeSlice(t, 0, len(v))
		share := r.P(1, 2) // equal neighbours are one instance
		var prev interface{}
		for i, e := range v {
			if share && i > 0 && e.text() == v[i-1].text() {
				out = reflect.Append(out, reflect.ValueOf(prev))
				continue
			}
			o, err := e.build(r, objs)
			if err != nil {
				return nil, err
			}
			prev = o
			out = reflect.Append(out, reflect.ValueOf(o))
		}
		return out.Interface(), nil
	case []hash.Hash:
		return append([]hash.Hash{}, v...), nil
	default:
		return v, nil
	}
}

// build makes the record through its public builder, in a random setter order.
func (n *node) build(r *Rng, objs map[*node]interface{}) (interface{}, error) {
	b := kinds[n.kind].builder()
	if r.P(1, 2) {
		b = call(b, "Create")[0].Interface()
	}
	keys := sortedKeys(n.f)
	for _, i := range r.Perm(len(keys)) {
		v, err := n.value(r, keys[i], objs)
		if err != nil {
			return nil, err
		}
		if objs != nil {
			if sub, ok := n.f[keys[i]].(*node); ok {
				objs[sub] = v
			}
		}
		b = setter(b, keys[i], v)
	}
	obj, err := finish(b)
	if err == nil && objs != nil {
		objs[n] = obj
	}
	return obj, err
}

// compare checks that the getters of obj give the content of the record.
func (n *node) compare(obj interface{}) string {
	spec := kinds[n.kind]
	for _, k := range sortedKeys(n.f) {
		getter := k
		if k == "List" && spec.getList != "" {
			getter = spec.getList
		}
		got := call(obj, getter)[0].Interface()
		if ptr, ok := got.(*hash.Hash); ok && ptr != nil {
			got = *ptr
		}
		switch want := n.f[k].(type) {
		case *node:
			if got == nil {
				return n.kind + "." + k + " is missing"
			}
			if d := want.compare(got); d != "" {
				return n.kind + "." + d
			}
		case []*node:
			v := reflect.ValueOf(got)
			if v.Len() != len(want) {
				return fmt.Sprintf("%s.%s has %d elements, expected %d", n.kind, k, v.Len(), len(want))
			}
			for i := range want {
				if d := want[i].compare(v.Index(i).Interface()); d != "" {
					return fmt.Sprintf("%s[%d].%s", n.kind, i, d)
				}
			}
		case []hash.Hash:
			if !reflect.DeepEqual(got, want) {
				return n.kind + "." + k + " differs"
			}
		case time.Time:
			t, ok := got.(time.Time)
			if !ok || !t.Equal(want) {
				return fmt.Sprintf("%s.%s is %v, expected %v", n.kind, k, got, want)
			}
		case interface{ String() string }:
			s, ok := got.(interface{ String() string })
			if !ok || s.String() != want.String() {
				return fmt.Sprintf("%s.%s is %v, expected %v", n.kind, k, got, want)
			}
		default:
			if !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("%s.%s is %v, expected %v", n.kind, k, got, want)
			}
		}
	}
	for _, k := range spec.optional {
		if !hasMethod(obj, "Has"+k) {
			continue
		}
		has := call(obj, "Has"+k)[0].Bool()
		_, want := n.f[k]
		if has != want {
			return fmt.Sprintf("%s.Has%s is %v, expected %v", n.kind, k, has, want)
		}
	}
	if n.kind == "origin" {
		_, g := n.f["Genesis"]
		if call(obj, "IsGenesis")[0].Bool() != g || call(obj, "IsTransaction")[0].Bool() == g {
			return "origin: the kind of origin differs"
		}
	}
	return ""
}

func init() {
	register(&Check{
		ID: "C02",
		Rule: "random records of the 18 hashed ledger kinds, built twice (other setter order, other time zone) and after one edit anywhere in the record (fields, list order and membership, optional parts, digits moved between " +
			"neighbouring fields, lists replaced by their digest); non-trivial: the edit changed the committed content. All hashes of a run are also kept in one collision table per kind",
		Assumptions: []string{"timestamps are committed with a resolution of one second in transactions, blocks and chains and of one nanosecond in a genesis", "timestamps lie between 1678 and 2262"},
		Run:         runC02,
	})
	register(&Check{
		ID:   "C15",
		Rule: "random records of every ledger kind, identity and peer kinds included, read back recursively through their getters and presence flags; non-trivial: distinct record read back",
		Run:  runC15,
	})
	register(&Check{
		ID:   "C13",
		Rule: "for each of 28 builders, every subset of its setters (exhaustive), in random order, followed by re-use, Create() and sibling builders; non-trivial: distinct (builder, subset)",
		Run:  runC13,
	})
	register(&Check{
		ID:   "C11",
		Rule: "activation and creation instants around equality (-1h..+1h, down to 1 ns, across time zones) and genesis with one early unit at a random position; non-trivial: distinct pair of instants",
		Run:  runC11,
	})
	register(&Check{
		ID:   "C12",
		Rule: "random bounds (0..6), list sizes (0..8) around them, inverted bounds and the absent list; exhaustive over min 0..5, max 0..5, size 0..6; non-trivial: distinct triple",
		Run:  runC12,
	})
	register(&Check{
		ID:          "C14",
		Rule:        "random hosts, ports and delimiters written and parsed, and malformed texts (missing, repeated delimiter, signs, spaces, overflow, empty host); non-trivial: distinct text judged",
		Assumptions: []string{"hosts that contain the delimiter have no parseable text form"},
		Run:         runC14,
	})
}

func runC02(x *Ctx) {
	type seenHash struct{ canon, id string }
	table := map[string]seenHash{}
	var p *pool
	x.Each("record", x.Scale(80000, 1000000), func(c *Case) {
		if p == nil {
			p = newPool(NewRng("pool", x.Seed))
		}
		kind := hashedKinds[c.Index%len(hashedKinds)]
		n := genNode(c.R, p, kind, 0)
		c.Put("record", n.text())
		objs := map[*node]interface{}{}
		obj, err := n.build(c.R, objs)
		if err != nil {
			c.Fail("build:"+kind, "%v", err)
			return
		}
		h := hashOf(obj)
		c.Event("hash_" + kind)
		note := func(kind, canon string, h hash.Hash) {
			key := kind + h.String()
			if prev, ok := table[key]; ok {
				if prev.canon != canon {
					c.Put("first", prev.canon)
					c.Put("second", canon)
					c.Fail("collision:"+kind, "two different %s records carry the hash %s", kind, h.String()[:16])
				}
				return
			}
			table[key] = seenHash{canon, c.ID}
		}
		note(kind, n.text(), h)
		for sub, o := range objs {
			if o != nil && sub.kind != "origin" && hasMethod(o, "Hash") {
				note(sub.kind, sub.text(), hashOf(o))
			}
		}
		// the same record again
		again, err := n.build(c.R, nil)
		if err != nil || hashOf(again) != h {
			c.Fail("unstable:"+kind, "the same %s built twice has two hashes (%v)", kind, err)
		}
		for i := 0; i < 4; i++ {
			m := n.clone()
			what := m.mutate(c.R, p)
			if what == "" {
				continue
			}
			o, err := m.build(c.R, nil)
			if err != nil {
				c.Event("rejected_edits")
				continue
			}
			c.Event("edits")
			mh := hashOf(o)
			same := m.text() == n.text()
			if same && mh != h {
				c.Put("edit", what)
				c.Put("edited", m.text())
				c.Fail("unstable-edit:"+kind, "edit %s does not change the content of the %s but changes its hash", what, kind)
			}
			if !same && mh == h {
				c.Put("edit", what)
				c.Put("edited", m.text())
				c.Fail("uncommitted:"+kind+":"+what, "edit %s changes the content of the %s but not its hash", what, kind)
			}
			note(kind, m.text(), mh)
			if !same {
				c.Event("edit_" + what)
				c.Distinct(n.text(), m.text())
			}
		}
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"kind": kind, "record": cut(n.text(), 500)})
		}
	})
}

func runC15(x *Ctx) {
	all := append(append([]string{}, hashedKinds...), "origin", "identity", "idtrxs", "peer", "peers")
	var p *pool
	x.Each("record", x.Scale(40000, 500000), func(c *Case) {
		if p == nil {
			p = newPool(NewRng("pool", x.Seed))
		}
		kind := all[c.Index%len(all)]
		n := genNode(c.R, p, kind, 0)
		c.Put("record", n.text())
		obj, err := n.build(c.R, nil)
		if err != nil {
			c.Fail("build:"+kind, "a complete %s is refused: %v", kind, err)
			return
		}
		c.Event("read_" + kind)
		if d := n.compare(obj); d != "" {
			c.Fail("getter:"+kind, "%s", d)
		}
		if d := n.compare(obj); d != "" {
			c.Fail("getter-twice:"+kind, "%s", d)
		}
		if kind == "peer" {
			want := fmt.Sprintf("%s:%d", n.f["Host"], n.f["Port"])
			if got := call(obj, "String")[0].String(); got != want {
				c.Fail("peer-text", "%q, expected %q", got, want)
			}
		}
		c.Distinct(n.text())
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"kind": kind, "record": cut(n.text(), 500)})
		}
	})
}

// builderCase describes one builder for the exhaustive enumeration.
type builderCase struct {
	name      string
	make      func() interface{}
	fields    map[string]func(r *Rng) interface{} // setter -> value
	mandatory [][]string                          // each group needs one of its setters
	empty     map[string]interface{}              // a value that counts as absent
}

func builderCases(r *Rng, p *pool) []builderCase {
	out := []builderCase{}
	for _, kind := range sortedKeys(kinds) {
		kind := kind
		spec := kinds[kind]
		bc := builderCase{name: kind, make: spec.builder, fields: map[string]func(*Rng) interface{}{}, empty: map[string]interface{}{}}
		// a complete record gives consistent values
		full := genNode(r, p, kind, 0)
		if kind == "origin" {
			u, _ := genNode(r, p, "unit", 0).build(r, nil)
			t, _ := genNode(r, p, "trx", 0).build(r, nil)
			bc.fields["Genesis"] = func(*Rng) interface{} { return u }
			bc.fields["Transaction"] = func(*Rng) interface{} { return t }
			bc.mandatory = [][]string{{"Genesis", "Transaction"}}
			out = append(out, bc)
			continue
		}
		for _, k := range spec.optional {
			if _, ok := full.f[k]; ok {
				continue
			}
			switch kind + "." + k {
			case "secret.Origin":
				full.f[k] = genNode(r, p, "secret", 6)
			case "secret.Sides":
				full.f[k] = genNode(r, p, "secrets", 6)
			case "block.Previous":
				full.f[k] = genHash(r)
			case "chain.Head":
				full.f[k] = genNode(r, p, "block", 6)
			case "identity.Genesis", "idtrxs.Outgoing":
				full.f[k] = genNode(r, p, "privates", 6)
			case "idtrxs.Incoming":
				full.f[k] = genNode(r, p, "secrets", 6)
			}
		}
		for k := range full.f {
			v, err := full.value(r, k, nil)
			if err != nil {
				panic(err)
			}
			bc.fields[k] = func(*Rng) interface{} { return v }
			rv := reflect.ValueOf(v)
			switch rv.Kind() {
			case reflect.String:
				bc.empty[k] = ""
			case reflect.Slice:
				if kind != "ring" {
					bc.empty[k] = reflect.MakeSlice(rv.Type(), 0, 0).Interface()
				}
			case reflect.Uint:
				if k == "Amount" || k == "Height" {
					bc.empty[k] = uint(0)
				}
			}
		}
		for _, k := range spec.mandatory {
			bc.mandatory = append(bc.mandatory, []string{k})
		}
		out = append(out, bc)
	}
	rsaKey := func() rsa.PrivateKey {
		k, err := enc.NewFactory(1024).Create()
		if err != nil {
			panic(err)
		}
		return k.Key()
	}()
	out = append(out,
		builderCase{name: "encryption", make: func() interface{} { return crypt.NewBuilder() },
			fields: map[string]func(*Rng) interface{}{"Password": func(r *Rng) interface{} { return r.Bytes(5) }}, mandatory: [][]string{{"Password"}}},
		builderCase{name: "rsa-private", make: func() interface{} { return enc.NewBuilder() },
			fields: map[string]func(*Rng) interface{}{"PK": func(r *Rng) interface{} { return rsaKey }}, mandatory: [][]string{{"PK"}}},
		builderCase{name: "rsa-public", make: func() interface{} { return enc.NewPublicKeyBuilder() },
			fields: map[string]func(*Rng) interface{}{"Key": func(r *Rng) interface{} { return rsaKey.PublicKey }}, mandatory: [][]string{{"Key"}}},
		builderCase{name: "hashtree", make: func() interface{} { return hashtree.NewBuilder() },
			fields:    map[string]func(*Rng) interface{}{"Blocks": func(r *Rng) interface{} { return [][]byte{[]byte("a")} }},
			mandatory: [][]string{{"Blocks"}}, empty: map[string]interface{}{"Blocks": [][]byte{}}},
		builderCase{name: "peer-text", make: func() interface{} { return peers.NewPeerBuilder(":") },
			fields:    map[string]func(*Rng) interface{}{"String": func(r *Rng) interface{} { return "host:80" }},
			mandatory: [][]string{{"String"}}, empty: map[string]interface{}{"String": ""}},
	)
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// flags tells what the optional parts of a record are.
func flags(obj interface{}) string {
	out := ""
	v := reflect.ValueOf(obj)
	for i := 0; i < v.NumMethod(); i++ {
		nme := v.Type().Method(i).Name
		m := v.Method(i)
		if !strings.HasPrefix(nme, "Has") && !strings.HasPrefix(nme, "Is") {
			continue
		}
		if m.Type().NumIn() == 0 && m.Type().NumOut() == 1 && m.Type().Out(0).Kind() == reflect.Bool {
			out += fmt.Sprintf("%s=%v ", nme, m.Call(nil)[0].Bool())
		}
	}
	return out
}

func runC13(x *Ctx) {
	p := newPool(NewRng("pool", x.Seed))
	cases := builderCases(NewRng("builders", x.Seed), p)
	rounds := x.Scale(6, 40)
	total := 0
	type item struct {
		bc   *builderCase
		mask int
	}
	items := []item{}
	for i := range cases {
		for mask := 0; mask < 1<<uint(len(cases[i].fields)); mask++ {
			items = append(items, item{&cases[i], mask})
		}
	}
	total = len(items) * rounds
	x.Each("subset", total, func(c *Case) {
		it := items[c.Index%len(items)]
		bc := it.bc
		names := sortedKeys(bc.fields)
		chosen := []string{}
		for i, nme := range names {
			if it.mask&(1<<uint(i)) != 0 {
				chosen = append(chosen, nme)
			}
		}
		c.Put("builder", bc.name)
		c.Put("setters", strings.Join(chosen, ","))
		complete := func(list []string) bool {
			for _, group := range bc.mandatory {
				ok := false
				for _, g := range group {
					ok = ok || contains(list, g)
				}
				if !ok {
					return false
				}
			}
			return true
		}
		apply := func(b interface{}, list []string) interface{} {
			for _, i := range c.R.Perm(len(list)) {
				b = setter(b, list[i], bc.fields[list[i]](c.R))
			}
			return b
		}
		judge := func(b interface{}, list []string, step string) interface{} {
			obj, err := finish(b)
			c.Event("built_or_refused")
			if complete(list) {
				if err != nil || obj == nil {
					c.Fail("refused:"+bc.name, "%s: %s with %v is complete but was refused: %v", step, bc.name, list, err)
					return nil
				}
				return obj
			}
			if err == nil {
				c.Fail("accepted:"+bc.name, "%s: %s with only %v was accepted", step, bc.name, list)
			}
			return nil
		}
		same := func(a, b interface{}, step string) {
			if a == nil || b == nil || !hasMethod(a, "Hash") {
				return
			}
			if hashOf(a) != hashOf(b) {
				c.Fail("reuse:"+bc.name, "%s: the hash differs", step)
			}
		}
		root := bc.make()
		b := apply(root, chosen)
		first := judge(b, chosen, "direct")
		same(first, judge(b, chosen, "again"), "again")
		// Create gives a blank builder
		blank := call(b, "Create")[0].Interface()
		judge(blank, nil, "blank")
		second := judge(apply(blank, chosen), chosen, "recreated")
		if bc.name != "encryption" {
			same(first, second, "recreated")
		}
		// siblings do not share their fields
		left := call(b, "Create")[0].Interface()
		right := call(b, "Create")[0].Interface()
		left = apply(left, chosen)
		judge(right, nil, "sibling")
		judge(left, chosen, "sibling")
		// completing an incomplete builder works
		missing := []string{}
		for _, nme := range names {
			if !contains(chosen, nme) {
				missing = append(missing, nme)
			}
		}
		if len(missing) > 0 {
			judge(apply(b, missing), names, "completed")
		}
		// nothing of a complete builder goes into the one made from it
		vals := map[string]interface{}{}
		for _, nme := range names {
			vals[nme] = bc.fields[nme](c.R)
		}
		with := func(b interface{}, list []string) interface{} {
			for _, i := range c.R.Perm(len(list)) {
				b = setter(b, list[i], vals[list[i]])
			}
			return b
		}
		full := with(bc.make(), names)
		if c.R.P(1, 2) {
			judge(full, names, "full")
		}
		after := judge(with(call(full, "Create")[0].Interface(), chosen), chosen, "made from a complete one")
		fresh := judge(with(bc.make(), chosen), chosen, "fresh")
		if bc.name != "encryption" {
			same(after, fresh, "made from a complete one")
		}
		if after != nil && fresh != nil && flags(after) != flags(fresh) {
			c.Fail("reuse:"+bc.name, "made from a complete one: it has %s, expected %s", flags(after), flags(fresh))
		}
		c.Event("builders made from a complete one")
		// a value that counts as absent
		for _, k := range chosen {
			e, ok := bc.empty[k]
			if !ok {
				continue
			}
			fresh := apply(bc.make(), chosen)
			fresh = setter(fresh, k, e)
			rest := []string{}
			for _, o := range chosen {
				if o != k {
					rest = append(rest, o)
				}
			}
			judge(fresh, rest, "emptied "+k)
			c.Event("emptied_fields")
		}
		c.Distinct(bc.name, it.mask)
		if c.Index == 0 {
			c.Sample(map[string]interface{}{"builders": len(cases), "subsets": len(items), "rounds": rounds})
		}
	})
}

func runC11(x *Ctx) {
	deltas := []time.Duration{0, 1, -1, 2, -2, time.Microsecond, -time.Microsecond, 999999999, -999999999, time.Second, -time.Second, time.Hour, -time.Hour, 30 * 24 * time.Hour, -30 * 24 * time.Hour}
	delta := func(r *Rng) time.Duration {
		d := Pick(r, deltas)
		if r.P(1, 4) {
			d = time.Duration(int64(r.U64()>>8)%int64(100*time.Hour)) - 50*time.Hour
		}
		return d
	}
	x.Each("unit", x.Scale(60000, 800000), func(c *Case) {
		created := genTime(c.R)
		d := delta(c.R)
		act := created.Add(d).In(Pick(c.R, zones))
		c.Put("created", created.Format(time.RFC3339Nano))
		c.Put("delta", d)
		obj, err := genesis.NewUnitContentBuilder().Create().WithAmount(genUint(c.R)).WithNonce(genNonce(c.R)).ActivatedOn(act).CreatedOn(created).Now()
		c.Event("units")
		if (err == nil) != (d >= 0) {
			c.Fail("activation", "activated %s after its creation: error %v", d, err)
		}
		if err == nil && (!obj.ActivatedOn().Equal(act) || !obj.CreatedOn().Equal(created)) {
			c.Fail("times", "the instants were altered")
		}
		c.Distinct("unit", created.UnixNano(), d)
		if c.Index < 1 {
			c.Sample(map[string]interface{}{"created": created, "activated": act, "accepted": err == nil})
		}
	})
	var p *pool
	x.Each("genesis", x.Scale(16000, 200000), func(c *Case) {
		if p == nil {
			p = newPool(NewRng("pool", x.Seed))
		}
		on := genTime(c.R)
		list := []genesis.Unit{}
		early := 0
		ds := []string{}
		owner, err := genNode(c.R, p, "ring", 0).build(c.R, nil)
		if err != nil {
			c.Fail("ring", "%v", err)
			return
		}
		n := c.R.Range(1, 6)
		bad := -1
		if c.R.P(1, 2) {
			bad = c.R.N(n)
		}
		for i := 0; i < n; i++ {
			d := delta(c.R)
			if i != bad && d < 0 {
				d = -d
			}
			if d < 0 {
				early++
			}
			ds = append(ds, d.String())
			at := on.Add(d).In(Pick(c.R, zones))
			uc, err := genesis.NewUnitContentBuilder().Create().WithAmount(1).WithNonce("n").ActivatedOn(at.Add(time.Hour)).CreatedOn(at).Now()
			if err != nil {
				c.Fail("content", "%v", err)
				return
			}
			u, err := genesis.NewUnitBuilder().Create().WithContent(uc).WithOwner(owner.(rings.Ring)).Now()
			if err != nil {
				c.Fail("unit", "%v", err)
				return
			}
			list = append(list, u)
		}
		c.Put("offsets", strings.Join(ds, ","))
		units, err := genesis.NewUnitsBuilder().Create().WithList(list).Now()
		if err != nil {
			c.Fail("units", "%v", err)
			return
		}
		_, err = genesis.NewBuilder().Create().WithUnits(units).WithFees(uint(c.R.N(5))).CreatedOn(on).Now()
		c.Event("genesis")
		if early > 0 {
			c.Event("genesis_with_early_unit")
		}
		if (err == nil) != (early == 0) {
			c.Fail("early-unit", "units at %v of the genesis: error %v", ds, err)
		}
		c.Distinct("genesis", on.UnixNano(), strings.Join(ds, ","))
	})
}

func runC12(x *Ctx) {
	judge := func(c *Case, min, max uint, size int, absent bool) {
		list := []hash.Hash{}
		for i := 0; i < size; i++ {
			list = append(list, genHash(c.R))
		}
		if absent {
			list = nil
		}
		keep := append([]hash.Hash{}, list...)
		c.Put("case", fmt.Sprintf("min %d max %d size %d absent %v", min, max, size, absent))
		b := rings.NewRingBuilder(min, max)
		for i := 0; i < 2; i++ {
			if i == 1 || c.R.P(1, 2) {
				b = b.Create()
			}
			ring, err := b.WithList(list).Now()
			c.Event("rings")
			want := !absent && uint(size) >= min && uint(size) <= max
			if (err == nil) != want {
				c.Fail("bounds", "a ring of %d hashes (absent: %v) with bounds %d..%d: error %v", size, absent, min, max, err)
				continue
			}
			if err == nil {
				got := ring.List()
				if len(got) != size {
					c.Fail("content", "the ring has %d hashes, expected %d", len(got), size)
					continue
				}
				for j := range got {
					if got[j] != keep[j] {
						c.Fail("content", "hash %d of the ring differs", j)
					}
				}
				c.Event("accepted_rings")
			}
		}
		c.Distinct(min, max, size, absent)
	}
	x.Each("grid", 6*6*7, func(c *Case) {
		i := c.Index
		judge(c, uint(i%6), uint(i/6%6), i/36, false)
		if i == 0 {
			c.Sample(map[string]interface{}{"grid": "min 0..5, max 0..5, size 0..6"})
		}
	})
	x.Each("random", x.Scale(24000, 240000), func(c *Case) {
		min := c.R.N(40)
		max := min + c.R.N(6) - 1
		if max < 0 {
			max = 0
		}
		size := Pick(c.R, []int{min - 1, min, max, max + 1, c.R.N(45)})
		if size < 0 {
			size = 0
		}
		judge(c, uint(min), uint(max), size, c.R.P(1, 10))
	})
	// bounds that a narrower number cannot hold
	x.Each("wide", x.Scale(1500, 15000), func(c *Case) {
		wide := []uint{126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1 << 15, 1 << 16, 1<<16 + 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
		min := Pick(c.R, append(append([]uint{}, wide...), 0, 0, 0, 1, 1, 2))
		max := Pick(c.R, wide)
		size := Pick(c.R, []int{0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 258, c.R.N(600)})
		if c.R.P(1, 2) && min < 600 {
			size = int(min) + c.R.N(3) - 1
			if size < 0 {
				size = 0
			}
		}
		judge(c, min, max, size, c.R.P(1, 30))
	})
}

func runC14(x *Ctx) {
	delims := []string{":", "|", "::", "@", "-->"}
	x.Each("text", x.Scale(60000, 800000), func(c *Case) {
		delim := Pick(c.R, delims)
		host := c.R.Str("abcXYZ012._", c.R.Range(1, 20))
		port := uint(Pick(c.R, []uint64{0, 1, 80, 65535, 65536, c.R.U64() >> 1, c.R.U64() >> 40, uint64(c.R.N(70000))}))
		a, err := peers.NewPeerBuilder(delim).Create().WithHost(host).WithPort(port).Now()
		if err != nil {
			c.Fail("build", "%q %d: %v", host, port, err)
			return
		}
		text := a.String()
		c.Put("text", text)
		c.Event("texts")
		if a.Host() != host || a.Port() != port || text != fmt.Sprintf("%s%s%d", host, delim, port) {
			c.Fail("text", "%q %d is written %q", host, port, text)
		}
		b, err := peers.NewPeerBuilder(delim).Create().WithString(text).Now()
		if err != nil || b.Host() != host || b.Port() != port || b.String() != text {
			c.Fail("roundtrip", "%q is not read back: %v", text, err)
		}
		// by a builder that was used before, too
		used := peers.NewPeerBuilder(delim)
		if c.R.P(1, 2) {
			used = used.WithHost("other").WithPort(uint(c.R.N(1000)))
			if c.R.P(1, 2) {
				if _, err := used.Now(); err != nil {
					c.Fail("build", "%v", err)
				}
			}
		} else {
			used = used.WithString("other" + delim + "12")
			if c.R.P(1, 2) {
				if _, err := used.Now(); err != nil {
					c.Fail("build", "%v", err)
				}
			}
		}
		if u, err := used.WithString(text).Now(); err != nil || u.Host() != host || u.Port() != port || u.String() != text {
			c.Fail("roundtrip", "%q is not read back by a used builder: %v", text, err)
		}
		// malformed
		ps := fmt.Sprint(c.R.N(70000))
		bads := []string{host, host + delim, delim + ps, host + delim + ps + delim + ps, host + delim + "-" + ps, host + delim + " " + ps, host + delim + ps + " ",
			host + delim + "x" + ps, host + delim + "0x1f", host + delim + "99999999999999999999999", host + delim + ps + ".0", delim, host + delim + delim + ps, host + delim + "1e3", host + delim + "1_000"}
		bad := Pick(c.R, bads)
		c.Put("bad", bad)
		c.Event("malformed_texts")
		if q, err := peers.NewPeerBuilder(delim).Create().WithString(bad).Now(); err == nil {
			c.Fail("malformed", "%q was read as host %q port %d", bad, q.Host(), q.Port())
		}
		c.Distinct(delim, text, bad)
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"text": text, "malformed": bad})
		}
	})
}
