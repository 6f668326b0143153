//go:build go1.21

package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"

	crypt "github.com/steve-care-software/steve/domain/cryptography"
	enc "github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/hashtree"
	"github.com/steve-care-software/steve/domain/peers"
	kyber "go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
)

var refCurve = edwards25519.NewBlakeSHA256Ed25519()

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "random passwords (0..5000 bytes, 0..80 most often) and messages (0..5000 bytes), both constructors; non-trivial: the message was encrypted twice, decrypted by an independent instance and by a wrong password",
		Assumptions: []string{"a wrong password is only required not to give the message back for messages of 16 bytes or more",
			"the cipher carries no authentication tag: altered texts are only required to be handled without crash"},
		Run: runC05,
	})
	register(&Check{
		ID:   "C06",
		Rule: "RSA keys of 1024..2048 bits, messages of every length up to the OAEP limit and beyond, altered and cross-key ciphers, codec round trips with interleaved keys; non-trivial: a message crossed encryption and decryption",
		Run:  runC06,
	})
	register(&Check{
		ID:   "C07",
		Rule: "random keys and messages (empty, long, containing separators, digits and non-ASCII bytes); each signature is decoded again, recovered against its message, other messages and other keys, and altered; non-trivial: all comparisons done",
		Run:  runC07,
	})
	register(&Check{
		ID:   "C08",
		Rule: "rings of 1..8 keys, at times up to 24 (repeated keys included), every signer position, random messages; each signature is checked against other messages and after altering each component through its textual form; non-trivial: at least one altered form was judged",
		Run:  runC08,
	})
	register(&Check{
		ID:   "C09",
		Rule: "ring signatures checked against lists of public key hashes: exact, permuted, truncated, extended, replaced, and with another message; non-trivial: a wrong list was judged",
		Run:  runC09,
	})
	register(&Check{
		ID:          "C10",
		Rule:        "valid textual forms of keys, signatures, ring signatures, ciphers, hashes and peers mutated at text level and at decoded level, plus random text; non-trivial: distinct hostile input that a decoder judged",
		Assumptions: []string{"a decoder may accept a mutated text, but then the value must be usable and must survive its own encoding"},
		Run:         runC10,
	})
	register(&Check{
		ID: "C16",
		Rule: "histories of 3..8 plain and ring signatures by one key over related messages (same message, message plus digit suffix, other rings of 1..12 keys, other positions); the monitor plays the key-recovery attack " +
			"with every pair of published equations and every published scalar; non-trivial: distinct history with at least two equations",
		Assumptions: []string{"only attacks that are linear in published scalars are played; the nonces, recomputed from the key, are also tested bit by bit for a bias"},
		Run:         runC16,
	})
	register(&Check{
		ID: "C18",
		Rule: "rings of 2..6 keys that all sign the same messages twice; everything published (scalars and the challenges anyone recomputes) must be new, must not be a digest, a number or the opposite of something published, " +
			"the ring must keep its order, and over thousands of signatures every bit must be as often set whatever the distance to the signer; non-trivial: distinct (ring, message)",
		Assumptions: []string{"a statistical or algebraic distinguisher other than the listed ones is not played", "a bias is reported from seven standard deviations on"},
		Run:         runC18,
	})
	register(&Check{
		ID: "C17", Race: true, Single: true,
		Rule: "8 goroutines share the adapters, keys, encryption instances, hash trees and parent builders under the race detector, and every result is compared with the sequential one; non-trivial: distinct (operation, goroutine, iteration) completed concurrently",
		Run:  runC17,
	})
}

func genMsg(r *Rng) string {
	switch r.N(7) {
	case 0:
		return ""
	case 1:
		return r.Str("0123456789", r.Range(1, 12))
	case 2:
		return r.Str("ab#|=\n\x00", r.Range(1, 20))
	case 3:
		return string(r.Bytes(r.Range(1, 200)))
	case 4:
		if r.P(1, 100) {
			return string(r.Bytes(r.Range(100000, 400000)))
		}
		if r.P(1, 20) {
			return r.Str("abcdef\n", Pick(r, []int{4095, 4096, 4097, 65535, 65536, 65537, 70000}))
		}
		return r.Str("abcdef ", r.Range(200, 3000))
	case 5:
		return "héé" + r.Str("àéxyz", 10)
	default:
		return r.Str("abcdefghijklmnopqrstuvwxyz ", r.Range(1, 60))
	}
}

func runC05(x *Ctx) {
	ivs := map[string]bool{}
	x.Each("roundtrip", x.Scale(40000, 600000), func(c *Case) {
		pass := c.R.Bytes(Pick(c.R, []int{c.R.N(80), c.R.N(80), c.R.N(80), c.R.N(300), c.R.N(5000)}))
		msg := c.R.Bytes(Pick(c.R, []int{0, 1, 15, 16, 17, c.R.N(100), c.R.N(5000)}))
		if c.R.P(1, 300) {
			msg = c.R.Bytes(Pick(c.R, []int{4095, 4096, 4097, 32768, 65519, 65520, 65521, 65535, 65536, 65537, c.R.N(200000)}))
		}
		c.Put("pass", hexs(pass))
		c.Put("msg", hexs(msg))
		keep := append([]byte{}, msg...)
		keepPass := append([]byte{}, pass...)
		mk := func(kind int, p []byte) (crypt.Encryption, error) {
			if kind == 0 {
				return crypt.NewEncryption(string(p)), nil
			}
			return crypt.NewBuilder().Create().WithPassword(p).Now()
		}
		a, err := mk(c.R.N(2), pass)
		if err != nil {
			c.Fail("build", "%v", err)
			return
		}
		b, err := mk(c.R.N(2), append([]byte{}, pass...))
		if err != nil {
			c.Fail("build", "%v", err)
			return
		}
		first, err := a.Encrypt(msg)
		if err != nil {
			c.Fail("encrypt", "%v", err)
			return
		}
		second, err := a.Encrypt(msg)
		if err != nil {
			c.Fail("encrypt", "%v", err)
			return
		}
		c.EventN("encryptions", 2)
		if !bytes.Equal(msg, keep) || !bytes.Equal(pass, keepPass) {
			c.Fail("mutated", "the message or the password was altered")
		}
		// the password buffer may be re-used by its owner
		for i := range pass {
			pass[i] ^= 0x5a
		}
		for i, text := range []string{first, second} {
			for _, e := range []crypt.Encryption{a, b} {
				got, err := e.Decrypt(text)
				c.Event("decryptions")
				if err != nil || !bytes.Equal(got, keep) {
					c.Fail("roundtrip", "text %d: decrypted %x (%v), expected %x", i, got, err, keep)
				}
			}
			raw, err := base64.StdEncoding.DecodeString(text)
			if err != nil || len(raw) < 16+len(keep) {
				c.Fail("form", "the encrypted text has %d bytes for a message of %d: %v", len(raw), len(keep), err)
				return
			}
			iv := string(raw[:16])
			if ivs[iv] {
				c.Fail("iv-reuse", "an initialization vector was used twice")
			}
			ivs[iv] = true
			if len(keep) >= 16 && bytes.Contains(raw, keep) {
				c.Fail("plaintext", "the encrypted text contains the message")
			}
		}
		if first == second {
			c.Fail("deterministic", "the same message was encrypted twice to the same text")
		}
		wrong := append([]byte{}, keepPass...)
		switch {
		case len(wrong) == 0 || c.R.P(1, 3):
			wrong = append(wrong, byte(c.R.N(256)))
		case c.R.P(1, 3):
			wrong = wrong[:len(wrong)-1]
		case c.R.P(1, 3):
			// one edit near an end
			wrong[(len(wrong)-1-c.R.N(3)+len(wrong))%len(wrong)] ^= 1 << uint(c.R.N(8))
		default:
			wrong[c.R.N(len(wrong))] ^= 1 << uint(c.R.N(8))
		}
		w, err := mk(c.R.N(2), wrong)
		if err != nil {
			c.Fail("build", "%v", err)
			return
		}
		got, err := w.Decrypt(first)
		c.Event("wrong_passwords")
		if len(keep) >= 16 && err == nil && bytes.Equal(got, keep) {
			c.Fail("wrong-password", "another password decrypts the message")
		}
		c.Distinct(hexs(keepPass), hexs(keep))
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"password": hexs(keepPass), "message_bytes": len(keep), "text": first})
		}
	})
	x.One("iv-bits", func(c *Case) {
		bits := [128]int{}
		drawn := x.Scale(6000, 60000)
		e := crypt.NewEncryption("a password")
		for i := 0; i < drawn; i++ {
			text, err := e.Encrypt([]byte("message"))
			if err != nil {
				c.Fail("encrypt", "%v", err)
				return
			}
			raw, err := base64.StdEncoding.DecodeString(text)
			if err != nil || len(raw) < 16 {
				c.Fail("form", "the encrypted text has %d bytes: %v", len(raw), err)
				return
			}
			for j := range bits {
				bits[j] += int(raw[j/8]>>uint(j%8)) & 1
			}
		}
		c.EventN("iv_bits", drawn*len(bits))
		for j, set := range bits {
			dev := float64(2*set - drawn)
			if dev*dev > 64*float64(drawn) {
				c.Fail("iv-bias", "bit %d of the initialization vectors was set %d times out of %d", j, set, drawn)
			}
		}
		c.Distinct("iv-bits", drawn)
	})
	x.Each("short", x.Scale(40000, 600000), func(c *Case) {
		e := crypt.NewEncryption("pass")
		raw := c.R.Bytes(c.R.N(16))
		text := base64.StdEncoding.EncodeToString(raw)
		c.Put("text", text)
		if got, err := e.Decrypt(text); err == nil {
			c.Fail("short-accepted", "a text of %d bytes was decrypted to %x", len(raw), got)
		}
		bad := text + Pick(c.R, []string{"*", "=", "%", "\x00"})
		if _, err := e.Decrypt(bad); err == nil {
			c.Fail("base64-accepted", "%q was decrypted", bad)
		}
		c.EventN("malformed", 2)
		c.Distinct(text)
	})
}

func runC06(x *Ctx) {
	adapter := enc.NewAdapter()
	pubAdapter := enc.NewPublickeyAdapter()
	newKey := func(r *Rng) (enc.PrivateKey, error) {
		return enc.NewFactory(Pick(r, []int{1024, 1024, 1536, 2048})).Create()
	}
	x.Each("keys", x.Scale(96, 1200), func(c *Case) {
		a, err := newKey(c.R)
		if err != nil {
			c.Fail("factory", "%v", err)
			return
		}
		b, err := newKey(c.R)
		if err != nil {
			c.Fail("factory", "%v", err)
			return
		}
		ka, kb := a.Key(), b.Key()
		c.Put("keyA", adapter.ToEncoded(a))
		c.Put("keyB", adapter.ToEncoded(b))
		if err := ka.Validate(); err != nil {
			c.Fail("invalid-key", "%v", err)
		}
		pa := a.Public().Key()
		if !pa.Equal(&ka.PublicKey) {
			c.Fail("public-key", "the public key is not the one of the private key")
		}
		max := ka.Size() - 66
		lens := []int{0, 1, max / 2, max - 1, max, c.R.N(max)}
		for _, n := range lens {
			msg := c.R.Bytes(n)
			switch c.R.N(4) {
			case 0: // zero bytes at its borders
				for i := 0; i < n && i < c.R.N(4); i++ {
					msg[i], msg[n-1-i] = 0, 0
				}
			case 1: // white spaces at its borders
				for i := 0; i < n && i < c.R.N(4); i++ {
					msg[i], msg[n-1-i] = ' ', '\n'
				}
			case 2:
				for i := range msg {
					msg[i] = Pick(c.R, []byte{0, 1, 0xff})
				}
			}
			keep := append([]byte{}, msg...)
			cipher, err := a.Public().Encrypt(msg)
			if err != nil {
				c.Fail("encrypt", "%d bytes: %v", n, err)
				continue
			}
			c.Event("encryptions")
			again, err := a.Public().Encrypt(msg)
			if err != nil || bytes.Equal(again, cipher) {
				c.Fail("deterministic", "two encryptions are equal (%v)", err)
			}
			got, err := a.Decrypt(cipher)
			c.Event("decryptions")
			if err != nil || !bytes.Equal(got, keep) || !bytes.Equal(msg, keep) {
				c.Fail("roundtrip", "%d bytes: got %x (%v), expected %x", n, got, err, keep)
			}
			if got, err := b.Decrypt(cipher); err == nil {
				c.Fail("cross-key", "another key decrypts to %x", got)
			}
			cipher[c.R.N(len(cipher))] ^= 1 << uint(c.R.N(8))
			if got, err := a.Decrypt(cipher); err == nil {
				c.Fail("tampered", "an altered cipher was decrypted to %x", got)
			}
			c.EventN("rejections", 2)
			c.Distinct(hexs(keep), n)
		}
		for _, extra := range []int{1, 2, 50} {
			if _, err := a.Public().Encrypt(c.R.Bytes(max + extra)); err == nil {
				c.Fail("too-long", "a message of %d bytes was encrypted (the maximum is %d)", max+extra, max)
			}
			c.Event("rejections")
		}

		// codecs, interleaved
		type pair struct {
			pk  enc.PrivateKey
			raw rsa.PrivateKey
		}
		decoded := []enc.PrivateKey{}
		origin := []pair{{a, ka}, {b, kb}, {a, ka}}
		for i, p := range origin {
			var d enc.PrivateKey
			var err error
			if i%2 == 0 {
				d, err = adapter.FromEncoded(adapter.ToEncoded(p.pk))
			} else {
				d, err = adapter.FromBytes(adapter.ToBytes(p.pk))
			}
			if err != nil {
				c.Fail("codec", "%v", err)
				return
			}
			decoded = append(decoded, d)
		}
		for i, p := range origin {
			k := decoded[i].Key()
			c.Event("codec_roundtrips")
			if !k.Equal(&p.raw) {
				c.Fail("codec-key", "decoded private key %d differs", i)
			}
			dp := decoded[i].Public().Key()
			if !dp.Equal(&p.raw.PublicKey) {
				c.Fail("codec-public", "public key of decoded private key %d differs", i)
			}
			cipher, err := p.pk.Public().Encrypt([]byte("hello"))
			if err != nil {
				c.Fail("encrypt", "%v", err)
				continue
			}
			if got, err := decoded[i].Decrypt(cipher); err != nil || string(got) != "hello" {
				c.Fail("codec-decrypt", "decoded key %d cannot decrypt: %v", i, err)
			}
			pub := p.pk.Public()
			var dpub enc.PublicKey
			if i%2 == 0 {
				dpub, err = pubAdapter.FromEncoded(pubAdapter.ToEncoded(pub))
			} else {
				dpub, err = pubAdapter.FromBytes(pubAdapter.ToBytes(pub))
			}
			if err != nil {
				c.Fail("codec-pub", "%v", err)
				continue
			}
			dk := dpub.Key()
			if !dk.Equal(&p.raw.PublicKey) {
				c.Fail("codec-pub-key", "decoded public key %d differs", i)
			}
			h, err := pubAdapter.ToHash(dpub)
			want := sha512.Sum512(x509.MarshalPKCS1PublicKey(&p.raw.PublicKey))
			if err != nil || [64]byte(*h) != want {
				c.Fail("pub-hash", "hash of public key %d: %v", i, err)
			}
			c.Event("key_hashes")
		}
		if c.Index < 1 {
			c.Sample(map[string]interface{}{"bits": ka.Size() * 8, "lengths": fmt.Sprint(lens)})
		}
	})
}

// ---------------------------------------------------------------- signatures

func decode64(s string) []string {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return nil
	}
	return strings.Split(string(b), "#")
}

func encode64(parts []string) string {
	return base64.StdEncoding.EncodeToString([]byte(strings.Join(parts, "#")))
}

func refScalar(str string) (kyber.Scalar, error) {
	b, err := hex.DecodeString(str)
	if err != nil {
		return nil, err
	}
	s := refCurve.Scalar()
	return s, s.UnmarshalBinary(b)
}

func refPoint(str string) (kyber.Point, error) {
	b, err := hex.DecodeString(str)
	if err != nil {
		return nil, err
	}
	p := refCurve.Point()
	return p, p.UnmarshalBinary(b)
}

func refChallenge(msg string, p kyber.Point) kyber.Scalar {
	h := refCurve.Hash()
	h.Write([]byte(msg + p.String()))
	return refCurve.Scalar().SetBytes(h.Sum(nil))
}

// otherMsg edits a message: what is easily taken for the same message is drawn as often as any other one.
func otherMsg(r *Rng, msg string) string {
	for {
		out := msg
		switch r.N(12) {
		case 0:
			out = msg + Pick(r, []string{"0", " ", "\x00", "a", "\n", "\t", "|", "#", "="})
		case 1:
			if len(msg) > 0 {
				out = msg[:len(msg)-1]
			}
		case 2:
			if len(msg) > 0 {
				b := []byte(msg)
				b[r.N(len(b))] ^= 1 << uint(r.N(8))
				out = string(b)
			}
		case 3:
			out = genMsg(r)
		case 4:
			out = Pick(r, []string{" ", "0", "\x00", "\n"}) + msg
		case 5:
			// the end only
			if len(msg) > 0 {
				b := []byte(msg)
				b[len(b)-1-r.N(1+len(b)/64)] ^= 1 << uint(r.N(8))
				out = string(b)
			}
		case 6:
			out = Pick(r, []func(string) string{strings.ToUpper, strings.ToLower, strings.TrimSpace, strings.Title})(msg)
		case 7:
			out = Pick(r, []func() string{
				func() string { return strings.ReplaceAll(msg, " ", "  ") },
				func() string { return strings.ReplaceAll(msg, "\n", "\r\n") },
				func() string { return strings.ReplaceAll(msg, " ", "") },
				func() string { return strings.ReplaceAll(msg, "\x00", "") },
				func() string { return strings.ReplaceAll(msg, "é", "e\u0301") },
				func() string { return strings.ToValidUTF8(msg, "\ufffd") },
			})()
		case 8:
			// two parts of it exchanged
			if n := len(msg); n > 1 {
				k := 1 + r.N(n-1)
				out = msg[k:] + msg[:k]
			}
		case 9:
			// a longer beginning
			if n := len(msg); n > 0 {
				out = msg[:r.N(n)]
			}
		case 10:
			out = msg + msg
		default:
			out = hexs([]byte(msg))
		}
		if out != msg {
			return out
		}
	}
}

func newKeyOf(r *Rng) (signature.PrivateKey, error) {
	x := refCurve.Scalar().SetBytes(append(r.Bytes(31), 1))
	return signature.NewPrivateKeyAdapter().ToPrivateKey(x.String())
}

func runC07(x *Ctx) {
	adapter := signature.NewAdapter()
	pubAdapter := signature.NewPublicKeyAdapter()
	pkAdapter := signature.NewPrivateKeyAdapter()
	x.Each("sign", x.Scale(9000, 120000), func(c *Case) {
		msg := genMsg(c.R)
		var pk signature.PrivateKey
		var err error
		if c.R.P(1, 4) {
			pk = signature.NewPrivateKeyFactory().Create()
		} else if pk, err = newKeyOf(c.R); err != nil {
			c.Fail("key", "%v", err)
			return
		}
		other, _ := newKeyOf(c.R)
		c.Put("msg", fmt.Sprintf("%q", msg))
		c.Put("key", pk.String())

		// keys
		pub := pk.PublicKey()
		xs, err := refScalar(pk.String())
		if err != nil {
			c.Fail("key-form", "%q: %v", pk.String(), err)
			return
		}
		if !refCurve.Point().Mul(xs, nil).Equal(pub.Point()) {
			c.Fail("public-key", "the public key is not the one of the private key")
		}
		backPK, err := pkAdapter.ToPrivateKey(pk.String())
		if err != nil || backPK.String() != pk.String() || !backPK.PublicKey().Equals(pub) {
			c.Fail("key-codec", "private key round trip: %v", err)
		}
		backPub, err := pubAdapter.ToPublicKey(pub.String())
		if err != nil || !backPub.Equals(pub) || backPub.String() != pub.String() || !pub.Equals(backPub) {
			c.Fail("pub-codec", "public key round trip: %v", err)
		}
		if pub.Equals(other.PublicKey()) || other.PublicKey().Equals(pub) || pub.String() == other.PublicKey().String() {
			c.Fail("pub-equal", "distinct public keys are equal")
		}
		c.Event("key_roundtrips")

		sig, err := pk.Sign(msg)
		if err != nil {
			c.Fail("sign", "%v", err)
			return
		}
		c.Event("signatures")
		if !sig.Verify() {
			c.Fail("verify", "a fresh signature does not verify")
		}
		decoded, err := adapter.ToSignature(sig.String())
		if err != nil || decoded.String() != sig.String() {
			c.Fail("codec", "signature round trip: %v", err)
			return
		}
		for i, s := range []signature.Signature{sig, decoded} {
			if !s.PublicKey(msg).Equals(pub) {
				c.Fail("recover", "the key recovered from signature (decoded: %v) is not the signer's", i == 1)
			}
			om := otherMsg(c.R, msg)
			c.Event("wrong_messages")
			if s.PublicKey(om).Equals(pub) {
				c.Put("other", fmt.Sprintf("%q", om))
				c.Fail("wrong-message", "the signer is recovered from another message")
			}
			if s.PublicKey(msg).Equals(other.PublicKey()) {
				c.Fail("wrong-key", "another signer is recovered")
			}
			if !s.Verify() {
				c.Fail("verify", "a signature does not verify")
			}
		}
		// a second signature by another key, and another message by the same key
		osig, err := other.Sign(msg)
		if err != nil {
			c.Fail("sign", "%v", err)
			return
		}
		if osig.String() == sig.String() || osig.PublicKey(msg).Equals(pub) || !osig.PublicKey(msg).Equals(other.PublicKey()) {
			c.Fail("other-signer", "the signature of another key recovers the wrong signer")
		}
		// altered forms
		parts := decode64(sig.String())
		if len(parts) == 2 {
			oparts := decode64(osig.String())
			alter := [][]string{{oparts[0], parts[1]}, {parts[0], oparts[1]}}
			if s, err := refScalar(parts[1]); err == nil {
				alter = append(alter, []string{parts[0], refCurve.Scalar().Add(s, refCurve.Scalar().One()).String()})
			}
			for i, a := range alter {
				t, err := adapter.ToSignature(encode64(a))
				c.Event("altered_signatures")
				if err == nil && t.PublicKey(msg).Equals(pub) {
					c.Fail("altered", "altered signature %d still recovers the signer", i)
				}
			}
		}
		c.Distinct(pk.String(), msg)
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"message": fmt.Sprintf("%q", cut(msg, 60)), "signature": sig.String()})
		}
	})
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type ringCase struct {
	keys  []signature.PrivateKey
	ring  []signature.PublicKey
	pos   int
	msg   string
	sig   signature.RingSignature
	owner signature.PrivateKey
}

func newRing(c *Case, max int) *ringCase {
	n := c.R.Range(1, max)
	if max > 6 && c.R.P(1, 20) {
		n = c.R.Range(max, 24)
	}
	out := &ringCase{msg: genMsg(c.R)}
	for i := 0; i < n; i++ {
		if i > 0 && c.R.P(1, 12) {
			out.keys = append(out.keys, out.keys[c.R.N(i)])
			continue
		}
		k, err := newKeyOf(c.R)
		if err != nil {
			c.Fail("key", "%v", err)
			return nil
		}
		out.keys = append(out.keys, k)
	}
	for _, k := range out.keys {
		out.ring = append(out.ring, k.PublicKey())
	}
	out.pos = c.R.N(n)
	out.owner = out.keys[out.pos]
	c.Put("ring", n)
	c.Put("position", out.pos)
	c.Put("msg", fmt.Sprintf("%q", out.msg))
	keep := append([]signature.PublicKey{}, out.ring...)
	sig, err := out.owner.RingSign(out.msg, out.ring)
	if err != nil {
		c.Fail("ring-sign", "%v", err)
		return nil
	}
	c.Event("ring_signatures")
	c.Put("signature", sig.String())
	for i := range keep {
		if out.ring[i] != keep[i] {
			c.Fail("ring-mutated", "the ring was altered by the signature")
		}
	}
	out.sig = sig
	return out
}

func runC08(x *Ctx) {
	adapter := signature.NewRingSignatureAdapter()
	x.Each("ring", x.Scale(2400, 30000), func(c *Case) {
		rc := newRing(c, 8)
		if rc == nil {
			return
		}
		msg, sig := rc.msg, rc.sig
		if !sig.Verify(msg) {
			c.Fail("complete", "a fresh ring signature does not verify")
		}
		decoded, err := adapter.ToSignature(sig.String())
		if err != nil || decoded.String() != sig.String() {
			c.Fail("codec", "round trip: %v", err)
			return
		}
		if !decoded.Verify(msg) {
			c.Fail("complete-decoded", "the decoded ring signature does not verify")
		}
		for _, s := range []signature.RingSignature{sig, decoded} {
			r := s.Ring()
			if len(r) != len(rc.ring) {
				c.Fail("ring-length", "the ring has %d keys, expected %d", len(r), len(rc.ring))
				return
			}
			for i := range r {
				if !r[i].Equals(rc.ring[i]) {
					c.Fail("ring-keys", "key %d of the ring differs", i)
				}
			}
			om := otherMsg(c.R, msg)
			c.Event("wrong_messages")
			if s.Verify(om) {
				c.Put("other", fmt.Sprintf("%q", om))
				c.Fail("wrong-message", "another message verifies")
			}
		}
		// every member may sign, an outsider may not
		outsider, _ := newKeyOf(c.R)
		if s, err := outsider.RingSign(msg, rc.ring); err == nil {
			c.Fail("outsider", "a key that is not in the ring signed: %v", s.Verify(msg))
		}
		if _, err := outsider.RingSign(msg, nil); err == nil {
			c.Fail("outsider-empty", "an empty ring was signed")
		}
		c.EventN("outsiders", 2)

		// altered forms
		parts := decode64(sig.String())
		if len(parts) != 3 {
			c.Fail("form", "the textual form has %d sections", len(parts))
			return
		}
		list := func(s string) []string { return strings.Split(strings.TrimSuffix(s, "|"), "|") }
		join := func(l []string) string {
			if len(l) == 0 {
				return ""
			}
			return strings.Join(l, "|") + "|"
		}
		P, S := list(parts[0]), list(parts[1])
		bump := func(str string) string {
			s, err := refScalar(str)
			if err != nil {
				return str
			}
			return refCurve.Scalar().Add(s, refCurve.Scalar().One()).String()
		}
		alter := func(kind int) (string, string) {
			p := append([]string{}, P...)
			s := append([]string{}, S...)
			e := parts[2]
			i := c.R.N(len(p))
			j := c.R.N(len(p))
			name := ""
			switch kind {
			case 0:
				name = "foreign-key"
				p[i] = outsider.PublicKey().String()
			case 1:
				name = "scalar"
				s[i] = bump(s[i])
			case 2:
				name = "challenge"
				e = bump(e)
			case 3:
				name = "swap-keys"
				if p[i] == p[j] {
					return "", ""
				}
				p[i], p[j] = p[j], p[i]
			case 4:
				name = "swap-scalars"
				if s[i] == s[j] {
					return "", ""
				}
				s[i], s[j] = s[j], s[i]
			case 5:
				name = "drop-key"
				p = append(p[:i], p[i+1:]...)
			case 6:
				name = "drop-scalar"
				s = append(s[:i], s[i+1:]...)
			case 7:
				name = "drop-member"
				p = append(p[:i], p[i+1:]...)
				s = append(s[:i], s[i+1:]...)
			case 8:
				name = "add-member"
				p = append(p, outsider.PublicKey().String())
				s = append(s, bump(s[i]))
			case 9:
				name = "add-scalar"
				s = append(s, s[i])
			case 10:
				name = "add-key"
				p = append(p, p[i])
			case 11:
				name = "empty"
				p, s = nil, nil
			case 12:
				name = "rotate"
				if len(p) < 2 {
					return "", ""
				}
				p = append(p[1:], p[0])
				s = append(s[1:], s[0])
			}
			return name, encode64([]string{join(p), join(s), e})
		}
		n := 0
		for kind := 0; kind <= 12; kind++ {
			name, text := alter(kind)
			if name == "" || text == sig.String() {
				continue
			}
			n++
			c.Event("altered_" + name)
			t, err := adapter.ToSignature(text)
			if err != nil {
				continue
			}
			ok := false
			if p := Guard(func() { ok = t.Verify(msg) }); p != "" {
				c.Put("altered", text)
				c.Fail("altered-panic:"+name, "verifying an altered signature (%s) panics: %s", name, p)
				continue
			}
			if ok {
				c.Put("altered", text)
				c.Fail("altered:"+name, "an altered ring signature (%s) verifies", name)
			}
		}
		if n > 0 {
			c.Distinct(sig.String())
		}
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"ring": len(rc.ring), "position": rc.pos, "message": fmt.Sprintf("%q", cut(msg, 40)), "altered_forms": n})
		}
	})
}

func runC09(x *Ctx) {
	adapter := signature.NewRingSignatureAdapter()
	x.Each("hashes", x.Scale(2400, 30000), func(c *Case) {
		rc := newRing(c, 7)
		if rc == nil {
			return
		}
		hashes := []hash.Hash{}
		for _, k := range rc.ring {
			b, _ := hex.DecodeString(k.String())
			hashes = append(hashes, hash.Hash(refHash(b)))
		}
		ask := func(sig signature.RingSignature, msg string, list []hash.Hash) bool {
			ok, err := adapter.ToVerification(sig, msg, list)
			if err != nil && ok {
				c.Fail("both", "true was returned together with an error")
			}
			return ok && err == nil
		}
		decoded, err := adapter.ToSignature(rc.sig.String())
		if err != nil {
			c.Fail("codec", "%v", err)
			return
		}
		for _, s := range []signature.RingSignature{rc.sig, decoded} {
			c.Event("exact_lists")
			if !ask(s, rc.msg, hashes) {
				c.Fail("exact", "the exact list of hashes is refused")
			}
		}
		n := 0
		for kind := 0; kind < 7; kind++ {
			list := append([]hash.Hash{}, hashes...)
			i, j := c.R.N(len(list)), c.R.N(len(list))
			msg := rc.msg
			name := ""
			switch kind {
			case 0:
				name = "permuted"
				if list[i] == list[j] {
					continue
				}
				list[i], list[j] = list[j], list[i]
			case 1:
				name = "truncated"
				list = list[:len(list)-1]
			case 2:
				name = "extended"
				list = append(list, list[i])
			case 3:
				name = "flipped"
				list[i][c.R.N(64)] ^= 1 << uint(c.R.N(8))
			case 4:
				name = "message"
				msg = otherMsg(c.R, msg)
			case 5:
				name = "foreign"
				k, _ := newKeyOf(c.R)
				b, _ := hex.DecodeString(k.PublicKey().String())
				list[i] = hash.Hash(refHash(b))
			case 6:
				name = "none"
				list = nil
			}
			n++
			c.Event("wrong_" + name)
			if ask(rc.sig, msg, list) {
				c.Fail("wrong:"+name, "a wrong list (%s) is accepted", name)
			}
		}
		if n > 0 {
			c.Distinct(rc.sig.String())
		}
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"ring": len(rc.ring), "wrong_lists": n})
		}
	})
}

// ---------------------------------------------------------------- hostile input

func mutateText(r *Rng, s string) string {
	b := []byte(s)
	for k := r.Range(1, 3); k > 0; k-- {
		if len(b) == 0 {
			b = r.Bytes(r.N(6))
			continue
		}
		i := r.N(len(b))
		switch r.N(7) {
		case 0:
			b[i] ^= 1 << uint(r.N(8))
		case 1:
			b = b[:i]
		case 2:
			b = append(b[:i:i], b[i+1:]...)
		case 3:
			b = append(b[:i:i], append(r.Bytes(r.Range(1, 4)), b[i:]...)...)
		case 4:
			b = append(b[:i:i], append([]byte(Pick(r, []string{"#", "|", "##", "||", "0", "=", ":", "-1", " "})), b[i:]...)...)
		case 5:
			j := r.N(len(b))
			b = append(append([]byte{}, b[j:]...), b[:j]...)
		default:
			b = append(b, b[i:]...)
		}
	}
	return string(b)
}

// mutate64 alters the decoded content of a base64 text
func mutate64(r *Rng, s string) string {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return mutateText(r, s)
	}
	return base64.StdEncoding.EncodeToString([]byte(mutateText(r, string(b))))
}

func runC10(x *Ctx) {
	sigAdapter := signature.NewAdapter()
	ringAdapter := signature.NewRingSignatureAdapter()
	pubAdapter := signature.NewPublicKeyAdapter()
	pkAdapter := signature.NewPrivateKeyAdapter()
	rsaAdapter := enc.NewAdapter()
	rsaPub := enc.NewPublickeyAdapter()
	hashAdapter := hash.NewAdapter()
	var once sync.Once
	var rsaText, rsaPubText string

	judge := func(c *Case, what string, input string, fn func() string) {
		c.Put("decoder", what)
		c.Put("input", fmt.Sprintf("%q", input))
		c.Event("judged_" + what)
		problem := ""
		if p := Guard(func() { problem = fn() }); p != "" {
			c.Fail("panic:"+what, "decoding %q panics: %s", cut(input, 200), p)
			return
		}
		if problem != "" {
			c.Fail("decoder:"+what, "decoding %q: %s", cut(input, 200), problem)
		}
		c.Distinct(what, input)
	}

	x.Each("text", x.Scale(60000, 600000), func(c *Case) {
		r := c.R
		twist := func(valid string, b64 bool) string {
			switch {
			case r.P(1, 12):
				return string(r.Bytes(r.N(80)))
			case b64 && r.P(3, 4):
				return mutate64(r, valid)
			default:
				return mutateText(r, valid)
			}
		}
		msg := genMsg(r)
		switch r.N(9) {
		case 0:
			k, _ := newKeyOf(r)
			s, err := k.Sign(msg)
			if err != nil {
				c.Fail("sign", "%v", err)
				return
			}
			in := twist(s.String(), true)
			judge(c, "signature", in, func() string {
				v, err := sigAdapter.ToSignature(in)
				if err != nil {
					return ""
				}
				c.Event("accepted_signature")
				v.PublicKey(msg)
				v.Verify()
				w, err := sigAdapter.ToSignature(v.String())
				if err != nil || w.String() != v.String() {
					return fmt.Sprintf("accepted, but its own form is not (%v)", err)
				}
				return ""
			})
		case 1, 2:
			rc := newRing(c, 3)
			if rc == nil {
				return
			}
			in := twist(rc.sig.String(), true)
			judge(c, "ring", in, func() string {
				v, err := ringAdapter.ToSignature(in)
				if err != nil {
					return ""
				}
				c.Event("accepted_ring")
				if len(v.Ring()) == 0 {
					return "a ring signature without ring was accepted"
				}
				v.Verify(rc.msg)
				if v.Verify(rc.msg+"x") && v.Verify(rc.msg+"y") {
					return "the accepted ring signature verifies any message"
				}
				_, _ = ringAdapter.ToVerification(v, rc.msg, make([]hash.Hash, len(v.Ring())))
				w, err := ringAdapter.ToSignature(v.String())
				if err != nil || w.String() != v.String() {
					return fmt.Sprintf("accepted, but its own form is not (%v)", err)
				}
				return ""
			})
		case 3:
			k, _ := newKeyOf(r)
			in := twist(k.PublicKey().String(), false)
			judge(c, "publickey", in, func() string {
				v, err := pubAdapter.ToPublicKey(in)
				if err != nil {
					return ""
				}
				c.Event("accepted_publickey")
				w, err := pubAdapter.ToPublicKey(v.String())
				if err != nil || !w.Equals(v) {
					return fmt.Sprintf("accepted, but its own form is not (%v)", err)
				}
				return ""
			})
		case 4:
			k, _ := newKeyOf(r)
			in := twist(k.String(), false)
			judge(c, "privatekey", in, func() string {
				v, err := pkAdapter.ToPrivateKey(in)
				if err != nil {
					return ""
				}
				c.Event("accepted_privatekey")
				w, err := pkAdapter.ToPrivateKey(v.String())
				if err != nil || w.String() != v.String() || !w.PublicKey().Equals(v.PublicKey()) {
					return fmt.Sprintf("accepted, but its own form is not (%v)", err)
				}
				return ""
			})
		case 5:
			once.Do(func() {
				k, err := enc.NewFactory(1024).Create()
				if err == nil {
					rsaText = rsaAdapter.ToEncoded(k)
					rsaPubText = rsaPub.ToEncoded(k.Public())
				}
			})
			if r.P(1, 2) {
				in := twist(rsaText, true)
				judge(c, "rsa-private", in, func() string {
					v, err := rsaAdapter.FromEncoded(in)
					if err != nil {
						return ""
					}
					c.Event("accepted_rsa-private")
					_, _ = v.Decrypt(r.Bytes(128))
					w, err := rsaAdapter.FromEncoded(rsaAdapter.ToEncoded(v))
					if err != nil {
						return fmt.Sprintf("accepted, but its own form is not (%v)", err)
					}
					a, b := v.Key(), w.Key()
					if !a.Equal(&b) {
						return "its own form gives another key"
					}
					return ""
				})
				return
			}
			in := twist(rsaPubText, true)
			judge(c, "rsa-public", in, func() string {
				v, err := rsaPub.FromEncoded(in)
				if err != nil {
					return ""
				}
				c.Event("accepted_rsa-public")
				_, _ = v.Encrypt([]byte("m"))
				w, err := rsaPub.FromEncoded(rsaPub.ToEncoded(v))
				if err != nil {
					return fmt.Sprintf("accepted, but its own form is not (%v)", err)
				}
				a, b := v.Key(), w.Key()
				if !a.Equal(&b) {
					return "its own form gives another key"
				}
				return ""
			})
		case 6:
			e := crypt.NewEncryption(r.Str("abc", 3))
			s, err := e.Encrypt([]byte(msg))
			if err != nil {
				c.Fail("encrypt", "%v", err)
				return
			}
			in := twist(s, true)
			judge(c, "cipher", in, func() string {
				_, err := e.Decrypt(in)
				if err == nil {
					c.Event("accepted_cipher")
				}
				return ""
			})
		case 7:
			in := twist(hexs(r.Bytes(64)), false)
			judge(c, "hash", in, func() string {
				v, err := hashAdapter.FromString(in)
				if err != nil {
					return ""
				}
				c.Event("accepted_hash")
				w, err := hashAdapter.FromString(v.String())
				if err != nil || *w != *v {
					return fmt.Sprintf("accepted, but its own form is not (%v)", err)
				}
				return ""
			})
		default:
			in := twist(fmt.Sprintf("%s:%d", r.Str("abc.", 6), r.N(70000)), false)
			judge(c, "peer", in, func() string {
				v, err := peers.NewPeerBuilder(":").Create().WithString(in).Now()
				if err != nil {
					return ""
				}
				c.Event("accepted_peer")
				w, err := peers.NewPeerBuilder(":").Create().WithString(v.String()).Now()
				if err != nil || w.Host() != v.Host() || w.Port() != v.Port() {
					return fmt.Sprintf("accepted, but its own form is not (%v)", err)
				}
				return ""
			})
		}
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"decoder": c.detail["decoder"], "input": cut(c.detail["input"], 160)})
		}
	})
}

// ---------------------------------------------------------------- key leakage

func runC16(x *Ctx) {
	runC16Bits(x)
	type eq struct {
		s, e kyber.Scalar
		from string
	}
	x.Each("history", x.Scale(2500, 40000), func(c *Case) {
		r := c.R
		pk, err := newKeyOf(r)
		if err != nil {
			c.Fail("key", "%v", err)
			return
		}
		others := []signature.PublicKey{}
		for i := 0; i < 5; i++ {
			k, _ := newKeyOf(r)
			others = append(others, k.PublicKey())
		}
		base := genMsg(r)
		related := func() string {
			switch r.N(4) {
			case 0:
				return base
			case 1:
				return fmt.Sprintf("%s%d", base, r.N(6))
			case 2:
				return otherMsg(r, base)
			default:
				return base
			}
		}
		eqs := []eq{}
		published := []eq{}
		log := []string{}
		n := r.Range(3, 8)
		for i := 0; i < n; i++ {
			msg := related()
			if r.P(1, 3) {
				sig, err := pk.Sign(msg)
				if err != nil {
					c.Fail("sign", "%v", err)
					return
				}
				parts := decode64(sig.String())
				if len(parts) != 2 {
					c.Fail("form", "%d sections", len(parts))
					return
				}
				R, err1 := refPoint(parts[0])
				s, err2 := refScalar(parts[1])
				if err1 != nil || err2 != nil {
					c.Fail("form", "%v %v", err1, err2)
					return
				}
				q := eq{s, refChallenge(msg, R), fmt.Sprintf("sign %q", cut(msg, 40))}
				eqs = append(eqs, q)
				published = append(published, q)
				log = append(log, q.from)
				continue
			}
			size := r.Range(1, 4)
			if r.P(1, 3) {
				size = r.Range(5, 12)
			}
			pos := r.N(size)
			ring := []signature.PublicKey{}
			for j := 0; j < size; j++ {
				ring = append(ring, others[r.N(len(others))])
			}
			ring[pos] = pk.PublicKey()
			sig, err := pk.RingSign(msg, ring)
			if err != nil {
				c.Fail("ring-sign", "%v", err)
				return
			}
			parts := decode64(sig.String())
			if len(parts) != 3 {
				c.Fail("form", "%d sections", len(parts))
				return
			}
			e, err := refScalar(parts[2])
			if err != nil {
				c.Fail("form", "%v", err)
				return
			}
			for j, str := range strings.Split(strings.TrimSuffix(parts[1], "|"), "|") {
				s, err := refScalar(str)
				if err != nil || j >= len(ring) {
					c.Fail("form", "%v", err)
					return
				}
				q := eq{s, e, fmt.Sprintf("ring-sign %q size %d position %d scalar %d", cut(msg, 40), size, pos, j)}
				if ring[j].Equals(pk.PublicKey()) {
					eqs = append(eqs, q)
				}
				published = append(published, q)
				published = append(published, eq{e, nil, "the challenge of " + q.from})
				added := refCurve.Point().Add(refCurve.Point().Mul(s, nil), refCurve.Point().Mul(e, ring[j].Point()))
				e = refChallenge(msg, added)
			}
			log = append(log, fmt.Sprintf("ring-sign %q size %d position %d", cut(msg, 40), size, pos))
		}
		c.Put("history", strings.Join(log, "; "))
		target := pk.PublicKey().Point()
		try := func(num, den kyber.Scalar, how string) {
			zero := refCurve.Scalar().Zero()
			if den.Equal(zero) {
				return
			}
			c.Event("recovery_attempts")
			cand := refCurve.Scalar().Div(num, den)
			if refCurve.Point().Mul(cand, nil).Equal(target) {
				c.Fail("key-recovered", "the private key was computed from published values: %s", how)
			}
		}
		// what anyone can compute
		for _, text := range []string{base, "", target.String(), base + target.String(), target.String() + base} {
			published = append(published, eq{refHashed(text), nil, fmt.Sprintf("the digest of %q", cut(text, 40))})
		}
		for i := int64(0); i < 4; i++ {
			published = append(published, eq{refCurve.Scalar().SetInt64(i), nil, fmt.Sprintf("the number %d", i)})
		}
		for i, a := range eqs {
			for j, b := range eqs {
				if i < j {
					// s = k - e x with opposite k
					try(refCurve.Scalar().Neg(refCurve.Scalar().Add(a.s, b.s)), refCurve.Scalar().Add(a.e, b.e), a.from+" / opposite of "+b.from)
					// s = k - e x with the same k
					try(refCurve.Scalar().Sub(a.s, b.s), refCurve.Scalar().Sub(b.e, a.e), a.from+" / "+b.from)
				}
			}
			for _, p := range published {
				// a published scalar is the nonce
				try(refCurve.Scalar().Sub(p.s, a.s), a.e, a.from+" / scalar of "+p.from)
			}
		}
		c.EventN("equations", len(eqs))
		if len(eqs) >= 2 {
			c.Distinct(strings.Join(log, ";"), pk.String())
		}
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"history": log})
		}
	})
}

// refHashed is the scalar of the digest of a text.
func refHashed(text string) kyber.Scalar {
	h := refCurve.Hash()
	h.Write([]byte(text))
	return refCurve.Scalar().SetBytes(h.Sum(nil))
}

// scalarBits counts the bits that are set in many scalars.
type scalarBits struct {
	n    int
	ones [251]int
}

func (b *scalarBits) add(s kyber.Scalar) {
	raw, _ := s.MarshalBinary()
	b.n++
	for i := range b.ones {
		if raw[i/8]>>uint(i%8)&1 == 1 {
			b.ones[i]++
		}
	}
}

// biased gives the first bit that is not as often set as it should, at seven standard deviations.
func (b *scalarBits) biased() (int, float64) {
	for i, v := range b.ones {
		z := (float64(v) - float64(b.n)/2) / math.Sqrt(float64(b.n)/4)
		if z > 7 || z < -7 {
			return i, z
		}
	}
	return -1, 0
}

// runC16Bits: the key is known here, so the nonces are: their bits must all be random.
func runC16Bits(x *Ctx) {
	for part := 0; part < 8; part++ {
		x.One(fmt.Sprintf("bits-%d", part), func(c *Case) {
			r := c.R
			bits := &scalarBits{}
			seen := map[string]bool{}
			pk, err := newKeyOf(r)
			if err != nil {
				c.Fail("key", "%v", err)
				return
			}
			secret, err := refScalar(pk.String())
			if err != nil {
				c.Fail("key", "%v", err)
				return
			}
			size := part%4 + 1
			pos := r.N(size)
			ring := []signature.PublicKey{}
			for j := 0; j < size; j++ {
				k, _ := newKeyOf(r)
				ring = append(ring, k.PublicKey())
			}
			ring[pos] = pk.PublicKey()
			amount := x.Scale(600, 4000)
			for i := 0; i < amount; i++ {
				msg := fmt.Sprintf("%s|%d", genMsg(r), i)
				var s, e kyber.Scalar
				if part < 4 {
					sig, err := pk.Sign(msg)
					if err != nil {
						c.Fail("sign", "%v", err)
						return
					}
					parts := decode64(sig.String())
					if len(parts) != 2 {
						c.Fail("form", "%d sections", len(parts))
						return
					}
					R, err := refPoint(parts[0])
					if err != nil {
						c.Fail("form", "%v", err)
						return
					}
					s, err = refScalar(parts[1])
					if err != nil {
						c.Fail("form", "%v", err)
						return
					}
					e = refChallenge(msg, R)
				} else {
					sig, err := pk.RingSign("one message", ring)
					if err != nil {
						c.Fail("ring-sign", "%v", err)
						return
					}
					ss, es, err := ringEquations(sig, "one message")
					if err != nil || len(ss) != size {
						c.Fail("form", "%v", err)
						return
					}
					s, e = ss[pos], es[pos]
				}
				nonce := refCurve.Scalar().Add(s, refCurve.Scalar().Mul(e, secret))
				if seen[nonce.String()] {
					c.Fail("nonce-twice", "a nonce was used twice")
				}
				seen[nonce.String()] = true
				bits.add(nonce)
				c.Event("nonces")
			}
			if bit, z := bits.biased(); bit >= 0 {
				c.Fail("nonce-bias", "the bit %d of %d nonces is %0.1f standard deviations away from even", bit, bits.n, z)
			}
			c.Distinct("bits", part, pk.String())
		})
	}
}

// ringEquations reads the scalars of a ring signature with their challenges.
func ringEquations(sig signature.RingSignature, msg string) ([]kyber.Scalar, []kyber.Scalar, error) {
	parts := decode64(sig.String())
	if len(parts) != 3 {
		return nil, nil, fmt.Errorf("%d sections", len(parts))
	}
	e, err := refScalar(parts[2])
	if err != nil {
		return nil, nil, err
	}
	points := strings.Split(strings.TrimSuffix(parts[0], "|"), "|")
	ss, es := []kyber.Scalar{}, []kyber.Scalar{}
	for j, str := range strings.Split(strings.TrimSuffix(parts[1], "|"), "|") {
		s, err := refScalar(str)
		if err != nil || j >= len(points) {
			return nil, nil, fmt.Errorf("scalar %d: %v", j, err)
		}
		p, err := refPoint(points[j])
		if err != nil {
			return nil, nil, err
		}
		ss, es = append(ss, s), append(es, e)
		added := refCurve.Point().Add(refCurve.Point().Mul(s, nil), refCurve.Point().Mul(e, p))
		e = refChallenge(msg, added)
	}
	return ss, es, nil
}

// runC18: every key of a ring is known here; all of them sign the same messages, and nothing published may tell which one did.
func runC18(x *Ctx) {
	x.Each("ring", x.Scale(1600, 24000), func(c *Case) {
		r := c.R
		size := r.Range(2, 6)
		keys := []signature.PrivateKey{}
		ring := []signature.PublicKey{}
		for i := 0; i < size; i++ {
			k, err := newKeyOf(r)
			if err != nil {
				c.Fail("key", "%v", err)
				return
			}
			keys = append(keys, k)
			ring = append(ring, k.PublicKey())
		}
		names := ""
		for _, p := range ring {
			names += p.String() + "|"
		}
		msg := genMsg(r)
		c.Put("msg", fmt.Sprintf("%q", msg))
		c.Put("size", size)
		known := map[string]string{}
		for i := int64(0); i < 16; i++ {
			known[refCurve.Scalar().SetInt64(i).String()] = fmt.Sprintf("the number %d", i)
		}
		guess := func(text string) {
			known[refHashed(text).String()] = fmt.Sprintf("the digest of %q", cut(text, 60))
		}
		guess(msg)
		guess("")
		guess(names)
		guess(msg + names)
		for i, p := range ring {
			guess(p.String())
			guess(msg + p.String())
			guess(p.String() + msg)
			guess(fmt.Sprintf("%s%d", msg, i))
		}
		for turn, amount := 0, 2*size; turn < amount; turn++ {
			signer := turn % size
			text := msg
			if turn >= size && r.P(1, 2) {
				text = otherMsg(r, msg)
			}
			sig, err := keys[signer].RingSign(text, ring)
			if err != nil {
				c.Fail("ring-sign", "%v", err)
				return
			}
			c.Event("ring_signatures")
			// the ring is shown in the order it was given
			order := ""
			for _, p := range sig.Ring() {
				order += p.String() + "|"
			}
			if order != names || decode64(sig.String())[0] != names {
				c.Fail("ring-order", "the ring of the signature made by the key %d is not the given one", signer)
			}
			ss, es, err := ringEquations(sig, text)
			if err != nil || len(ss) != size {
				c.Fail("form", "%d scalars: %v", len(ss), err)
				return
			}
			for j := range ss {
				for _, v := range []struct {
					s    kyber.Scalar
					what string
				}{{ss[j], "scalar"}, {es[j], "challenge"}} {
					name := v.s.String()
					here := fmt.Sprintf("the %s %d of the signature %d made by the key %d", v.what, j, turn, signer)
					if other, ok := known[name]; ok {
						c.Fail("told-apart", "%s is %s", here, other)
					}
					known[name] = here
					neg := refCurve.Scalar().Neg(v.s).String()
					if other, ok := known[neg]; ok {
						c.Fail("told-apart", "%s is the opposite of %s", here, other)
					}
					c.Event("published_scalars")
				}
			}
		}
		c.Distinct(names, msg)
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"ring": size, "message": cut(msg, 40), "signatures": 2 * size})
		}
	})
	for part := 0; part < 6; part++ {
		x.One(fmt.Sprintf("bits-%d", part), func(c *Case) {
			r := c.R
			size := part%3 + 2
			keys := []signature.PrivateKey{}
			ring := []signature.PublicKey{}
			for i := 0; i < size; i++ {
				k, _ := newKeyOf(r)
				keys = append(keys, k)
				ring = append(ring, k.PublicKey())
			}
			// the distance between the scalar and the signer
			bits := make([]scalarBits, size)
			first := make([]scalarBits, size)
			for i, amount := 0, x.Scale(900, 6000); i < amount; i++ {
				signer := i % size
				msg := "the same message"
				if part >= 3 {
					msg = fmt.Sprintf("message %d", i)
				}
				sig, err := keys[signer].RingSign(msg, ring)
				if err != nil {
					c.Fail("ring-sign", "%v", err)
					return
				}
				ss, es, err := ringEquations(sig, msg)
				if err != nil || len(ss) != size {
					c.Fail("form", "%v", err)
					return
				}
				for j := range ss {
					bits[(j-signer+size)%size].add(ss[j])
					first[(j-signer+size)%size].add(es[j])
					c.Event("published_scalars")
				}
				c.Event("ring_signatures")
			}
			for i := range bits {
				if bit, z := bits[i].biased(); bit >= 0 {
					c.Fail("biased", "the bit %d of the scalars %d after the signer's is %0.1f standard deviations away from even", bit, i, z)
				}
				if bit, z := first[i].biased(); bit >= 0 {
					c.Fail("biased", "the bit %d of the challenges %d after the signer's is %0.1f standard deviations away from even", bit, i, z)
				}
			}
			c.Distinct("bits", part, size)
		})
	}
}

// ---------------------------------------------------------------- concurrency

func runC17(x *Ctx) {
	x.Each("shared", x.Scale(4, 30), func(c *Case) {
		hashAdapter := hash.NewAdapter()
		sigAdapter := signature.NewAdapter()
		ringAdapter := signature.NewRingSignatureAdapter()
		pubAdapter := signature.NewPublicKeyAdapter()
		pkAdapter := signature.NewPrivateKeyAdapter()
		rsaAdapter := enc.NewAdapter()
		rsaPub := enc.NewPublickeyAdapter()
		encryption := crypt.NewEncryption("shared")
		treeBuilder := hashtree.NewBuilder()
		peerBuilder := peers.NewPeerBuilder(":")
		factory := signature.NewPrivateKeyFactory()
		pk, _ := newKeyOf(c.R)
		mate, _ := newKeyOf(c.R)
		blocks := genBlocks(c.R, 12)
		tree, err := hashtree.NewBuilder().Create().WithBlocks(cloneBlocks(blocks)).Now()
		if err != nil {
			c.Fail("tree", "%v", err)
			return
		}
		head, _ := refMerkle(blocks)
		rsaKeys := []enc.PrivateKey{}
		rsaTexts := []string{}
		for i := 0; i < 4; i++ {
			k, err := rsa.GenerateKey(rand.Reader, 1024)
			if err != nil {
				c.Fail("rsa", "%v", err)
				return
			}
			w, err := enc.NewBuilder().Create().WithPK(*k).Now()
			if err != nil {
				c.Fail("rsa", "%v", err)
				return
			}
			rsaKeys = append(rsaKeys, w)
			rsaTexts = append(rsaTexts, rsaAdapter.ToEncoded(w))
		}
		ringSig, err := pk.RingSign("shared", []signature.PublicKey{mate.PublicKey(), pk.PublicKey()})
		if err != nil {
			c.Fail("ring", "%v", err)
			return
		}
		plain, err := pk.Sign("shared")
		if err != nil {
			c.Fail("sign", "%v", err)
			return
		}
		// no lock of the harness is taken between two operations: it would order them
		do := func(r *Rng, op int) {
			if p := Guard(func() {
				switch op {
				case 0:
					b := genBlob(r)
					h, err := hashAdapter.FromMultiBytes(splitBlob(r, b))
					if err != nil || [64]byte(*h) != sha512.Sum512(b) {
						c.Fail("hash", "concurrent FromMultiBytes differs (%v)", err)
					}
					h2, err := hashAdapter.FromString(hexs(b))
					if err != nil || [64]byte(*h2) != refHash(b) {
						c.Fail("hash", "concurrent FromString differs (%v)", err)
					}
				case 1:
					m := genMsg(r)
					s, err := pk.Sign(m)
					if err != nil || !s.PublicKey(m).Equals(pk.PublicKey()) {
						c.Fail("sign", "concurrent signature differs (%v)", err)
						return
					}
					d, err := sigAdapter.ToSignature(s.String())
					if err != nil || !d.PublicKey(m).Equals(pk.PublicKey()) {
						c.Fail("sign-codec", "concurrent signature codec differs (%v)", err)
					}
				case 2:
					m := genMsg(r)
					ring := []signature.PublicKey{pk.PublicKey(), mate.PublicKey()}
					s, err := pk.RingSign(m, ring)
					if err != nil || !s.Verify(m) || s.Verify(m+"x") {
						c.Fail("ring", "concurrent ring signature differs (%v)", err)
						return
					}
					d, err := ringAdapter.ToSignature(s.String())
					if err != nil || !d.Verify(m) {
						c.Fail("ring-codec", "concurrent ring codec differs (%v)", err)
					}
				case 3:
					if !ringSig.Verify("shared") || ringSig.Verify("other") || !plain.Verify() || !plain.PublicKey("shared").Equals(pk.PublicKey()) {
						c.Fail("verify", "concurrent verification differs")
					}
					_ = ringSig.String() + plain.String()
				case 4:
					k := r.N(len(rsaKeys))
					d, err := rsaAdapter.FromEncoded(rsaTexts[k])
					if err != nil {
						c.Fail("rsa", "%v", err)
						return
					}
					a, b := d.Key(), rsaKeys[k].Key()
					if !a.Equal(&b) {
						c.Fail("rsa-key", "concurrent decoding gives another key")
					}
					dp := d.Public().Key()
					if !dp.Equal(&b.PublicKey) {
						c.Fail("rsa-pub", "concurrent decoding gives another public key")
					}
				case 5:
					k := r.N(len(rsaKeys))
					p, err := rsaPub.FromBytes(rsaPub.ToBytes(rsaKeys[k].Public()))
					if err != nil {
						c.Fail("rsa", "%v", err)
						return
					}
					a, b := p.Key(), rsaKeys[k].Key()
					if !a.Equal(&b.PublicKey) {
						c.Fail("rsa-pub", "concurrent decoding gives another public key")
					}
					cipher, err := p.Encrypt([]byte("x"))
					if err != nil {
						c.Fail("rsa", "%v", err)
						return
					}
					if got, err := rsaKeys[k].Decrypt(cipher); err != nil || string(got) != "x" {
						c.Fail("rsa-decrypt", "concurrent decryption differs (%v)", err)
					}
				case 6:
					m := r.Bytes(r.N(200))
					s, err := encryption.Encrypt(m)
					if err != nil {
						c.Fail("encrypt", "%v", err)
						return
					}
					got, err := encryption.Decrypt(s)
					if err != nil || !bytes.Equal(got, m) {
						c.Fail("decrypt", "concurrent decryption differs (%v)", err)
					}
				case 7:
					if [64]byte(tree.Head()) != head || tree.Compact().Length() != tree.Length() {
						c.Fail("tree", "concurrent observation of the tree differs")
					}
					got, err := tree.Order(cloneBlocks(blocks))
					if err != nil || !sameBlocks(got, blocks) {
						c.Fail("tree-order", "concurrent order differs (%v)", err)
					}
				case 8:
					bl := genBlocks(r, 6)
					t, err := treeBuilder.Create().WithBlocks(cloneBlocks(bl)).Now()
					h, _ := refMerkle(bl)
					if err != nil || [64]byte(t.Head()) != h {
						c.Fail("tree-build", "concurrent tree differs (%v)", err)
					}
				case 9:
					host := r.Str("abcdef", 5)
					port := uint(r.N(65536))
					p, err := peerBuilder.Create().WithString(fmt.Sprintf("%s:%d", host, port)).Now()
					if err != nil || p.Host() != host || p.Port() != port {
						c.Fail("peer", "concurrent peer differs (%v)", err)
					}
				default:
					k := factory.Create()
					b, err := pkAdapter.ToPrivateKey(k.String())
					if err != nil || b.String() != k.String() {
						c.Fail("key", "concurrent key differs (%v)", err)
						return
					}
					p, err := pubAdapter.ToPublicKey(k.PublicKey().String())
					if err != nil || !p.Equals(b.PublicKey()) {
						c.Fail("pub", "concurrent public key differs (%v)", err)
					}
				}
			}); p != "" {
				c.Fail("panic", "operation %d panics: %s", op, p)
			}
		}
		const ops = 11
		stage := func(iters int, pick func(r *Rng, i int) int) {
			start := make(chan struct{})
			var wg sync.WaitGroup
			var done [8][ops]int
			for g := 0; g < 8; g++ {
				wg.Add(1)
				seed := c.R.U64()
				go func(g int) {
					defer wg.Done()
					r := NewRng(seed, g)
					<-start
					for i := 0; i < iters; i++ {
						op := pick(r, i)
						do(r, op)
						done[g][op]++
					}
				}(g)
			}
			close(start)
			wg.Wait()
			for g := range done {
				for op, n := range done[g] {
					if n > 0 {
						c.EventN(fmt.Sprintf("concurrent_op_%d", op), n)
						c.Distinct(c.ID, g, op, n)
					}
				}
			}
		}
		iters := x.Scale(25, 60)
		stage(iters, func(r *Rng, i int) int { return r.N(ops) })
		// every operation against itself, then against another one
		for op := 0; op < ops; op++ {
			op := op
			heavy := op == 2 || op == 5
			n := 12
			if heavy {
				n = 3
			}
			stage(n, func(r *Rng, i int) int { return op })
			other := c.R.N(ops)
			stage(3, func(r *Rng, i int) int { return Pick(r, []int{op, other}) })
		}
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"goroutines": 8, "iterations": iters, "operations": 11})
		}
	})
	runC17Records(x)
}

// runC17Records has ledger records, keys, signatures and trees of which nothing was asked observed by many at once, who
// also build records of the same keys and signatures.
func runC17Records(x *Ctx) {
	all := append(append([]string{}, hashedKinds...), "origin", "identity", "idtrxs", "peer", "peers")
	x.Each("records", x.Scale(6, 60), func(c *Case) {
		r := c.R
		p := newPool(r)
		nodes := []*node{}
		things := []interface{}{}
		records := []interface{}{}
		for _, kind := range all {
			n := genNode(r, p, kind, 0)
			obj, err := n.build(r, nil)
			if err != nil {
				c.Fail("build:"+kind, "%v", err)
				return
			}
			nodes, records = append(nodes, n), append(records, obj)
		}
		blocks := genBlocks(r, 12)
		tree, err := hashtree.NewBuilder().Create().WithBlocks(cloneBlocks(blocks)).Now()
		if err != nil {
			c.Fail("tree", "%v", err)
			return
		}
		other, err := hashtree.NewBuilder().Create().WithBlocks(cloneBlocks(blocks)).Now()
		if err != nil {
			c.Fail("tree", "%v", err)
			return
		}
		things = append(things, tree, other.Compact(), other.Parent())
		for _, k := range p.pks {
			things = append(things, k, k.PublicKey())
		}
		for _, s := range p.sigs {
			things = append(things, s)
		}
		for _, s := range p.rsigs {
			things = append(things, s)
		}
		things = append(things, records...)
		if sig, err := signature.NewAdapter().ToSignature(p.sigs[0].String()); err == nil {
			things = append(things, sig)
		}
		if sig, err := signature.NewRingSignatureAdapter().ToSignature(p.rsigs[0].String()); err == nil {
			things = append(things, sig)
		}
		const workers = 8
		start := make(chan struct{})
		var wg sync.WaitGroup
		said := make([]map[string]string, workers)
		wrong := make([]string, workers)
		for g := 0; g < workers; g++ {
			wg.Add(1)
			seed := r.U64()
			said[g] = map[string]string{}
			go func(g int) {
				defer wg.Done()
				r := NewRng(seed, g)
				<-start
				if msg := Guard(func() {
					if g%2 == 0 {
						for i, one := range things {
							walk(reflect.ValueOf(one), fmt.Sprint(i), 3, r, said[g])
						}
					}
					for _, i := range r.Perm(len(nodes)) {
						if d := nodes[i].compare(records[i]); d != "" {
							wrong[g] = "a shared record: " + d
							return
						}
						again, err := nodes[i].build(r, nil)
						if err != nil {
							wrong[g] = "a record is refused: " + err.Error()
							return
						}
						if d := nodes[i].compare(again); d != "" {
							wrong[g] = "a record of its own: " + d
							return
						}
						if hasMethod(again, "Hash") && nodes[i].kind != "origin" && hashOf(again) != hashOf(records[i]) {
							wrong[g] = "the hash of a " + nodes[i].kind
							return
						}
					}
					if g%2 == 1 {
						for _, i := range r.Perm(len(things)) {
							walk(reflect.ValueOf(things[i]), fmt.Sprint(i), 3, r, said[g])
						}
					}
				}); msg != "" {
					wrong[g] = "panic: " + msg
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range said {
			if wrong[g] != "" {
				c.Fail("record", "with others, %s", wrong[g])
				return
			}
			for key, one := range said[0] {
				if got := said[g][key]; got != one {
					c.Fail("record", "with others, %s is %s for one and %s for another", key, one, got)
					return
				}
			}
		}
		c.EventN("concurrent answers of shared records, keys and trees", workers*len(said[0]))
		c.Distinct(c.ID, len(said[0]), len(nodes))
	})
}

// walk asks everything a thing and what it is made of can be asked without giving it anything.
func walk(v reflect.Value, path string, depth int, r *Rng, said map[string]string) {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
		said[path] = "nothing"
		return
	}
	t := v.Type()
	owner := t
	if t.Kind() == reflect.Ptr {
		owner = t.Elem()
	}
	if !strings.Contains(owner.PkgPath(), "steve") {
		switch v.Kind() {
		case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uint8:
			said[path] = fmt.Sprint(v.Interface())
		case reflect.Slice:
			if _, ok := v.Interface().([]byte); ok {
				said[path] = fmt.Sprint(v.Interface())
				return
			}
			said[path] = fmt.Sprint(v.Len())
			for i := 0; depth > 0 && i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth-1, r, said)
			}
		}
		return
	}
	if depth == 0 {
		return
	}
	for _, i := range r.Perm(t.NumMethod()) {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() < 1 || m.Name == "Create" || m.Name == "Now" {
			continue
		}
		var out reflect.Value
		if msg := Guard(func() { out = v.Method(i).Call(nil)[0] }); msg != "" {
			said[path+"."+m.Name] = "panic"
			continue
		}
		walk(out, path+"."+m.Name, depth-1, r, said)
	}
}
