#!/usr/bin/env python3
"""Writes the planted bugs of seeded/ (patch, demo, meta) from their descriptions."""
import sys
from seedlib import make

WANT = set(sys.argv[1:])


def bug(id, *a, **k):
    if not WANT or id in WANT:
        make(id, *a, **k)


HASH = '''package sha3

import (
	"bytes"
	"testing"
)

'''
bug('c03-reset-shortcut', 'C03', 'hash/sha3',
    [('hash/sha3/shake.go', '''func (c *cshakeState) Reset() {
''', '''func (c *cshakeState) Reset() {
	// nothing buffered and nothing squeezed: still in the initial state
	if c.idx == 0 && !c.isSquezing {
		return
	}
''')],
    HASH + '''func TestDemo(t *testing.T) {
	s := NewCShake128([]byte("N"), []byte("S"))
	s.Write(make([]byte, 2*168))
	s.Reset()
	s.Write([]byte("abc"))
	f := NewCShake128([]byte("N"), []byte("S"))
	f.Write([]byte("abc"))
	a, b := make([]byte, 32), make([]byte, 32)
	s.Read(a)
	f.Read(b)
	if !bytes.Equal(a, b) {
		t.Fatal("stale state after Reset")
	}
}
''', 'Reset of a cSHAKE object after absorbing a whole number of blocks', 'Reset keeps the absorbed data')

bug('c02-sum-spare', 'C02', 'hash/sha3',
    [('hash/sha3/sha3.go', 'in = append(in[:cap(in)], b...)', 'in = append(in, b...)')],
    HASH + '''func TestDemo(t *testing.T) {
	h := New512()
	h.Write([]byte("abc"))
	want := h.Sum(nil)
	in := make([]byte, 1, 40)
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	if got := h.Sum(in); !bytes.Equal(got[1:], want) {
		t.Fatal("wrong digest")
	}
}
''', 'Sum(in) where in has some spare capacity, but less than the digest', 'Sum panics instead of appending')

bug('c01-shake-lastblock', 'C01', 'hash/sha3',
    [('hash/sha3/sha3.go', '''	nblocks := len(out) / rate
	for nblocks > 0 {
		keccakF1600(&c.a)
		copyOut(c, out[:rate])
		out = out[rate:]
		nblocks--
	}
''', '''	nblocks := len(out) / rate
	for nblocks > 0 {
		keccakF1600(&c.a)
		copyOut(c, out[:rate])
		out = out[rate:]
		nblocks--
	}
	if len(out) == 0 {
		c.idx = rate
		return nread, nil
	}
''')],
    HASH + '''func TestDemo(t *testing.T) {
	a, b := NewShake128(), NewShake128()
	x, y := make([]byte, 1008+10), make([]byte, 1008+10)
	a.Read(x)
	b.Read(y[:168])
	b.Read(y[168 : 4*168])
	b.Read(y[4*168 : 4*168+9])
	b.Read(y[4*168+9:])
	if !bytes.Equal(x, y) {
		t.Fatal("split reads differ")
	}
}
''', 'a read that ends exactly at a block boundary after whole blocks, then another read', 'the next read repeats stale buffered bytes')

SM3 = '''package sm3

import (
	"bytes"
	"testing"
)

'''
bug('c05-shared-buffer', 'C05', 'hash/sm3',
    [('hash/sm3/sm3.go', '	b   [BlockSize]byte\n', '	b   []byte\n'),
     ('hash/sm3/sm3.go', '	d.len = 0\n', '	d.len = 0\n	if d.b == nil {\n		d.b = make([]byte, BlockSize)\n	}\n')],
    SM3 + '''func TestDemo(t *testing.T) {
	msg := make([]byte, 100)
	for i := range msg {
		msg[i] = byte(i + 1)
	}
	a, b := New(), New()
	a.Write(msg[:60])
	a.Sum(nil)
	a.Write(msg[60:])
	b.Write(msg)
	if !bytes.Equal(a.Sum(nil), b.Sum(nil)) {
		t.Fatal("Sum changed the state")
	}
}
''', 'Sum when 56..63 bytes are buffered, followed by Write', 'the context copy in Sum shares the block buffer')
bug('c04-len32', 'C04', 'hash/sm3',
    [('hash/sm3/sm3.go', 'd.len += uint64(len(input))', 'd.len = uint64(uint32(d.len) + uint32(len(input)))'),
     ('hash/sm3/sm3.go', 'store64Be(dc.b[56:], dc.len*8)', 'store64Be(dc.b[56:], uint64(uint32(dc.len)*8))')],
    SM3 + '''func TestDemo(t *testing.T) {
	h := New()
	blk := make([]byte, 1<<20)
	for i := 0; i < 512; i++ {
		h.Write(blk)
	}
	d := h.(*digest)
	dc := *d
	n := uint64(512) << 23
	pad := make([]byte, 64)
	pad[0] = 0x80
	store64Be(pad[56:], n)
	dc.compress(pad, 1)
	var want [32]byte
	for i := 0; i < 8; i++ {
		store32Be(want[4*i:], dc.h[i])
	}
	if !bytes.Equal(h.Sum(nil), want[:]) {
		t.Fatal("length field wrong")
	}
}
''', 'messages of 512 MiB and more', 'bit length is kept modulo 2^32')

DRBG = '''package drbg

import (
	"bytes"
	"testing"
)

'''
bug('c07-inc32', 'C07', 'drbg',
    [('drbg/ctr_drbg.go', 'for i := BlockLen - 1; i >= 0; i-- {', 'for i := BlockLen - 1; i >= BlockLen-4; i-- {')],
    DRBG + '''func TestDemo(t *testing.T) {
	c := NewCtrDrbg()
	c.Init(make([]byte, 48), nil)
	for i := range c.v {
		c.v[i] = 0xff
	}
	c.v[0] = 0
	c.v[15] = 0xfe
	c.inc()
	c.inc()
	want := [16]byte{1}
	if c.v != want {
		t.Fatalf("%x", c.v)
	}
	_ = bytes.Equal
}
''', 'V whose low 32 bits are all ones before an increment', 'the carry out of the low 32 bits is lost: wrong, and repeating, counter blocks')
bug('c06-empty-read', 'C06', 'drbg',
    [('drbg/ctr_drbg.go', '''	// TODO: check reseed_counter > reseed_interval
''', '''	// TODO: check reseed_counter > reseed_interval
	if len(out) == 0 {
		return 0, nil
	}
''')],
    DRBG + '''func TestDemo(t *testing.T) {
	a, b := NewCtrDrbg(), NewCtrDrbg()
	e := make([]byte, 48)
	a.Init(e, nil)
	b.Init(e, nil)
	a.ReadWithAdditionalData(nil, []byte("additional"))
	x, y := make([]byte, 32), make([]byte, 32)
	a.Read(x)
	b.Read(y)
	if bytes.Equal(x, y) {
		t.Fatal("additional input of an empty request was ignored")
	}
}
''', 'a generate request for zero bytes', 'the state is not updated by it')
bug('c06-ad-stale', 'C06', 'drbg',
    [('drbg/ctr_drbg.go', '''	tmpBlk     [3 * BlockLen]byte
''', '''	tmpBlk     [3 * BlockLen]byte
	adBuf      [SeedLen]byte
'''), ('drbg/ctr_drbg.go', '''func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
	var seedBuf [SeedLen]byte
''', '''func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
	seedBuf := &c.adBuf
	if len(ad) == 0 {
		*seedBuf = [SeedLen]byte{}
	}
''')],
    DRBG + '''func TestDemo(t *testing.T) {
	a, b := NewCtrDrbg(), NewCtrDrbg()
	e := make([]byte, 48)
	a.Init(e, nil)
	b.Init(e, nil)
	x, y := make([]byte, 32), make([]byte, 32)
	a.ReadWithAdditionalData(x, []byte("0123456789"))
	b.ReadWithAdditionalData(y, []byte("0123456789"))
	a.ReadWithAdditionalData(x, []byte("abc"))
	b.ReadWithAdditionalData(y, append([]byte("abc"), make([]byte, SeedLen-3)...))
	if !bytes.Equal(x, y) {
		t.Fatal("leftover additional input")
	}
}
''', 'two requests in a row with additional input, the second one shorter', 'bytes of the earlier additional input pad the later one')

AES = '''package aes

import (
	"bytes"
	"testing"
)

'''
bug('c08-no-clear', 'C08', 'drbg/internal/aes',
    [('drbg/internal/aes/cipher.go', '''	for i, _ := range c.dec {
		c.dec[i] = 0
	}
	c.keyLen = k
''', '''	for i, _ := range c.dec {
		c.dec[i] = 0
	}
	if c.keyLen < k {
		c.keyLen = k
	}
''')],
    AES + '''func TestDemo(t *testing.T) {
	a, b := new(AES), new(AES)
	a.SetKey(make([]byte, 32))
	a.SetKey(make([]byte, 16))
	b.SetKey(make([]byte, 16))
	x, y := make([]byte, 16), make([]byte, 16)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	a.Encrypt(x, x)
	b.Encrypt(y, y)
	if !bytes.Equal(x, y) {
		t.Fatal("wrong after re-keying")
	}
}
''', 'a cipher object re-keyed with a shorter key', 'number of rounds of the longer key is kept')

SIDH = '''package sidh

import (
	"bytes"
	"testing"
	"crypto/rand"
)

var _ = bytes.Equal
var _ = rand.Reader

'''
bug('c11-import-s', 'C11', 'dh/sidh',
    [('dh/sidh/sidh.go', '	copy(prv.S, input[:len(prv.S)])\n', '	if prv.S != nil {\n		prv.S = input[:len(prv.S):len(prv.S)]\n	}\n')],
    SIDH + '''func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp503, KeyVariantSike)
	b := make([]byte, k.Size())
	for i := range b {
		b[i] = byte(i)
	}
	w := append([]byte(nil), b...)
	k.Import(b)
	for i := range b {
		b[i] = 0xee
	}
	o := make([]byte, k.Size())
	k.Export(o)
	if !bytes.Equal(o, w) {
		t.Fatal("key changed with the caller's buffer")
	}
}
''', 'the imported buffer is reused by the caller (or another key is generated into the same object)', 'S aliases the buffer passed to Import')
bug('c14-rng-partial', 'C14', 'dh/sidh',
    [('dh/sidh/sike.go', '''	// Generate ephemeral value
	_, err := io.ReadFull(c.rng, c.msg[:])
	if err != nil {
		return err
	}
''', '''	// Generate ephemeral value
	n, err := io.ReadFull(c.rng, c.msg[:])
	if err != nil && n == 0 {
		return err
	}
''')],
    SIDH + '''func TestDemo(t *testing.T) {
	k, p := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	e := NewSike503(bytes.NewReader(make([]byte, 5)))
	ct, ss := make([]byte, e.CiphertextSize()), make([]byte, e.SharedSecretSize())
	if e.Encapsulate(ct, ss, p) == nil {
		t.Fatal("no error from a short RNG")
	}
}
''', 'an RNG that fails after delivering part of the message', 'Encapsulate succeeds with a partly predictable message')
bug('c14-compare-part', 'C14', 'dh/sidh',
    [('dh/sidh/sike.go', 'mask := subtle.ConstantTimeCompare(pkBytes[:c.params.PublicKeySize], ciphertext[:pub.Params.PublicKeySize])',
      'mask := subtle.ConstantTimeCompare(pkBytes[:2*c.params.SharedSecretSize], ciphertext[:2*c.params.SharedSecretSize])')],
    SIDH + '''func TestDemo(t *testing.T) {
	k, p := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	e := NewSike503(rand.Reader)
	n := e.CiphertextSize()
	ct, ss, s1, s2 := make([]byte, n), make([]byte, 24), make([]byte, 24), make([]byte, 24)
	e.Encapsulate(ct, ss, p)
	// adding p to the last coordinate keeps its value: the ciphertext is a different encoding
	// of the same point and must be rejected
	P := @P@
	c := 0
	for i := range P {
		c += int(ct[5*63+i]) + int(P[i])
		ct[5*63+i] = byte(c)
		c >>= 8
	}
	e.Decapsulate(s1, k, p, ct)
	k2 := NewPrivateKey(Fp503, KeyVariantSike)
	b := make([]byte, k.Size())
	k.Export(b)
	b[0] ^= 1
	k2.Import(b)
	e.Decapsulate(s2, k2, p, ct)
	if bytes.Equal(s1, s2) {
		t.Fatal("not the rejection secret (does not depend on S)")
	}
}
'''.replace('@P@', '[]byte{' + ', '.join(str(b) for b in (2**250 * 3**159 - 1).to_bytes(63, 'little')) + '}'),
    'a ciphertext that differs only in the encoding of its last coordinate', 're-encryption check ignores part of the ciphertext')
bug('c12-pubgen-variant', 'C12', 'dh/sidh',
    [('dh/sidh/sidh.go', '	if (pub.KeyVariant != prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {', '	if (pub.KeyVariant&KeyVariantSidhA) != (prv.KeyVariant&KeyVariantSidhA) || (pub.Params.ID != prv.Params.ID) {')],
    SIDH + '''func TestDemo(t *testing.T) {
	k, p := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSidhB)
	k.Generate(rand.Reader)
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	k.GeneratePublicKey(p)
}
''', 'public key object of variant SidhB for a SIKE private key', 'incompatible key is filled in')
bug('c10-ladder-bits', 'C10', 'dh/sidh',
    [('dh/sidh/internal/p503/curve.go', '''	for i := uint(0); i < nbits; i++ {
		bit := (scalar[i>>3] >> (i & 7) & 1)
''', '''	// leading zero bits of the scalar leave R1 alone
	for nbits > 128 && scalar[(nbits-1)>>3] == 0 && scalar[(nbits-1)>>3-1] == 0 {
		nbits -= 16
	}
	for i := uint(0); i < nbits; i++ {
		bit := (scalar[i>>3] >> (i & 7) & 1)
''')],
    SIDH + '''func TestDemo(t *testing.T) {
	k := NewPrivateKey(Fp503, KeyVariantSidhB)
	sc := make([]byte, k.Size())
	for i := 0; i < 30; i++ {
		sc[i] = byte(37*i + 1)
	}
	sc[29] = 0xf5
	k.Import(sc)
	pk := NewPublicKey(Fp503, KeyVariantSidhB)
	x, y := make([]byte, pk.Size()), make([]byte, pk.Size())
	k.GeneratePublicKey(pk)
	pk.Export(x)
	sc[29] = 0x05
	k.Import(sc)
	k.GeneratePublicKey(pk)
	pk.Export(y)
	if bytes.Equal(x, y) {
		t.Fatal("two keys, one public key")
	}
}
''', 'imported private key with zero high bytes and a bit below the trimmed ones', 'scalar loses bits')

CS = '''package csidh

import (
	"bytes"
	"io"
	"math/rand"
	"testing"
)

var _ = bytes.Equal
var _ io.Reader
var _ = rand.Int

'''
bug('c16-nibble-sign', 'C16', 'dh/csidh',
    [('dh/csidh/csidh.go', 't := (prv.e[uint(i)>>1] << ((uint(i) % 2) * 4)) >> 4',
      """t := (prv.e[uint(i)>>1] >> (4 - (uint(i)%2)*4)) & 0xF
		if t > 8 {
			t -= 16
		}""")],
    CS + '''func TestDemo(t *testing.T) {
	// [l]^-8 followed by [l]^8 is the identity
	var a, b PrivateKey
	var pub PublicKey
	k := make([]byte, PrivateKeySize)
	k[36] = 0x08
	a.Import(k)
	k[36] = 0x07
	b.Import(k)
	GeneratePublicKey(&pub, &a, rand.New(rand.NewSource(1)))
	groupAction(&pub, &b, rand.New(rand.NewSource(2)))
	k[36] = 0x01
	b.Import(k)
	groupAction(&pub, &b, rand.New(rand.NewSource(3)))
	if !pub.a.isZero() {
		t.Fatal("not the identity")
	}
}
''', 'an imported private key with the exponent -8', 'the exponent -8 acts as +8')

bug('c16-stale-target', 'C16', 'dh/csidh',
    [('dh/csidh/csidh.go', """	for i := range pub.a {
		pub.a[i] = 0
	}
	groupAction""", """	for i := range pub.wbuf {
		pub.wbuf[i] = 0
	}
	groupAction""")],
    CS + '''func TestDemo(t *testing.T) {
	var a, b PrivateKey
	var pub, fresh PublicKey
	k := make([]byte, PrivateKeySize)
	k[36] = 0x01
	a.Import(k)
	k[36] = 0x10
	b.Import(k)
	GeneratePublicKey(&pub, &a, rand.New(rand.NewSource(1)))
	GeneratePublicKey(&pub, &b, rand.New(rand.NewSource(1)))
	GeneratePublicKey(&fresh, &b, rand.New(rand.NewSource(1)))
	if pub.a != fresh.a {
		t.Fatal("public key depends on the previous value")
	}
}
''', 'generating a public key into an object that already holds one', 'the action starts from the old curve')

bug('c17-small-order', 'C17', 'dh/csidh',
    [('dh/csidh/csidh.go', """			if isLess(&fourSqrtP, order) {
				// order > 4*sqrt(p) -> supersingular curve
				return true, true
			}""", """			// points of order l are frequent for the small primes only
			if isLess(&fourSqrtP, order) || primes[halfL] > 300 {
				// order > 4*sqrt(p) -> supersingular curve
				return true, true
			}""")],
    CS + '''func TestDemo(t *testing.T) {
	// a curve with a point of order 5 * 307 ... is expensive to find: the twist of a
	// supersingular curve is supersingular, so use the function itself on a point of order 307
	// and require that it stays undecided
	var P point
	var order = fp{1}
	P.x, P.z = fp{}, one
	rng := rand.New(rand.NewSource(5))
	var s fpRngGen
	A := coeff{c: one}
	for {
		s.randFp(&P.x, rng)
		P.z = one
		k := fp{4}
		for _, l := range primes {
			if l != 307 {
				mul512(&k, &k, l)
			}
		}
		xMul(&P, &P, &A, &k)
		if !P.z.isZero() {
			break
		}
	}
	if done, _ := cofactorMul(&P, &A, 0, len(primes), &order); done {
		t.Fatal("decided by a point of order 307")
	}
}
''', 'an ordinary curve and a random point whose order is a small multiple of a prime above 300', 'validation decides "supersingular" from a point of small order')

bug('c17-unreduced', 'C17', 'dh/csidh',
    [('dh/csidh/csidh.go', """	// Check if in range
	if !isLess(&pub.a, &p) {
		return false
	}
""", """	// Check if in range (511 bits)
	a := pub.a
	a[numWords-1] &= uint64(1<<(pbits%limbBitSize)) - 1
	if !isLess(&a, &p) {
		return false
	}
""")],
    CS.replace('"io"', '"io"\n\t"math/bits"') + '''func TestDemo(t *testing.T) {
	// a valid key plus p, above 2^511
	var prv PrivateKey
	var pub PublicKey
	r := rand.New(rand.NewSource(4))
	for {
		GeneratePrivateKey(&prv, r)
		GeneratePublicKey(&pub, &prv, r)
		var c uint64
		for i := range pub.a {
			pub.a[i], c = bits.Add64(pub.a[i], p[i], c)
		}
		if pub.a[numWords-1]>>63 == 1 {
			break
		}
	}
	if Validate(&pub, r) {
		t.Fatal("unreduced key accepted")
	}
}
''', 'a public key that is a valid one plus p, with bit 511 set', 'unreduced encodings are accepted')

bug('c18-short-read', 'C18', 'dh/csidh',
    [('dh/csidh/csidh.go', """	for i := 0; i < len(primes); {
		_, err := io.ReadFull(rng, key.wbuf[:])
		if err != nil {
			return err
		}
""", """	for i := 0; i < len(primes); {
		n, err := rng.Read(key.wbuf[:])
		if err != nil && n == 0 {
			return err
		}
""")],
    CS + '''type slow struct{ r io.Reader }

func (s slow) Read(p []byte) (int, error) { return io.LimitReader(s.r, 7).Read(p) }

func TestDemo(t *testing.T) {
	src := make([]byte, 64*40)
	rand.New(rand.NewSource(9)).Read(src)
	var a, b PrivateKey
	if GeneratePrivateKey(&a, bytes.NewReader(src)) != nil || GeneratePrivateKey(&b, slow{bytes.NewReader(src)}) != nil {
		t.Fatal("error")
	}
	if a.e != b.e {
		t.Fatal("key depends on how the reader returns its bytes")
	}
}
''', 'a random source that returns short reads', 'the unfilled part of the buffer is used as randomness')

PKE = '''package mkem

import (
	"testing"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"
)

func demoPair(rng *drbg.CtrDrbg) (*csidh.PublicKey, *csidh.PrivateKey) {
	var pk csidh.PublicKey
	var sk csidh.PrivateKey
	csidh.GeneratePrivateKey(&sk, rng)
	csidh.GeneratePublicKey(&pk, &sk, rng)
	return &pk, &sk
}

'''
bug('c20-mask-memo', 'C20', 'kem/mkem',
    [('kem/mkem/csidh.go', '''	Rng *drbg.CtrDrbg
	H   sha3.ShakeHash
''', '''	Rng *drbg.CtrDrbg
	H   sha3.ShakeHash
	// last key and ciphertext curve Dec was called with, and the mask they gave
	sk   *csidh.PrivateKey
	u    [64]byte
	mask [16]byte
'''),
     ('kem/mkem/csidh.go', '''	var ss [64]byte
	var pk csidh.PublicKey

	pk.Import(ct.U[:])
''', '''	var ss [64]byte
	var pk csidh.PublicKey

	if c.sk == sk && c.u == ct.U {
		// the action is expensive, the pad for this curve is known
		for i := 0; i < 16; i++ {
			pt[i] = ct.V[i] ^ c.mask[i]
		}
		return
	}

	pk.Import(ct.U[:])
'''),
     ('kem/mkem/csidh.go', '''		pt[i] = ct.V[i] ^ ss[i]
	}
''', '''		pt[i] = ct.V[i] ^ ss[i]
	}
	copy(c.mask[:], ss[:16])
	c.u, c.sk = ct.U, sk
''')],
    PKE + '''func TestDemo(t *testing.T) {
	rng := drbg.NewCtrDrbg()
	rng.Init(make([]byte, 48), nil)
	var m MultiPKE
	m.Allocate(2, rng)
	pk1, sk1 := demoPair(rng)
	pk2, sk2 := demoPair(rng)
	pt := [16]byte{1, 2, 3}
	m.Encrypt([]csidh.PublicKey{*pk1, *pk2}, &pt)
	var s PKE
	s.Allocate(rng)
	var sk csidh.PrivateKey
	for i, k := range []*csidh.PrivateKey{sk1, sk2} {
		b := make([]byte, csidh.PrivateKeySize)
		k.Export(b)
		sk.Import(b)
		ct := ciphertext{m.Ct0, m.Cts[i]}
		if s.Dec(&sk, &ct) != pt {
			t.Fatal("wrong plaintext")
		}
	}
}
''', 'another key is imported into the key object between two decryptions of ciphertexts with the same ephemeral key', 'the second decryption uses the pad of the first key')

bug('c20-ephemeral-kept', 'C20', 'kem/mkem',
    [('kem/mkem/csidh.go', """	// stores list of ciphertexts ct[i]
""", """	// ephemeral key and whether it is there
	eph   csidh.PrivateKey
	ready bool
	// stores list of ciphertexts ct[i]
"""),
     ('kem/mkem/csidh.go', """	var skA csidh.PrivateKey

	csidh.GeneratePrivateKey(&skA, c.Rng)
	for i, pk""", """
	if !c.ready || len(keys) == 0 {
		csidh.GeneratePrivateKey(&c.eph, c.Rng)
		c.ready = true
	}
	skA := c.eph
	for i, pk""")],
    PKE + '''func TestDemo(t *testing.T) {
	rng := drbg.NewCtrDrbg()
	rng.Init(make([]byte, 48), nil)
	var m MultiPKE
	m.Allocate(1, rng)
	pk, _ := demoPair(rng)
	pt := [16]byte{1, 2, 3}
	m.Encrypt([]csidh.PublicKey{*pk}, &pt)
	c := m.Ct0
	m.Encrypt([]csidh.PublicKey{*pk}, &pt)
	if c == m.Ct0 {
		t.Fatal("the ephemeral key of the first encryption was used again")
	}
}
''', 'two multi-recipient encryptions with the same object', 'the ephemeral key depends on the earlier call: equal plaintexts give equal ciphertexts')

bug('c23-msg-shared', 'C23', 'dh/sidh',
    [('dh/sidh/sike.go', """// SIKE KEM interface.
""", """// The ephemeral message only lives as long as a call of Encapsulate.
var msgBuf [common.MaxMsgBsz]byte

// SIKE KEM interface.
"""),
     ('dh/sidh/sike.go', 'c.msg = make([]byte, c.params.MsgLen)', 'c.msg = msgBuf[:c.params.MsgLen]')],
    '''package sidh

import (
	"bytes"
	"crypto/rand"
	"testing"
)

// gives its bytes in two pieces and lets something else happen in between
type slow struct {
	n int
	f func()
}

func (s *slow) Read(p []byte) (int, error) {
	s.n++
	if s.n == 1 && len(p) > 5 {
		p = p[:5]
	} else if s.n == 2 {
		s.f()
	}
	for i := range p {
		p[i] = 7
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	prv := NewPrivateKey(Fp503, KeyVariantSike)
	pub := NewPublicKey(Fp503, KeyVariantSike)
	prv.Generate(rand.Reader)
	prv.GeneratePublicKey(pub)
	run := func(f func()) []byte {
		k := NewSike503(&slow{0, f})
		ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
		if k.Encapsulate(ct, ss, pub) != nil {
			t.Fatal("error")
		}
		return append(ct, ss...)
	}
	alone := run(func() {})
	busy := run(func() {
		done := make(chan bool)
		go func() {
			k := NewSike503(rand.Reader)
			k.Encapsulate(make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize()), pub)
			done <- true
		}()
		<-done
	})
	if !bytes.Equal(alone, busy) {
		t.Fatal("an encapsulation of another object changed the result")
	}
}
''', 'two KEM objects used concurrently, one encapsulating while the other reads its random message', 'the message buffer is shared by all KEM objects')

bug('c23-params-memo', 'C23', 'dh/sidh/common',
    [('dh/sidh/common/params.go', """// Params returns domain""", """// Most programs use one field: parameters that were looked up last.
var lastID uint8
var last *SidhParams

// Params returns domain"""),
     ('dh/sidh/common/params.go', """	if val, ok := sidhParams[id]; ok {
		return &val""", """	if last != nil && lastID == id {
		return last
	}
	if val, ok := sidhParams[id]; ok {
		last, lastID = &val, id
		return &val""")],
    '''package common

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var ids [4]uint8
	for i := range ids {
		ids[i] = uint8(200 + i)
		Register(ids[i], &SidhParams{ID: ids[i]})
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(id uint8) {
			defer wg.Done()
			for j := 0; j < 300000; j++ {
				if Params(id).ID != id {
					t.Error("parameters of another field")
					return
				}
			}
		}(ids[i%4])
	}
	wg.Wait()
}
''', 'keys of two fields made at the same time', 'a data race on the remembered parameters: a key gets those of another field', flags='-race')

bug('c23-sum-output', 'C23', 'hash/sm3',
    [('hash/sm3/sm3.go', """func (d *digest) Sum(in []byte) []byte {
	var output [32]byte

	// Copy context so that caller can keep updating
	dc := *d
""", """// copy of a context that is being finished
var last digest

func (d *digest) Sum(in []byte) []byte {
	var output [32]byte

	// Copy context so that caller can keep updating
	dc := &last
	*dc = *d
""")],
    '''package sm3

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var first []byte
			for j := 0; j < 100000; j++ {
				h := New()
				fmt.Fprint(h, i)
				s := h.Sum(nil)
				if first == nil {
					first = append(first, s...)
				}
				if !bytes.Equal(s, first) {
					t.Error("digest changed")
					return
				}
			}
		}(i)
	}
	wg.Wait()
}
''', 'two objects summed at the same time', 'the digest of one object is returned for another', flags='-race')

bug('c09-cpuid-bits', 'C09', 'utils',
    [('utils/cpuid_amd64.go', '	X86.HasADX = bitn(ebx, 19)\n	X86.HasRDSEED = bitn(ebx, 18)', '	X86.HasADX = bitn(ebx, 18)\n	X86.HasRDSEED = bitn(ebx, 19)')],
    '''package utils

import "testing"

// the processor is simulated: it has BMI2 and RDSEED, but no ADX
func TestDemo(t *testing.T) {
	if X86.HasADX {
		t.Fatal("ADX reported, the processor does not have it")
	}
	if !X86.HasRDSEED || !X86.HasBMI2 {
		t.Fatal("feature not reported")
	}
}
''', 'a processor that has RDSEED but not ADX, or ADX but not RDSEED', 'ADX reported on processors without it',
    over={'utils/cpuid_amd64.s': '''// +build amd64,!noasm

#include "textflag.h"

TEXT ·cpuid(SB), NOSPLIT, $0-24
    MOVL $7, eax+8(FP)
    MOVL $0x40100, ebx+12(FP)
    MOVL $0x2000000, ecx+16(FP)
    MOVL $0, edx+20(FP)
    RET
'''})

bug('c09-mulgeneric-carry', 'C09', 'dh/csidh',
    [('dh/csidh/fp511.go', '	_, c = bits.Add64(t1[0], s[0], 0)\n	r[0], c', '	// the lowest word cancels, what is left of it is its carry\n	c = uint64(ctIsNonZero64(q))\n	r[0], c')],
    CS + '''func TestDemo(t *testing.T) {
	var z, r1, r2 fp
	defer func(b bool) { hasADXandBMI2 = b }(hasADXandBMI2)
	z[7] = 5
	x := fp{5, 6, 7}
	mulRdc(&r1, &z, &x)
	hasADXandBMI2 = false
	mulRdc(&r2, &z, &x)
	if r1 != r2 {
		t.Fatal(r1, r2)
	}
}
''', 'a processor without ADX and an operand of which only the highest word is not zero', 'the code for processors without ADX computes another product')

bug('c13-realloc', 'C13', 'dh/sidh',
    [('dh/sidh/sike.go', '	c.msg = make([]byte, c.params.MsgLen)\n', '	// keep the buffer of an earlier allocation\n	if len(c.msg) < c.params.MsgLen {\n		c.msg = make([]byte, c.params.MsgLen)\n	}\n')],
    SIDH + '''func TestDemo(t *testing.T) {
	var c KEM
	for _, id := range []uint8{Fp751, Fp503} {
		c.Allocate(id, rand.Reader)
		k, p := NewPrivateKey(id, KeyVariantSike), NewPublicKey(id, KeyVariantSike)
		k.Generate(rand.Reader)
		k.GeneratePublicKey(p)
		ct, s1, s2 := make([]byte, c.CiphertextSize()), make([]byte, c.SharedSecretSize()), make([]byte, c.SharedSecretSize())
		c.Encapsulate(ct, s1, p)
		c.Decapsulate(s2, k, p, ct)
		if !bytes.Equal(s1, s2) {
			t.Fatal("secrets differ")
		}
	}
}
''', 'a KEM object allocated again for a smaller parameter set', 'encapsulation with a longer message than decapsulation recovers')

bug('c15-rdc-carry', 'C15', 'dh/sidh/internal/p503',
    [('dh/sidh/internal/p503/arith_generic.go', '		u, carry = bits.Add64(u, 0, carry)\n\n		t += carry\n', '		u += carry\n\n')],
    '''package p503

import (
	"math/big"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh/common"
)

func num(w []uint64) *big.Int {
	x := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		x.Lsh(x, 64).Add(x, new(big.Int).SetUint64(w[i]))
	}
	return x
}

func TestDemo(t *testing.T) {
	x, _ := new(big.Int).SetString("806c445a27b0d06fbde96780fe607e673bf6991e13674cf8a74d7a59a34353fd63ff2a57e3090e44887b4b1a6ca75e2fbc491e41df942cf7ca27064a9d7d7d672d73564bc492d234", 16)
	var a common.FpX2
	var z common.Fp
	m := new(big.Int).SetUint64(1<<64 - 1)
	for i := 0; i < 16; i++ {
		a[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m).Uint64()
	}
	rdcP503(&z, &a)
	p := num(P503[:FpWords])
	R := new(big.Int).Lsh(big.NewInt(1), 512)
	want := R.ModInverse(R, p)
	want.Mul(want, x).Mod(want, p)
	got := num(z[:FpWords])
	if got.Mod(got, p).Cmp(want) != 0 {
		t.Fatalf("%x, not %x", got, want)
	}
}
''', 'an operand of the portable Montgomery reduction that makes the middle word of a column all ones', 'carry lost', flags='-tags noasm')

bug('c19-add-equal', 'C19', 'dh/csidh',
    [('dh/csidh/fp511.go', '''	t[0], c = bits.Sub64(r[0], p[0], 0)
	t[1], c = bits.Sub64(r[1], p[1], c)
	t[2], c = bits.Sub64(r[2], p[2], c)
	t[3], c = bits.Sub64(r[3], p[3], c)
	t[4], c = bits.Sub64(r[4], p[4], c)
	t[5], c = bits.Sub64(r[5], p[5], c)
	t[6], c = bits.Sub64(r[6], p[6], c)
	t[7], c = bits.Sub64(r[7], p[7], c)

	var w = 0 - c
	r[0] = ctPick64(w, r[0], t[0])
	r[1] = ctPick64(w, r[1], t[1])
	r[2] = ctPick64(w, r[2], t[2])
	r[3] = ctPick64(w, r[3], t[3])
	r[4] = ctPick64(w, r[4], t[4])
	r[5] = ctPick64(w, r[5], t[5])
	r[6] = ctPick64(w, r[6], t[6])
	r[7] = ctPick64(w, r[7], t[7])
}

// r = x - y.
''', '''	if isLess(&p, r) {
		sub512(&t, r, &p)
		*r = t
	}
}

// r = x - y.
''')],
    CS + '''func TestDemo(t *testing.T) {
	x := fp{3, 1, 4}
	var y, z fp
	subRdc(&y, &z, &x)
	addRdc(&z, &x, &y)
	if !z.isZero() {
		t.Fatal("x + (-x) is not zero")
	}
}
''', 'a sum of exactly p', 'the sum is not reduced')

bug('c22-short-rng', 'C22', 'kem/mkem',
    [('kem/mkem/sike.go', '''	// Generate ephemeral value
	_, err := io.ReadFull(c.rng, c.msg[:])
''', '''	// Generate ephemeral value
	n, err := c.rng.Read(c.msg)
	if n == 0 && err == nil {
		err = io.ErrNoProgress
	}
''')],
    '''package mkem

import (
	"bytes"
	"crypto/rand"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh"
)

type slow struct{ n byte }

func (s *slow) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	for i := range b {
		s.n++
		b[i] = s.n
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	k, p := sidh.NewPrivateKey(sidh.Fp503, sidh.KeyVariantSike), sidh.NewPublicKey(sidh.Fp503, sidh.KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	var a sidh.KEM
	a.Allocate(sidh.Fp503, &slow{})
	var b KEM
	b.Allocate(sidh.Fp503, &slow{})
	c1, s1 := make([]byte, a.CiphertextSize()), make([]byte, a.SharedSecretSize())
	c2, s2 := make([]byte, a.CiphertextSize()), make([]byte, a.SharedSecretSize())
	a.Encapsulate(c1, s1, p)
	b.Encapsulate(c2, s2, p)
	if !bytes.Equal(c1, c2) || !bytes.Equal(s1, s2) {
		t.Fatal("not the ciphertext of SIKE")
	}
}
''', 'a random source that returns fewer bytes than asked for', 'the message is only partly random and the result is not that of SIKE')

bug('c24-drbg-pad', 'C24', 'drbg',
    [('drbg/ctr_drbg.go', '''		copy(seedBuf[:], ad)
		c.update(seedBuf[:])
''', '''		for len(ad) < SeedLen {
			ad = append(ad, 0)
		}
		copy(seedBuf[:], ad)
		c.update(seedBuf[:])
''')],
    '''package drbg

import "testing"

func TestDemo(t *testing.T) {
	c := NewCtrDrbg()
	c.Init(make([]byte, 48), nil)
	buf := []byte("additional data, then something else")
	c.ReadWithAdditionalData(make([]byte, 16), buf[:15])
	if string(buf) != "additional data, then something else" {
		t.Fatalf("%q", buf)
	}
}
''', 'additional data that is a part of a larger buffer', 'memory behind the additional data is overwritten')

bug('c12-cap-check', 'C12', 'dh/sidh',
    [('dh/sidh/sike.go', '''	if KeyVariantSike != pub.KeyVariant {
		panic("Wrong type of public key")
	}

	if len(secret) < c.SharedSecretSize() {
		panic("shared secret buffer to small")
	}

	if len(ciphertext) < c.CiphertextSize() {
''', '''	if KeyVariantSike != pub.KeyVariant {
		panic("Wrong type of public key")
	}

	if cap(secret) < c.SharedSecretSize() {
		panic("shared secret buffer to small")
	}

	if len(ciphertext) < c.CiphertextSize() {
''')],
    SIDH + '''func TestDemo(t *testing.T) {
	var c KEM
	c.Allocate(Fp503, rand.Reader)
	k, p := NewPrivateKey(Fp503, KeyVariantSike), NewPublicKey(Fp503, KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	buf := make([]byte, 64)
	defer func() {
		if recover() == nil || !bytes.Equal(buf, make([]byte, 64)) {
			t.Fatal("accepted")
		}
	}()
	c.Encapsulate(make([]byte, c.CiphertextSize()), buf[:8], p)
}
''', 'a short secret buffer with spare capacity', 'the secret is written behind the buffer')


bug('c01-ns-cache', 'C01', 'hash/sha3',
    [('hash/sha3/shake.go', '''func newCShake(N, S []byte, sfx byte, shaId uint8) ShakeHash {
''', '''// initialization blocks already encoded
var initBlocks sync.Map

func newCShake(N, S []byte, sfx byte, shaId uint8) ShakeHash {
'''), ('hash/sha3/shake.go', '''	// leftEncode returns max 9 bytes
	b := make([]byte, 0, 9*2+len(N)+len(S))
''', '''	key := string(rune(shaId)) + string(N) + string(S)
	if v, ok := initBlocks.Load(key); ok {
		c.initBlock = v.([]byte)
		c.Write(c.initBlock)
		return &c
	}

	// leftEncode returns max 9 bytes
	b := make([]byte, 0, 9*2+len(N)+len(S))
'''), ('hash/sha3/shake.go', '''	c.Write(c.initBlock)
	return &c
}

// Reset''', '''	initBlocks.Store(key, c.initBlock)
	c.Write(c.initBlock)
	return &c
}

// Reset'''), ('hash/sha3/shake.go', '	"io"\n', '	"io"\n	"sync"\n')],
    HASH + '''func TestDemo(t *testing.T) {
	var a, b [32]byte
	NewCShake128([]byte("ab"), []byte("c")).Read(a[:])
	NewCShake128([]byte("a"), []byte("bc")).Read(b[:])
	if bytes.Equal(a[:], b[:]) {
		t.Fatal("N and S are not separated")
	}
}
''', 'two cSHAKE objects whose N and S have the same concatenation', 'the second one computes the function of the first')

bug('c04-nblocks16', 'C04', 'hash/sm3',
    [('hash/sm3/sm3.go', '	nblocks := int(len(input) / d.BlockSize())\n', '	nblocks := int(uint16(len(input) / d.BlockSize()))\n')],
    SM3 + '''func TestDemo(t *testing.T) {
	msg := make([]byte, 64*(1<<16+3))
	for i := range msg {
		msg[i] = byte(i * i >> 3)
	}
	a, b := New(), New()
	a.Write(msg)
	b.Write(msg[:64<<15])
	b.Write(msg[64<<15:])
	if !bytes.Equal(a.Sum(nil), b.Sum(nil)) {
		t.Fatal("depends on the chunks")
	}
}
''', 'one Write of 4 MiB or more', 'most of the message is ignored')

bug('c08-same-key', 'C08', 'drbg/internal/aes',
    [('drbg/internal/aes/cipher.go', '''	for i, _ := range c.enc {
		c.enc[i] = 0
	}
	for i, _ := range c.dec {
		c.dec[i] = 0
	}
	c.keyLen = k
''', '''	// the first words of the schedule are the key itself: nothing to do if it is there already
	same := c.keyLen == k
	for i := 0; i < 4 && same; i++ {
		same = c.enc[i] == uint32(key[4*i])<<24|uint32(key[4*i+1])<<16|uint32(key[4*i+2])<<8|uint32(key[4*i+3])
	}
	if same {
		return nil
	}
	for i, _ := range c.enc {
		c.enc[i] = 0
	}
	for i, _ := range c.dec {
		c.dec[i] = 0
	}
	c.keyLen = k
''')],
    AES + '''func TestDemo(t *testing.T) {
	var a, b AES
	var x, y [16]byte
	k := make([]byte, 32)
	a.SetKey(k)
	k[20] = 1
	a.SetKey(k)
	b.SetKey(k)
	a.Encrypt(x[:], x[:])
	b.Encrypt(y[:], y[:])
	if !bytes.Equal(x[:], y[:]) {
		t.Fatal("key not set")
	}
}
''', 'an object re-keyed with a 192 or 256 bit key that begins with the same 128 bits', 'the old key stays in use')

bug('c18-gen-eof', 'C18', 'dh/csidh',
    [('dh/csidh/csidh.go', '''		if err != nil {
			return err
		}

		for j''', '''		if err == io.EOF {
			return err
		}

		for j''')],
    CS + '''func TestDemo(t *testing.T) {
	var k PrivateKey
	if GeneratePrivateKey(&k, bytes.NewReader(make([]byte, 40))) == nil {
		t.Fatal("no error")
	}
}
''', 'a generator that ends in the middle of a read', 'a key is made from what is left in the buffer, without an error')

bug('c20-sixteen', 'C20', 'kem/mkem',
    [('kem/mkem/csidh.go', '			c.Cts[i][j] = pt[j] ^ ss[j]', '			c.Cts[i&15][j] = pt[j] ^ ss[j]')],
    PKE + '''func TestDemo(t *testing.T) {
	rng := drbg.NewCtrDrbg()
	rng.Init(make([]byte, 48), nil)
	var m MultiPKE
	m.Allocate(17, rng)
	pk, sk := demoPair(rng)
	keys := make([]csidh.PublicKey, 17)
	for i := range keys {
		keys[i] = *pk
	}
	pt := [16]byte{1, 2, 3}
	m.Encrypt(keys, &pt)
	ct := ciphertext{U: m.Ct0}
	ct.V = m.Cts[16]
	if m.Dec(sk, &ct) != pt {
		t.Fatal("recipient 17")
	}
}
''', 'more than 16 recipients', 'recipients from the seventeenth on get nothing, the first ones the pads of others')

bug('c23-exp-table', 'C23', 'dh/csidh',
    [('dh/csidh/fp511.go', '	var precomp [16]fp\n', '	precomp := &expTable\n'),
     ('dh/csidh/fp511.go', 'func modExpRdcCommon(', '// powers of the base, filled by each exponentiation\nvar expTable [16]fp\n\nfunc modExpRdcCommon(')],
    CS + '''func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func(i int) {
			var z fp
			x := fp{uint64(i + 3)}
			for n := 0; n < 50; n++ {
				modExpRdc512(&z, &x, &pMin1)
			}
			done <- true
		}(i)
	}
	<-done
	<-done
}
''', 'two goroutines computing at the same time', 'wrong keys and secrets: a data race on the table of powers', flags='-race')

bug('c13-tail', 'C13', 'dh/sidh',
    [('dh/sidh/sike.go', '	copy(ctext[pkA.Size():], n[:ptextLen])\n', '	copy(ctext[pkA.Size():], n[:])\n')],
    SIDH + '''func TestDemo(t *testing.T) {
	var c KEM
	c.Allocate(Fp434, rand.Reader)
	k, p := NewPrivateKey(Fp434, KeyVariantSike), NewPublicKey(Fp434, KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	n := c.CiphertextSize()
	ct := bytes.Repeat([]byte{7}, n+64)
	c.Encapsulate(ct, make([]byte, 16), p)
	if !bytes.Equal(ct[n:], bytes.Repeat([]byte{7}, 64)) {
		t.Fatal("written beyond the ciphertext")
	}
}
''', 'an output buffer larger than the ciphertext', 'bytes after the ciphertext are overwritten')

# the demonstrations of C25 run twice, with other secrets, and compare the execution profiles
COVFLAGS = '-covermode=atomic -coverpkg=github.com/henrydcase/nobs/dh/sidh/...'
SIDHENV = SIDH.replace('	"bytes"\n', '	"bytes"\n	"os"\n', 1)
LADDER = SIDHENV + '''
func TestDemo(t *testing.T) {
	for _, v := range []KeyVariant{KeyVariantSidhA, KeyVariantSidhB} {
		k, p := NewPrivateKey(FIELD, v), NewPublicKey(FIELD, v)
		b := make([]byte, k.Size())
		if os.Getenv("DEMO") == "2" {
			b[0], b[20] = 0x15, 0x77
		}
		k.Import(b)
		k.GeneratePublicKey(p)
	}
}
'''
bug('c25-ladder-top', 'C25', 'dh/sidh',
    [('dh/sidh/internal/p751/curve.go', '	prevBit := uint8(0)\n', """	prevBit := uint8(0)
	// the bits above the highest one that is set change nothing
	for nbits > 1 && scalar[(nbits-1)>>3]>>((nbits-1)&7)&1 == 0 {
		nbits--
	}
""")],
    LADDER.replace('FIELD', 'Fp751'), 'a private key whose top bits are zero', 'public key generation and derivation are shorter for such keys', flags=COVFLAGS)
bug('c25-swap-if', 'C25', 'dh/sidh',
    [('dh/sidh/internal/p434/curve.go', '		cswap(&R1.X, &R1.Z, &R2.X, &R2.Z, swap)\n', """		if swap != 0 {
			R1, R2 = R2, R1
		}
""")],
    LADDER.replace('FIELD', 'Fp434'), 'keys with different bit patterns', 'the ladder branches on the bits of the private key', flags=COVFLAGS)

DECAPS = SIDHENV + '''
func TestDemo(t *testing.T) {
	var c KEM
	c.Allocate(Fp434, rand.Reader)
	k, p := NewPrivateKey(Fp434, KeyVariantSike), NewPublicKey(Fp434, KeyVariantSike)
	k.Generate(rand.Reader)
	k.GeneratePublicKey(p)
	ct, ss := make([]byte, c.CiphertextSize()), make([]byte, 16)
	c.Encapsulate(ct, ss, p)
	if os.Getenv("DEMO") == "2" {
		ct[len(ct)-1] ^= 1
	}
	c.Decapsulate(ss, k, p, ct)
}
'''
bug('c25-early-exit', 'C25', 'dh/sidh',
    [('dh/sidh/sike.go', '	mask := subtle.ConstantTimeCompare(pkBytes[:c.params.PublicKeySize], ciphertext[:pub.Params.PublicKeySize])\n', """	mask := subtle.ConstantTimeEq(0, 0)
	for i := 0; i < c.params.PublicKeySize; i++ {
		if pkBytes[i] != ciphertext[i] {
			mask = 0
			break
		}
	}
""")],
    DECAPS, 'an altered ciphertext', 'the comparison with the re-encryption stops at the first difference', flags=COVFLAGS)
bug('c25-pick', 'C25', 'dh/sidh',
    [('dh/sidh/common/utils.go', """	var which = byte((int8(pick << 7)) >> 7)
	for i := range out {
		out[i] = (in1[i] & which) | (in2[i] & ^which)
	}
""", """	src := in2
	if pick == 1 {
		src = in1
	}
	copy(out, src[:len(out)])
""")],
    DECAPS, 'an altered ciphertext', 'the selection between message and rejection value is a branch', flags=COVFLAGS)
