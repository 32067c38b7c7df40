package main

import (
	"bytes"
	"crypto"
	"hash"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
)

type hashState struct{ h map[int]hash.Hash }

const bulkLen = 1 << 29

func (s *session) hash(i int) hash.Hash {
	if s.x.h == nil {
		s.x.h = map[int]hash.Hash{}
	}
	if s.x.h[i] == nil {
		s.x.h[i] = ripemd160.New()
	}
	return s.x.h[i]
}

// what f returns, also after an earlier result was changed by its owner
func fresh(f func() []byte) []byte {
	b := f()
	c := append(b[:0:0], b...)
	for i := range b {
		b[i] ^= 0xff
	}
	if d := f(); !bytes.Equal(c, d) {
		return d
	}
	return c
}

func (s *session) execHash(a Args) Obs {
	switch a.Op {
	case "b58e":
		buf := s.input(a.D)
		r := base58.Encode(buf[:len(a.D)])
		return Obs{"out": "ok", "s": BS(r), "in": tailKept(buf, len(a.D))}
	case "b58d":
		b := fresh(func() []byte { return base58.Decode(string(toBytes(a.S))) })
		return Obs{"out": "ok", "b": BS(b)}
	case "cke":
		buf := s.input(a.D)
		var r string
		if a.Form == "sha" {
			r = base58.CheckEncode(buf[:len(a.D)])
		} else {
			r = base58.CheckEncodeEosio(buf[:len(a.D)], string(toBytes(a.A)))
		}
		return Obs{"out": "ok", "s": BS(r), "in": tailKept(buf, len(a.D))}
	case "ckd":
		var b []byte
		var err error
		b = fresh(func() []byte {
			if a.Form == "sha" {
				b, err = base58.CheckDecode(string(toBytes(a.S)))
			} else {
				b, err = base58.CheckDecodeEosio(string(toBytes(a.S)), string(toBytes(a.A)))
			}
			return b
		})
		return Obs{"out": outOf(err), "b": BS(b)}
	case "digest":
		buf := s.input(a.D)
		m := buf[:len(a.D)]
		var b []byte
		switch a.Form {
		case "160":
			x := chain.Checksum160Digest(m)
			b = x[:]
		case "256":
			x := chain.Checksum256Digest(m)
			b = x[:]
		case "512":
			x := chain.Checksum512Digest(m)
			b = x[:]
		}
		return Obs{"out": "ok", "b": BS(b), "in": tailKept(buf, len(a.D))}
	case "dbulk": // the a.N-th of a few numbers of zero bytes, then a.D
		m := append(make([]byte, []int{1 << 12, 1 << 16, 1 << 20, 1 << 24}[a.N-1]), toBytes(a.D)...)
		c := append([]byte{}, m...)
		var b []byte
		switch a.Form {
		case "160":
			x := chain.Checksum160Digest(m)
			b = x[:]
		case "256":
			x := chain.Checksum256Digest(m)
			b = x[:]
		case "512":
			x := chain.Checksum512Digest(m)
			b = x[:]
		}
		return Obs{"out": "ok", "b": BS(b), "in": bytes.Equal(m, c)}
	case "adigest":
		p := s.value(a)
		x := p.Elem().Interface().(chain.Action).Digest()
		return Obs{"out": "ok", "b": BS(x[:]), "va": getVal(p.Elem(), a.T)}
	case "hnew":
		s.hash(a.H)
		if a.Form == "crypto" {
			s.x.h[a.H] = crypto.RIPEMD160.New()
		} else {
			s.x.h[a.H] = ripemd160.New()
		}
		return Obs{"out": "ok", "size": s.hash(a.H).Size(), "bs": s.hash(a.H).BlockSize()}
	case "hreset":
		s.hash(a.H).Reset()
		return Obs{"out": "ok"}
	case "hwrite":
		buf := s.input(a.D)
		n, err := s.hash(a.H).Write(buf[:len(a.D)])
		in := tailKept(buf, len(a.D))
		for i := range buf { // the hash must not keep the slice
			if s.pool == nil {
				buf[i] ^= 0x5a
			}
		}
		return Obs{"out": outOf(err), "n": n, "in": in}
	case "hbulk":
		z := make([]byte, 1<<20)
		for i := 0; i < bulkLen; i += len(z) {
			if n, err := s.hash(a.H).Write(z); n != len(z) || err != nil {
				return Obs{"out": "err"}
			}
		}
		return Obs{"out": "ok"}
	case "hsum":
		in := withTail(toBytes(a.A))
		b := s.hash(a.H).Sum(in[:len(a.A)])
		r := BS(append([]byte{}, b...))
		pre := BS(append([]byte{}, in[:len(a.A)]...))
		return Obs{"out": "ok", "b": r, "in": pre}
	}
	return nil
}
