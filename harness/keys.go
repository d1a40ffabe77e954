package verifharness

import (
	"github.com/tokenized/pkg/bitcoin"
)

// keyOf gives a fixed private key.
func keyOf(i int) bitcoin.Key {
	b := make([]byte, 32)
	for j := range b {
		b[j] = byte(i + 1)
	}
	k, err := bitcoin.KeyFromNumber(b, bitcoin.MainNet)
	if err != nil {
		panic(err)
	}
	return k
}

func p2pkhOf(k bitcoin.Key) bitcoin.Script {
	s := bitcoin.Script{bitcoin.OP_DUP, bitcoin.OP_HASH160, 20}
	s = append(s, bitcoin.Hash160(k.PublicKey().Bytes())...)
	return append(s, bitcoin.OP_EQUALVERIFY, bitcoin.OP_CHECKSIG)
}

func p2pkOf(k bitcoin.Key) bitcoin.Script {
	s := bitcoin.Script{33}
	s = append(s, k.PublicKey().Bytes()...)
	return append(s, bitcoin.OP_CHECKSIG)
}

func multiOf(required int, ks ...bitcoin.Key) bitcoin.Script {
	t, err := bitcoin.NewMultiPKHTemplate(uint32(required), uint32(len(ks)))
	if err != nil {
		panic(err)
	}
	var s bitcoin.Script
	n := 0
	for _, b := range t {
		if b == bitcoin.OP_PUBKEYHASH {
			s = append(s, 20)
			s = append(s, bitcoin.Hash160(ks[n].PublicKey().Bytes())...)
			n++
			continue
		}
		s = append(s, b)
	}
	return s
}
