package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
)

// embedded is an unlocking script that says how large the real one will be and what the input is
// worth: any size of sizeLen bytes and any value of valueLen bytes.
func embedded(tag string, sizeLen, valueLen int) (bitcoin.Script, uint64, uint64) {
	s := bitcoin.Script{bitcoin.OP_FALSE, bitcoin.OP_RETURN, 2, 0xbd, 1, bitcoin.OP_1, 2, 'U', 'L',
		bitcoin.OP_3, bitcoin.OP_0}
	s, size := number(s, tag+".size", sizeLen)
	s, value := number(s, tag+".value", valueLen)
	return s, size, value
}

// number appends a push of any number of n bytes without sign bit.
func number(s bitcoin.Script, tag string, n int) (bitcoin.Script, uint64) {
	b := sym.Bytes(tag, n)
	sym.Assume(b[n-1] < 0x80)
	v := uint64(0)
	for i, c := range b {
		v += uint64(c) << (8 * i)
	}
	return append(append(s, byte(n)), b...), v
}
