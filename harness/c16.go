package verifharness

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

func twice(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

func withLen(b []byte) []byte {
	if len(b) < 253 {
		return append([]byte{byte(len(b))}, b...)
	}
	return append([]byte{253, byte(len(b)), byte(len(b) >> 8)}, b...)
}

func outpoint(in *wire.TxIn) []byte {
	return append(append([]byte{}, in.PreviousOutPoint.Hash[:]...), le32(in.PreviousOutPoint.Index)...)
}

func rawOut(o *wire.TxOut) []byte { return append(le64(o.Value), withLen(o.LockingScript)...) }

// afterSeparator gives the bytes after the last separator that is not part of a push, or false when
// a push is cut off.
func afterSeparator(s []byte) ([]byte, bool) {
	start := 0
	for i := 0; i < len(s); {
		op := s[i]
		i++
		width := 0
		switch {
		case op >= 1 && op <= 75:
			if int(op) > len(s)-i {
				return nil, false
			}
			i += int(sym.Conc(uint64(op)))
			continue
		case op == 76:
			width = 1
		case op == 77:
			width = 2
		case op == 78:
			width = 4
		case op == 0xab:
			start = i
		}
		if width > len(s)-i {
			return nil, false
		}
		n := uint64(0)
		for j := 0; j < width; j++ {
			n += uint64(s[i+j]) << (8 * j)
		}
		i += width
		if n > uint64(len(s)-i) {
			return nil, false
		}
		i += int(sym.Conc(n))
	}
	return s[start:], true
}

// wantPreimage is the specified preimage for a script without what precedes the last separator.
func wantPreimage(tx *wire.MsgTx, index int, script []byte, value uint64, t uint32) []byte {
	zero := make([]byte, 32)
	base, any := t&0x1f, t&0x80 != 0
	r := le32(uint32(tx.Version))
	if any {
		r = append(r, zero...)
	} else {
		var b []byte
		for _, in := range tx.TxIn {
			b = append(b, outpoint(in)...)
		}
		r = append(r, twice(b)...)
	}
	if any || base != 1 {
		r = append(r, zero...)
	} else {
		var b []byte
		for _, in := range tx.TxIn {
			b = append(b, le32(in.Sequence)...)
		}
		r = append(r, twice(b)...)
	}
	r = append(r, outpoint(tx.TxIn[index])...)
	r = append(r, withLen(script)...)
	r = append(r, le64(value)...)
	r = append(r, le32(tx.TxIn[index].Sequence)...)
	switch {
	case base == 1:
		var b []byte
		for _, o := range tx.TxOut {
			b = append(b, rawOut(o)...)
		}
		r = append(r, twice(b)...)
	case base == 3 && index < len(tx.TxOut):
		r = append(r, twice(rawOut(tx.TxOut[index]))...)
	default:
		r = append(r, zero...)
	}
	r = append(r, le32(tx.LockTime)...)
	return append(r, le32(t|0x40)...)
}

// anyMsgTx is a transaction with every field arbitrary: outpoint hashes vary in their first, 17th
// and last byte, output scripts are 3 bytes long.
func anyMsgTx(ins, outs int) *wire.MsgTx {
	tx := &wire.MsgTx{Version: sym.I32("version"), LockTime: sym.U32("locktime")}
	for i := 0; i < ins; i++ {
		h := hashOf(byte(i + 1))
		b := sym.Bytes(name("hash", i), 3)
		h[0], h[16], h[31] = b[0], b[1], b[2]
		tx.TxIn = append(tx.TxIn, &wire.TxIn{
			PreviousOutPoint: wire.OutPoint{Hash: h, Index: sym.U32(name("index", i))},
			Sequence:         sym.U32(name("sequence", i)),
			UnlockingScript:  bitcoin.Script{0x51},
		})
	}
	for i := 0; i < outs; i++ {
		tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: sym.U64(name("value", i)),
			LockingScript: sym.Bytes(name("script", i), 3)})
	}
	return tx
}

// anyType is each defined signature hash type, with or without the fork bit.
func anyType(tag string) txbuilder.SigHashType {
	t := txbuilder.SigHashType(1 + sym.Choose(tag+".base", 3))
	if sym.Bool(tag + ".any") {
		t |= 0x80
	}
	if sym.Bool(tag + ".fork") {
		t |= 0x40
	}
	return t
}

func checkDigest(tx *wire.MsgTx, index int, script []byte, value uint64, t txbuilder.SigHashType) {
	rest, ok := afterSeparator(script)
	before := clone(script)
	got, err := txbuilder.SignatureHashPreimageBytes(tx, index, script, value, t, &txbuilder.SigHashCache{})
	if index >= len(tx.TxIn) || !ok {
		sym.Assert(err != nil, "an index past the end or a malformed script is an error")
		_, err = txbuilder.SignatureHash(tx, index, script, value, t, &txbuilder.SigHashCache{})
		sym.Assert(err != nil, "an index past the end or a malformed script has no signature hash")
		sym.Reach("T:error")
		return
	}
	sym.Assert(err == nil, "the preimage is defined")
	want := wantPreimage(tx, index, rest, value, uint32(t))
	sym.Assert(bytes.Equal(got, want), "the preimage is the specified one")
	sym.Assert(bytes.Equal(before, script), "the script is untouched")
	again, err := txbuilder.SignaturePreimage(tx, index, script, value, t, &txbuilder.SigHashCache{})
	sym.Assert(err == nil && bytes.Equal(again, want), "both ways to get the preimage agree")
	h, err := txbuilder.SignatureHash(tx, index, script, value, t, &txbuilder.SigHashCache{})
	sym.Assert(err == nil, "the signature hash is defined")
	sym.Assert(bytes.Equal(h[:], twice(want)), "the signature hash is the double hash of the preimage")
	sym.Reach("done")
	sym.Observe("preimage", len(got))
}

// C16_Fields: 1 to 3 inputs and 0 to 3 outputs with every field arbitrary, every index from 0 to
// one past the end, every defined type with or without the fork bit, a script paying a public key
// hash.
func C16_Fields() {
	ins := 1 + sym.Choose("ins", 3)
	tx := anyMsgTx(ins, sym.Choose("outs", 4))
	checkDigest(tx, sym.Choose("at", ins+1), p2pkh(3), sym.U64("value"), anyType("type"))
}

// C16_Script: every script of up to 5 bytes (thorough: 6), 1 input and 1 output, type all.
func C16_Script() {
	n := 6
	if sym.Thorough() {
		n = 7
	}
	script := sym.Bytes("locking", sym.Choose("length", n))
	checkDigest(anyMsgTx(1, 1), 0, script, sym.U64("value"), 0x41)
}

// C16_Lengths: 1 or 2 inputs with unlocking scripts of 0 or 300 bytes and 1 or 2 outputs with scripts
// of 0, 1, 252, 253 or 300 bytes, every index and type, other fields arbitrary.
func C16_Lengths() {
	lens := []int{0, 1, 252, 253, 300}
	ins, outs := 1+sym.Choose("ins", 2), 1+sym.Choose("outs", 2)
	tx := anyMsgTx(ins, outs)
	for i, in := range tx.TxIn {
		in.UnlockingScript = opReturn(300, 5)[:300*((i+sym.Choose("unlock", 2))%2)]
	}
	for i, o := range tx.TxOut {
		o.LockingScript = opReturn(300, 4)[:lens[sym.Choose(name("length", i), 5)]]
	}
	checkDigest(tx, sym.Choose("at", ins), p2pkh(3), sym.U64("value"), anyType("type"))
}

// C16_Separator: scripts with a separator at the start, in the middle, inside a push, at the end or
// twice, followed by every 4 bytes (thorough: 5) or by a push of 5, 76, 252, 253 or 256 bytes.
func C16_Separator() {
	var script []byte
	switch sym.Choose("before", 4) {
	case 0:
		script = []byte{0xab}
	case 1:
		script = []byte{0x51, 0xab, 0x76, 0xab}
	case 2:
		script = []byte{0xab, 0x02, 0xab, 0xab}
	case 3:
		script = []byte{0x4c, 0x01, 0xab, 0xab}
	}
	switch k := sym.Choose("after", 6); k {
	case 0:
		n := 4
		if sym.Thorough() {
			n = 5
		}
		script = append(script, sym.Bytes("tail", n)...)
	default:
		size := []int{0, 5, 76, 252, 253, 256}[k]
		switch {
		case size <= 75:
			script = append(script, byte(size))
		case size < 256:
			script = append(script, 76, byte(size))
		default:
			script = append(script, 77, byte(size), byte(size>>8))
		}
		script = append(script, bytes.Repeat([]byte{7}, size)...)
	}
	checkDigest(anyMsgTx(1, 1), 0, script, sym.U64("value"), 0x41)
}
