package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// varIntOf is the length of the encoding of any number.
func varIntOf(v uint64) uint64 {
	return sym.IteU64(v < 253, 1, sym.IteU64(v < 1<<16, 3, sym.IteU64(v < 1<<32, 5, 9)))
}

// unlocker estimates unlocking sizes like the standalone function.
type unlocker struct{ bitcoin_interpreter.Unlocker }

func (unlocker) UnlockingSize(s bitcoin.Script) (int, error) { return fees.EstimateUnlockingSize(s) }

// carried is a transaction that gives what it knows about spent outputs, which may be nothing.
type carried struct {
	tx    *wire.MsgTx
	spent []wire.TxOut
}

func (s *carried) TxID() bitcoin.Hash32     { return *s.tx.TxHash() }
func (s *carried) GetMsgTx() *wire.MsgTx    { return s.tx }
func (s *carried) InputCount() int          { return len(s.tx.TxIn) }
func (s *carried) Input(i int) *wire.TxIn   { return s.tx.TxIn[i] }
func (s *carried) OutputCount() int         { return len(s.tx.TxOut) }
func (s *carried) Output(i int) *wire.TxOut { return s.tx.TxOut[i] }
func (s *carried) InputOutput(i int) (*wire.TxOut, error) {
	o := s.spent[i]
	return &o, nil
}

func carriedOf(tx *txbuilder.TxBuilder) *carried {
	c := &carried{tx: tx.MsgTx}
	for _, in := range tx.Inputs {
		c.spent = append(c.spent, wire.TxOut{Value: in.Value, LockingScript: in.LockingScript})
	}
	return c
}

// anySource adds an input and gives its value and its size: known, with embedded data, known with
// embedded data that must not be used, neither, or with data that is cut off.
func anySource(tx *txbuilder.TxBuilder, i int) (value, size uint64, known bool) {
	s := inState{hash: hashOf(1), index: uint32(i)}
	sizeLen, valueLen := 2, 6
	if i == 0 {
		sizeLen = 1 + sym.Choose("sizelen", 4)
		valueLen = 1 + sym.Choose("valuelen", 7)
	}
	k := sym.Choose(name("source", i), 5)
	known = true
	if k == 1 || k == 2 {
		var n uint64
		s.unlock, n, value = embedded(name("data", i), sizeLen, valueLen)
		size = 40 + varIntOf(n) + n
	}
	if k == 0 || k == 2 {
		s.script = p2pkh(4)
		s.value = sym.U64R(name("value", i), 1, maxMoney)
		value, size = s.value, 148+1
	}
	if k > 2 {
		known = false
	}
	if k == 4 {
		s.unlock, _, _ = embedded(name("bad", i), 2, 6)
		s.unlock = s.unlock[:len(s.unlock)-1-i]
	}
	putIn(tx, s)
	return value, size, known
}

// C21_Counts: 1 to 3 inputs, each known with any value, with embedded data of a size of 1 to 4
// bytes and a value of 1 to 7 bytes, known with embedded data besides, neither known nor
// embedded, or with data that is cut off; 0 or 1 outputs.
func C21_Counts() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	ins := 1 + sym.Choose("ins", 3)
	value, size, known := uint64(0), uint64(8+1+1), true
	for i := 0; i < ins; i++ {
		v, n, k := anySource(tx, i)
		value, size, known = value+v, size+n, known && k
		if !k {
			size += 149 // what the builder assumes
		}
	}
	out := uint64(0)
	if sym.Bool("output") {
		out = sym.U64R("out", 0, maxMoney)
		putOut(tx, outState{value: out, script: p2pkh(5)})
		size += 34
	}
	before := wholeOf(tx)
	sym.Assert(tx.InputValue() == value, "the builder counts the embedded value")
	sym.Assert(uint64(tx.EstimatedSize()) == size, "the builder counts the embedded size")
	if known {
		sym.Reach("known")
	} else {
		sym.Reach("neither")
	}
	sym.Assert(tx.ActualFee() == int64(value)-int64(out), "the builder's fee uses the embedded value")
	c := carriedOf(tx)
	v, err := fees.InputsValue(c)
	sym.Assert(known == (err == nil), "the standalone value fails exactly when an input has no data")
	sym.Assert(err != nil || v == value, "the standalone functions count the embedded value")
	sym.Assert(err == nil || is(err, fees.MissingUnlockingData), "the error says that unlocking data is missing")
	fee, err := fees.Fee(c)
	sym.Assert(known == (err == nil), "the standalone fee fails exactly when an input has no data")
	sym.Assert(err != nil || fee == int64(value)-int64(out), "the standalone fee uses the embedded value")
	sym.Assert(err == nil || is(err, fees.MissingUnlockingData), "the fee's error says that unlocking data is missing")
	n, err := fees.EstimateSize(c, unlocker{})
	sym.Assert(known == (err == nil), "the standalone size fails exactly when an input has no data")
	sym.Assert(err != nil || uint64(n) == size, "the standalone functions count the embedded size")
	sym.Assert(err == nil || is(err, fees.MissingUnlockingData), "the size's error says that unlocking data is missing")
	est, err := fees.EstimateFee(c, unlocker{}, 0.5)
	sym.Assert(err != nil || est == (size+1)/2, "the standalone estimated fee uses the embedded size")
	sym.Assert(known == (err == nil), "the standalone estimated fee fails exactly when an input has no data")
	sym.Assert(sameWhole(before, wholeOf(tx)), "reading changes nothing")
}

// C21_Input: one input with embedded data as above and a spent output of which only the value or
// only the script is known.
func C21_Input() {
	unlock, size, value := embedded("data", 1+sym.Choose("sizelen", 4), 1+sym.Choose("valuelen", 7))
	txin := &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: hashOf(1)}, UnlockingScript: unlock}
	out := wire.TxOut{}
	worth := sym.U64R("worth", 0, maxMoney)
	out.Value = worth
	v, err := fees.InputValue(txin, &out)
	sym.Assert(err == nil && v == sym.IteU64(worth != 0, worth, value), "the value is the known or the embedded one")
	var script bitcoin.Script
	wantSize := 40 + varIntOf(size) + size
	if sym.Bool("script") {
		script = p2pkh(4)
		wantSize = 148 + 1
	}
	n, err := fees.EstimateInputSize(txin, script, unlocker{})
	sym.Assert(err == nil && uint64(n) == wantSize, "the size is that for the script or the embedded one")
	sym.Reach("done")
}

// withoutData checks that an unlocking script without usable data is reported and not valued.
func withoutData(unlock bitcoin.Script, label string) {
	txin := &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: hashOf(1)}, UnlockingScript: unlock}
	sym.Assert(!sym.Panics(func() {
		_, err := fees.InputValue(txin, &wire.TxOut{})
		sym.Assert(is(err, fees.MissingUnlockingData), "an input without data has no value")
		_, err = fees.EstimateInputSize(txin, nil, unlocker{})
		sym.Assert(is(err, fees.MissingUnlockingData), "an input without data has no size")
		tx := txbuilder.NewTxBuilder(0.5, 0.5)
		putIn(tx, inState{hash: hashOf(1), unlock: unlock})
		sym.Assert(tx.InputValue() == 0, "an input without data adds no value")
		sym.Assert(tx.EstimatedSize() == 8+1+1+149, "an input without data is taken to pay a public key hash")
		sym.Reach("T:reported")
	}), label)
}

// C21_Without: unlocking scripts without usable data: every script of up to 3 bytes that is not an
// envelope; every 4 bytes after the return opcode; an envelope of any version byte but 1; another
// protocol of any 2 letters; a number of 9 bytes or with a sign; data cut off at any place; envelopes without
// protocols, without payload, with a payload count of 2^62 or with an empty number as size or value.
func C21_Without() {
	head := bitcoin.Script{bitcoin.OP_FALSE, bitcoin.OP_RETURN}
	full, _, _ := embedded("data", 2, 3)
	version := append(clone(head), 2, 0xbd, 1)
	data := append(clone(version), bitcoin.OP_1, 2, 'U', 'L')
	switch sym.Choose("kind", 11) {
	case 0:
		s := sym.Bytes("script", sym.Choose("len", 4))
		withoutData(s, "a short script does not crash")
	case 1:
		withoutData(append(head, sym.Bytes("after", 4)...), "a short return script does not crash")
	case 2:
		v := sym.Byte("version")
		sym.Assume(v != 1)
		full[4] = v
		withoutData(full, "another envelope version does not crash")
	case 3:
		a, b := sym.Byte("a"), sym.Byte("b")
		sym.Assume(a != 'U' || b != 'L')
		full[7], full[8] = a, b
		withoutData(full, "another protocol does not crash")
	case 4:
		k := []int{1, 9, 10}[sym.Choose("digits", 3)]
		s := append(clone(full[:11]), byte(k))
		b := sym.Bytes("digit", k)
		sym.Assume(k > 8 || b[k-1] >= 0x80)
		s = append(append(s, b...), bitcoin.OP_1)
		withoutData(s, "a number that is too long or negative does not crash")
	case 5:
		withoutData(full[:sym.Choose("cut", len(full))], "data that is cut off does not crash")
	case 6:
		withoutData(append(data, 8, 0, 0, 0, 0, 0, 0, 0, 0x40, bitcoin.OP_1), "a payload count that is too large does not crash")
	case 7:
		withoutData(append(version, bitcoin.OP_0, bitcoin.OP_1, bitcoin.OP_1), "an envelope without protocols does not crash")
	case 8:
		withoutData(append(data, bitcoin.OP_0), "an envelope without payload does not crash")
	case 9:
		withoutData(append(data, bitcoin.OP_3, bitcoin.OP_0, 0x4c, 0, bitcoin.OP_1), "an empty number does not crash")
	case 10:
		withoutData(append(data, bitcoin.OP_3, bitcoin.OP_0, bitcoin.OP_1, 0x4c, 0), "an empty number does not crash")
	}
	sym.Reach("done")
}
