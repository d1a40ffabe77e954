package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// spent is what an input should be paired with, or nothing when it is not known.
type spent struct {
	known  bool
	value  uint64
	script []byte
	key    string
}

// child is a transaction with the given outpoints and 0 to 2 outputs.
func child(outpoints []wire.OutPoint) *wire.MsgTx {
	tx := &wire.MsgTx{Version: sym.I32("version"), LockTime: sym.U32("locktime")}
	for i, o := range outpoints {
		tx.TxIn = append(tx.TxIn, &wire.TxIn{PreviousOutPoint: o, Sequence: sym.U32(name("sequence", i)),
			UnlockingScript: sym.Bytes(name("unlock", i), 2)})
	}
	outs := sym.Choose("outs", 3)
	for i := 0; i < outs; i++ {
		tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: sym.U64(name("value", i)),
			LockingScript: sym.Bytes(name("script", i), 3)})
	}
	return tx
}

// checkImport compares the builder with the transaction it was made from and with what each input
// spends.
func checkImport(tx *txbuilder.TxBuilder, was []byte, want []spent, fee, dust float32, err error) {
	missing := false
	for _, w := range want {
		if !w.known {
			missing = true
		}
	}
	sym.Assert(missing == (err != nil), "an error exactly when the output of an input is missing")
	if missing {
		sym.Assert(is(err, txbuilder.ErrMissingInputData), "the error says that input data is missing")
		sym.Reach("missing")
		if tx == nil {
			return
		}
	}
	sym.Assert(tx != nil, "a builder is returned")
	sym.Assert(bytes.Equal(rawTx(tx.MsgTx), was), "the transaction is the one given")
	sym.Assert(tx.FeeRate == fee && tx.DustFeeRate == dust, "the rates are those given")
	sym.Assert(len(tx.Outputs) == len(tx.MsgTx.TxOut), "each output has an entry")
	for _, o := range tx.Outputs {
		sym.Assert(o != nil && !o.IsRemainder && !o.IsDust && o.KeyID == "", "output entries are empty")
	}
	sym.Assert(len(tx.Inputs) == len(want), "each input has an entry")
	for i, w := range want {
		in := tx.Inputs[i]
		if !w.known {
			sym.Assert(in == nil || len(in.LockingScript) == 0 && in.Value == 0 && in.KeyID == "",
				"no other output's data is used")
			continue
		}
		sym.Assert(in != nil && in.Value == w.value && in.KeyID == w.key && bytes.Equal(in.LockingScript, w.script),
			"each input is paired with the output it spends")
		sym.Reach("paired")
	}
}

func rawTx(tx *wire.MsgTx) []byte {
	r := append(le32(uint32(tx.Version)), byte(len(tx.TxIn)))
	for _, in := range tx.TxIn {
		r = append(r, outpoint(in)...)
		r = append(r, withLen(in.UnlockingScript)...)
		r = append(r, le32(in.Sequence)...)
	}
	r = append(r, byte(len(tx.TxOut)))
	for _, o := range tx.TxOut {
		r = append(r, rawOut(o)...)
	}
	return append(r, le32(tx.LockTime)...)
}

// C19_Wire: 1 to 3 inputs spending any index of either of 2 transactions with 0 to 2 outputs of any
// value and script, or of a transaction whose ID differs in any one byte; any subset of the two in
// either order is supplied.
func C19_Wire() {
	var parents []*wire.MsgTx
	for i := 0; i < 2; i++ {
		p := &wire.MsgTx{Version: 1, LockTime: uint32(i),
			TxIn: []*wire.TxIn{{PreviousOutPoint: wire.OutPoint{Hash: hashOf(byte(i))}}}}
		n := 1 + i
		if sym.Thorough() {
			n = sym.Choose(name("parent.outs", i), 3)
		}
		for j := 0; j < n; j++ {
			p.TxOut = append(p.TxOut, &wire.TxOut{Value: sym.U64(name(name("worth", i), j)),
				LockingScript: sym.Bytes(name(name("lock", i), j), 2+i)})
		}
		parents = append(parents, p)
	}
	var supplied []*wire.MsgTx
	has := []bool{true, true}
	switch sym.Choose("supplied", 5) {
	case 0:
		has = []bool{false, false}
	case 1:
		supplied, has[1] = parents[:1], false
	case 2:
		supplied, has[0] = parents[1:], false
	case 3:
		supplied = parents
	case 4:
		supplied = []*wire.MsgTx{parents[1], parents[0]}
	}
	var outpoints []wire.OutPoint
	var want []spent
	ins := 1 + sym.Choose("ins", 3)
	for i := 0; i < ins; i++ {
		k := sym.Choose(name("of", i), 3)
		o := wire.OutPoint{Index: sym.U32(name("index", i))}
		w := spent{}
		if k < 2 {
			o.Hash = *parents[k].TxHash()
			for j, out := range parents[k].TxOut {
				if has[k] && o.Index == uint32(j) {
					w = spent{true, out.Value, clone(out.LockingScript), ""}
				}
			}
		} else {
			o.Hash = *parents[0].TxHash()
			at := []int{0, 15, 31}[sym.Choose(name("flip", i), 3)]
			b := sym.Byte(name("byte", i))
			sym.Assume(b != o.Hash[at])
			sym.Assume(o.Hash != *parents[1].TxHash())
			o.Hash[at] = b
			sym.Assume(o.Hash != *parents[1].TxHash())
		}
		outpoints, want = append(outpoints, o), append(want, w)
	}
	msg := child(outpoints)
	was := rawTx(msg)
	fee, dust := rate("fee", 0, 1<<13, 10), rate("dustfee", 0, 1<<13, 10)
	tx, err := txbuilder.NewTxBuilderFromWire(fee, dust, msg, supplied)
	checkImport(tx, was, want, fee, dust, err)
}

// C19_UTXOs: 1 to 3 inputs with any index and a hash with any one byte, and 0 to 3 spent outputs
// with distinct outpoints of the same form and any value, script and key ID.
func C19_UTXOs() {
	var utxos []bitcoin.UTXO
	n := sym.Choose("utxos", 4)
	for i := 0; i < n; i++ {
		u := bitcoin.UTXO{Hash: hashOf(1), Index: sym.U32(name("utxo.index", i)), Value: sym.U64(name("worth", i)),
			LockingScript: sym.Bytes(name("lock", i), 1+i), KeyID: string(sym.Bytes(name("key", i), 2))}
		u.Hash[[]int{0, 9, 31}[i]] = sym.Byte(name("utxo.hash", i))
		for _, v := range utxos {
			sym.Assume(u.Index != v.Index || u.Hash != v.Hash)
		}
		utxos = append(utxos, u)
	}
	var outpoints []wire.OutPoint
	var want []spent
	most := 2
	if sym.Thorough() {
		most = 3
	}
	ins := 1 + sym.Choose("ins", most)
	for i := 0; i < ins; i++ {
		o := wire.OutPoint{Index: sym.U32(name("index", i)), Hash: hashOf(1)}
		o.Hash[[]int{0, 9, 31}[i]] = sym.Byte(name("hash", i))
		w := spent{}
		for _, u := range utxos {
			if o.Index == u.Index && o.Hash == u.Hash {
				w = spent{true, u.Value, clone(u.LockingScript), u.KeyID}
			}
		}
		outpoints, want = append(outpoints, o), append(want, w)
	}
	msg := child(outpoints)
	was := rawTx(msg)
	fee, dust := rate("fee", 0, 1<<13, 10), rate("dustfee", 0, 1<<13, 10)
	tx, err := txbuilder.NewTxBuilderFromWireUTXOs(fee, dust, msg, utxos)
	checkImport(tx, was, want, fee, dust, err)
}

// source is a transaction that carries the outputs it spends.
type source struct {
	tx   *wire.MsgTx
	want []spent
}

var errSource = errors.New("not known to the source")

func (s *source) TxID() bitcoin.Hash32     { return *s.tx.TxHash() }
func (s *source) GetMsgTx() *wire.MsgTx    { return s.tx }
func (s *source) InputCount() int          { return len(s.tx.TxIn) }
func (s *source) Input(i int) *wire.TxIn   { return s.tx.TxIn[i] }
func (s *source) OutputCount() int         { return len(s.tx.TxOut) }
func (s *source) Output(i int) *wire.TxOut { return s.tx.TxOut[i] }
func (s *source) InputOutput(i int) (*wire.TxOut, error) {
	if !s.want[i].known {
		return nil, errSource
	}
	return &wire.TxOut{Value: s.want[i].value, LockingScript: s.want[i].script}, nil
}

// C19_Source: 0 to 3 inputs with any outpoint, each with its output known or not, or without a spent
// output because the hash is zero.
func C19_Source() {
	s := &source{}
	var outpoints []wire.OutPoint
	ins := sym.Choose("ins", 4)
	known := true
	for i := 0; i < ins; i++ {
		h := bitcoin.Hash32{}
		h[[]int{0, 9, 31}[i]] = sym.Byte(name("hash", i))
		zero := h == bitcoin.Hash32{}
		outpoints = append(outpoints, wire.OutPoint{Hash: h, Index: sym.U32(name("index", i))})
		w := spent{sym.Bool(name("known", i)), sym.U64(name("worth", i)), sym.Bytes(name("lock", i), 1+i), ""}
		if zero {
			w = spent{}
		}
		known = known && (w.known || zero)
		s.want = append(s.want, w)
	}
	s.tx = child(outpoints)
	was := rawTx(s.tx)
	fee, dust := rate("fee", 0, 1<<13, 10), rate("dustfee", 0, 1<<13, 10)
	tx, err := txbuilder.NewTxBuilderFromTransactionWithOutputs(fee, dust, s)
	if !known {
		sym.Assert(is(err, errSource), "the error of the source is reported")
		sym.Reach("missing")
		return
	}
	sym.Assert(err == nil, "the import succeeds")
	for i := range s.want {
		// a zero hash has no spent output
		sym.Assert(tx.Inputs[i] != nil && (s.want[i].known || len(tx.Inputs[i].LockingScript) == 0),
			"an input without spent output has no data")
		s.want[i].known = true
	}
	checkImport(tx, was, s.want, fee, dust, err)
}

// C19_Builder: a builder with up to 3 inputs and 3 outputs and every field arbitrary is imported
// from another builder.
func C19_Builder() {
	from := anyBuilder()
	known := true
	for i, in := range from.Inputs {
		zero := from.MsgTx.TxIn[i].PreviousOutPoint.Hash == bitcoin.Hash32{}
		if !zero && in.Value == 0 && len(in.LockingScript) == 0 {
			known = false
		}
	}
	before := wholeOf(from)
	tx, err := txbuilder.NewTxBuilderFromTransactionWithOutputs(from.FeeRate, from.DustFeeRate, from)
	sym.Assert(sameWhole(before, wholeOf(from)), "importing changes nothing")
	sym.Assert(known == (err == nil), "an error exactly when the output of an input is missing")
	if err != nil {
		sym.Reach("missing")
		return
	}
	got := wholeOf(tx)
	sym.Assert(len(got.ins) == len(before.ins) && len(got.outs) == len(before.outs), "nothing is added or lost")
	for i := range got.ins {
		a, b := got.ins[i], before.ins[i]
		b.key = a.key // not part of the interface
		if b.hash.IsZero() {
			b.value, b.script = 0, nil
		}
		sym.Assert(sameIn(a, b), "each input is paired with the output it spends")
	}
	for i := range got.outs {
		sym.Assert(got.outs[i].value == before.outs[i].value &&
			bytes.Equal(got.outs[i].script, before.outs[i].script), "outputs are the same")
	}
	sym.Reach("done")
}

// C19_Usable: a builder made from a transaction of 2 inputs of which any may be missing, from
// transactions or from spent outputs, can be measured, copied and edited without a crash, and an
// input without data has no spent output.
func C19_Usable() {
	parent := &wire.MsgTx{Version: 1}
	for i := 0; i < 2; i++ {
		parent.TxOut = append(parent.TxOut, &wire.TxOut{Value: sym.U64R(name("worth", i), 1, maxMoney),
			LockingScript: p2pkh(byte(i + 1))})
	}
	id := *parent.TxHash()
	msg := &wire.MsgTx{Version: 1, TxOut: []*wire.TxOut{{Value: sym.U64R("value", 0, maxMoney), LockingScript: p2pkh(7)}}}
	var utxos []bitcoin.UTXO
	for i := 0; i < 2; i++ {
		o := wire.OutPoint{Hash: id, Index: uint32(i)}
		if sym.Bool(name("missing", i)) {
			o.Index = sym.U32(name("index", i))
			sym.Assume(o.Index > 1)
		} else {
			utxos = append(utxos, bitcoin.UTXO{Hash: id, Index: uint32(i), Value: parent.TxOut[i].Value,
				LockingScript: parent.TxOut[i].LockingScript})
		}
		msg.TxIn = append(msg.TxIn, &wire.TxIn{PreviousOutPoint: o})
	}
	var tx *txbuilder.TxBuilder
	var err error
	if sym.Bool("utxos") {
		tx, err = txbuilder.NewTxBuilderFromWireUTXOs(0.5, 0.5, msg, utxos)
	} else {
		tx, err = txbuilder.NewTxBuilderFromWire(0.5, 0.5, msg, []*wire.MsgTx{parent})
	}
	if tx == nil {
		sym.Assert(err != nil, "a builder or an error is returned")
		return
	}
	total := uint64(0)
	for _, u := range utxos {
		total += u.Value
	}
	sym.Assert(!sym.Panics(func() {
		sym.Assert(tx.InputValue() == total, "the input value is that of the known outputs")
		for i, in := range msg.TxIn {
			o, err := tx.InputOutput(i)
			sym.Assert((err == nil) == (in.PreviousOutPoint.Index < 2), "only known outputs are given")
			sym.Assert(err != nil || o.Value == parent.TxOut[i].Value, "the spent output is given")
		}
		tx.EstimatedSize()
		tx.ActualFee()
		c := tx.Copy()
		sym.Assert(c.AddOutput(p2pkh(1), 100000, false, false) == nil, "an output can be added")
		sym.Assert(c.RemoveInput(0) == nil, "an input can be removed")
	}), "the builder can be used")
	if err != nil {
		sym.Reach("with missing data")
	}
}
