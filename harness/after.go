package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// coinOf is a coin that the key with the number can spend.
func coinOf(i int, value uint64) bitcoin.UTXO {
	return bitcoin.UTXO{Hash: hashOf(byte(i)), Index: uint32(i), Value: value,
		LockingScript: p2pkhOf(keyOf(i)), KeyID: name("key", i)}
}

// started is a transaction made with the builder's own operations: 2 inputs and 2 outputs of any value.
func started() *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	for i := 0; i < 2; i++ {
		sym.Assume(tx.AddInputUTXO(coinOf(i+1, sym.U64R(name("in", i), 0, maxMoney))) == nil)
		sym.Assume(tx.AddOutput(scriptOf(1-i, byte(0x30+i)), sym.U64R(name("out", i), 100, maxMoney), i == 1, false) == nil)
	}
	return tx
}

const edits = 15

// edit performs one operation, which may fail.
func edit(tx *txbuilder.TxBuilder, which int, tag string) {
	v := sym.U64R(tag, 0, maxMoney)
	switch which {
	case 0:
		tx.AddValueToOutput(0, v)
	case 1:
		tx.SubtractValueFromOutput(1, v)
	case 2:
		tx.SetOutputToDust(0)
	case 3:
		tx.UpdateOutput(0, scriptOf(3, 0x40))
	case 4:
		tx.RemoveOutput(0)
	case 5:
		tx.AddOutput(scriptOf(3, 0x41), v, sym.Bool(tag+"change"), false)
	case 6:
		tx.InsertOutput(0, scriptOf(0, 0x42), v, false, false)
	case 7:
		tx.AddInputUTXO(coinOf(3, v))
	case 8:
		u := coinOf(4, v)
		u.LockingScript = p2pkOf(keyOf(4))
		tx.UpdateInputUTXO(1, u)
	case 9:
		tx.RemoveInput(0)
	case 10:
		tx.InsertInput(0, coinOf(5, v))
	case 11:
		tx.AdjustFee(sym.I64R(tag+"fee", -maxMoney, maxMoney))
	case 12:
		tx.SetChangeLockingScript(scriptOf(0, 0x31), "change")
	case 13:
		tx.SignOnly([]bitcoin.Key{keyOf(1), keyOf(2)})
	case 14:
		tx.RandomizeOutputs()
	}
}

// anew is a builder with the same contents that has not been used.
func anew(tx *txbuilder.TxBuilder) *txbuilder.TxBuilder {
	result := txbuilder.NewTxBuilder(tx.FeeRate, tx.DustFeeRate)
	result.MsgTx.Version, result.MsgTx.LockTime = tx.MsgTx.Version, tx.MsgTx.LockTime
	for _, in := range insOf(tx) {
		putIn(result, in)
	}
	for _, o := range outsOf(tx) {
		putOut(result, o)
	}
	result.SendMax, result.ChangeScript, result.ChangeKeyID = tx.SendMax, tx.ChangeScript, tx.ChangeKeyID
	return result
}

// C07_After: the sizes are asked for, then one or two of 15 operations are performed on 2 inputs
// and 2 outputs of any value, with any values and the sizes asked for in between, and then the
// estimated size is that of an unused builder with the same contents.
func C07_After() {
	tx := started()
	n := 1 + sym.Choose("edits", 2)
	for i := 0; i < n; i++ {
		tx.EstimatedSize()
		edit(tx, sym.Choose(name("edit", i), edits), name("v", i))
	}
	sym.Assert(tx.EstimatedSize() == anew(tx).EstimatedSize(), "the estimated size does not depend on the history")
	sym.Reach("compared")
}

// C09_After: as C07_After for the values and fees.
func C09_After() {
	tx := started()
	n := 1 + sym.Choose("edits", 2)
	for i := 0; i < n; i++ {
		tx.InputValue()
		tx.OutputValue(true)
		tx.OutputValue(false)
		tx.EstimatedFee()
		tx.Fee()
		tx.ActualFee()
		tx.Remainder()
		edit(tx, sym.Choose(name("edit", i), edits), name("v", i))
	}
	other := anew(tx)
	in, out, change := uint64(0), uint64(0), uint64(0)
	for _, s := range insOf(tx) {
		in += s.value
	}
	for _, o := range outsOf(tx) {
		out += o.value
		if o.remainder {
			change += o.value
		}
	}
	sym.Assert(tx.InputValue() == in, "the input value is the sum over the inputs")
	sym.Assert(tx.OutputValue(true) == out, "the output value is the sum over the outputs")
	sym.Assert(tx.OutputValue(false) == out-change, "the output value without change leaves change out")
	sym.Assert(tx.ActualFee() == int64(in)-int64(out), "the actual fee is inputs minus outputs")
	sym.Assert(tx.Fee() == sym.IteU64(out > in, 0, in-out), "the fee is inputs minus outputs or zero")
	sym.Assert(tx.EstimatedFee() == other.EstimatedFee(), "the estimated fee does not depend on the history")
	sym.Assert(tx.Remainder() == other.Remainder(), "the remainder does not depend on the history")
	sym.Reach("compared")
}

// C20_After: as C07_After for the bytes, the transaction ID and what the accessors return.
func C20_After() {
	tx := started()
	n := 1 + sym.Choose("edits", 2)
	for i := 0; i < n; i++ {
		tx.TxID()
		tx.Serialize()
		tx.AllInputsAreSigned()
		for k := 0; k < tx.InputCount(); k++ {
			tx.InputIsSigned(k)
			tx.InputOutput(k)
			tx.InputAddress(k)
		}
		for k := 0; k < tx.OutputCount(); k++ {
			tx.OutputAddress(k)
		}
		edit(tx, sym.Choose(name("edit", i), edits), name("v", i))
	}
	checkSerialized(tx, rawTx(tx.MsgTx))
	sym.Assert(tx.InputCount() == len(tx.MsgTx.TxIn) && tx.OutputCount() == len(tx.MsgTx.TxOut), "the counts are right")
	signed := true
	for i, in := range insOf(tx) {
		sym.Assert(tx.Input(i) == tx.MsgTx.TxIn[i], "the input is the one at the index")
		o, err := tx.InputOutput(i)
		sym.Assert(err == nil && o.Value == in.value && bytes.Equal(o.LockingScript, in.script),
			"the spent output is the one at the index")
		sym.Assert(tx.InputIsSigned(i) == (len(in.unlock) > 0), "an input is signed when it has an unlocking script")
		signed = signed && len(in.unlock) > 0
		addressIs(tx.InputAddress(i))(in.script)
	}
	sym.Assert(tx.AllInputsAreSigned() == signed, "all are signed when each is")
	for i, o := range outsOf(tx) {
		sym.Assert(tx.Output(i) == tx.MsgTx.TxOut[i], "the output is the one at the index")
		ra, err := tx.OutputAddress(i)
		if err == nil {
			addressIs(ra, err)(o.script)
		}
	}
	sym.Reach("compared")
}

// addressIs gives a function that asserts that the address is that of the script.
func addressIs(ra bitcoin.RawAddress, err error) func(bitcoin.Script) {
	return func(s bitcoin.Script) {
		sym.Assert(err == nil, "a script paying to keys has an address")
		back, err := ra.LockingScript()
		sym.Assert(err == nil && bytes.Equal(back, s), "the address is that of the script at the index")
	}
}
