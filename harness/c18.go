package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// whole is everything a builder holds.
type whole struct {
	ins      []inState
	outs     []outState
	version  int32
	locktime uint32
	change   []byte
	key      string
	rate     float32
	dust     float32
	max      bool
}

func wholeOf(tx *txbuilder.TxBuilder) whole {
	return whole{insOf(tx), outsOf(tx), tx.MsgTx.Version, tx.MsgTx.LockTime, clone(tx.ChangeScript),
		tx.ChangeKeyID, tx.FeeRate, tx.DustFeeRate, tx.SendMax}
}

func sameWhole(a, b whole) bool {
	return sym.And(sameIns(a.ins, b.ins), sameOuts(a.outs, b.outs), a.version == b.version,
		a.locktime == b.locktime, bytes.Equal(a.change, b.change), a.key == b.key, a.rate == b.rate,
		a.dust == b.dust, a.max == b.max)
}

func anyText(tag string) string { return string(sym.Bytes(tag, sym.Choose(tag+".len", 2)*2)) }

// anyBuilder has up to 3 inputs and 3 outputs with every field arbitrary.
func anyBuilder() *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(rate("fee", 0, 1<<13, 10), rate("dustfee", 0, 1<<13, 10))
	tx.MsgTx.Version, tx.MsgTx.LockTime = sym.I32("version"), sym.U32("locktime")
	ins, outs := sym.Choose("ins", 4), sym.Choose("outs", 4)
	for i := 0; i < ins; i++ {
		h := hashOf(byte(i))
		h[7] = sym.Byte(name("hash", i))
		putIn(tx, inState{hash: h, index: sym.U32(name("index", i)), seq: sym.U32(name("seq", i)),
			unlock: sym.Bytes(name("unlock", i), i*3), script: sym.Bytes(name("spent", i), []int{2, 0, 1}[i]),
			value: sym.U64(name("worth", i)), key: string(sym.Bytes(name("inkey", i), 2))})
	}
	for i := 0; i < outs; i++ {
		putOut(tx, outState{value: sym.U64(name("value", i)), script: sym.Bytes(name("script", i), 3-i),
			remainder: sym.Bool(name("remainder", i)), dust: sym.Bool(name("dust", i)),
			key: string(sym.Bytes(name("outkey", i), 2))})
	}
	tx.ChangeScript = sym.Bytes("change", 2)
	tx.ChangeKeyID = anyText("changekey")
	tx.SendMax = sym.Bool("max")
	if sym.Bool("spare") {
		spare(tx)
	}
	return tx
}

// change makes one arbitrary modification, directly or through an operation of the builder.
func change(tx *txbuilder.TxBuilder) {
	ins, outs := len(tx.MsgTx.TxIn), len(tx.MsgTx.TxOut)
	i, o := 0, 0
	k := sym.Choose("edit", 26)
	if k < 9 {
		sym.Assume(ins > 0)
		i = sym.Choose("edit.in", ins)
	} else if k < 17 {
		sym.Assume(outs > 0)
		o = sym.Choose("edit.out", outs)
	}
	flip := func(b []byte) {
		sym.Assume(len(b) > 0)
		b[sym.Choose("edit.byte", len(b))] ^= 0xff
	}
	switch k {
	case 0:
		tx.MsgTx.TxIn[i].PreviousOutPoint.Hash[7] ^= 0xff
	case 1:
		tx.MsgTx.TxIn[i].PreviousOutPoint.Index++
	case 2:
		tx.MsgTx.TxIn[i].Sequence++
	case 3:
		flip(tx.MsgTx.TxIn[i].UnlockingScript)
	case 4:
		flip(tx.Inputs[i].LockingScript)
	case 5:
		tx.Inputs[i].Value++
	case 6:
		tx.Inputs[i].KeyID = "other"
	case 7:
		tx.MsgTx.TxIn[i], tx.Inputs[i] = &wire.TxIn{}, &txbuilder.InputSupplement{}
	case 8:
		sym.Assert(tx.RemoveInput(i) == nil, "an input can be removed")
	case 9:
		tx.MsgTx.TxOut[o].Value++
	case 10:
		flip(tx.MsgTx.TxOut[o].LockingScript)
	case 11:
		tx.Outputs[o].IsRemainder = !tx.Outputs[o].IsRemainder
	case 12:
		tx.Outputs[o].IsDust = !tx.Outputs[o].IsDust
	case 13:
		tx.Outputs[o].KeyID = "other"
	case 14:
		tx.MsgTx.TxOut[o], tx.Outputs[o] = &wire.TxOut{}, &txbuilder.OutputSupplement{}
	case 15:
		sym.Assert(tx.RemoveOutput(o) == nil, "an output can be removed")
	case 16:
		sym.Assert(tx.UpdateOutput(uint32(o), p2pkh(3)) == nil, "an output can be replaced")
	case 17:
		flip(tx.ChangeScript)
	case 18:
		tx.ChangeScript, tx.ChangeKeyID = p2pkh(4), "other"
	case 19:
		tx.FeeRate, tx.DustFeeRate = 11, 12
	case 20:
		tx.SendMax = !tx.SendMax
	case 21:
		tx.MsgTx.Version, tx.MsgTx.LockTime = tx.MsgTx.Version+1, tx.MsgTx.LockTime+1
	case 22:
		putIn(tx, inState{hash: hashOf(8), script: p2pkh(8), value: 8})
		putOut(tx, outState{value: 9, script: p2pkh(9)})
	case 23:
		sym.Assert(tx.AddInputUTXO(bitcoin.UTXO{Hash: hashOf(8), Value: 8, LockingScript: p2pkh(8)}) == nil,
			"an input can be added")
	case 24:
		sym.Assert(tx.InsertOutput(0, p2pkh(9), 99999, false, false) == nil, "an output can be inserted")
	case 25:
		tx.MsgTx = &wire.MsgTx{}
		tx.Inputs, tx.Outputs = nil, nil
	}
}

// C18_Copy: a builder with up to 3 inputs and 3 outputs and every field arbitrary is copied, then
// either of the two is modified in any one field, entry or byte or by one operation.
func C18_Copy() {
	tx := anyBuilder()
	before := wholeOf(tx)
	c := tx.Copy()
	sym.Assert(sameWhole(before, wholeOf(tx)), "copying changes nothing")
	sym.Assert(sameWhole(before, wholeOf(&c)), "the copy equals the original")
	if sym.Bool("which") {
		change(tx)
		sym.Assert(sameWhole(before, wholeOf(&c)), "the copy does not see a change of the original")
		sym.Reach("original changed")
	} else {
		change(&c)
		sym.Assert(sameWhole(before, wholeOf(tx)), "the original does not see a change of the copy")
		sym.Reach("copy changed")
	}
}

// C18_Both: after copying, outputs and inputs are appended to both; each keeps its own.
func C18_Both() {
	tx := anyBuilder()
	before := wholeOf(tx)
	c := tx.Copy()
	a, b := sym.U64("a"), sym.U64("b")
	putOut(tx, outState{value: a, script: p2pkh(1)})
	putOut(&c, outState{value: b, script: p2pkh(2)})
	putIn(tx, inState{hash: hashOf(8), script: p2pkh(3), value: a})
	putIn(&c, inState{hash: hashOf(9), script: p2pkh(4), value: b})
	wa, wb := before, before
	wa.outs = append(append([]outState{}, before.outs...), outState{value: a, script: p2pkh(1)})
	wb.outs = append(append([]outState{}, before.outs...), outState{value: b, script: p2pkh(2)})
	wa.ins = append(append([]inState{}, before.ins...), inState{hash: hashOf(8), script: p2pkh(3), value: a})
	wb.ins = append(append([]inState{}, before.ins...), inState{hash: hashOf(9), script: p2pkh(4), value: b})
	sym.Assert(sameWhole(wa, wholeOf(tx)), "the original has what was added to it")
	sym.Assert(sameWhole(wb, wholeOf(&c)), "the copy has what was added to it")
	sym.Reach("done")
}

// C18_Added: an output added by a fee adjustment is still known as such in the copy: any later
// adjustment does the same to the copy as to the original, and does it without touching the other.
func C18_Added() {
	tx := txbuilder.NewTxBuilder(anyRate("fee"), 0.5)
	putIn(tx, inState{hash: hashOf(1), script: p2pkh(5), value: sym.U64R("in", 0, maxMoney)})
	putOut(tx, outState{value: sym.U64R("out", 0, maxMoney), script: p2pkh(6)})
	tx.ChangeScript, tx.ChangeKeyID = p2pkh(7), "change"
	_, err := tx.AdjustFee(-sym.I64R("first", 1, maxMoney))
	sym.Assert(err == nil, "the fee can be lowered")
	c := tx.Copy()
	before := wholeOf(tx)
	amount := sym.I64R("second", -maxMoney, maxMoney)
	doneA, errA := tx.AdjustFee(amount)
	sym.Assert(sameWhole(before, wholeOf(&c)), "the copy does not see the adjustment")
	doneB, errB := c.AdjustFee(amount)
	sym.Assert(doneA == doneB && (errA == nil) == (errB == nil), "the copy adjusts like the original")
	sym.Assert(sameWhole(wholeOf(tx), wholeOf(&c)), "the copy ends up like the original")
	if len(before.outs) == 2 && len(tx.MsgTx.TxOut) == 1 {
		sym.Reach("dropped")
	}
}

// C18_Parts: copies of an input's data, an output's data and a text of 0 to 3 bytes.
func C18_Parts() {
	in := txbuilder.InputSupplement{LockingScript: sym.Bytes("script", sym.Choose("len", 4)),
		Value: sym.U64("value"), KeyID: anyText("inkey")}
	want := clone(in.LockingScript)
	a := in.Copy()
	sym.Assert(bytes.Equal(a.LockingScript, want) && a.Value == in.Value && a.KeyID == in.KeyID,
		"the copy of an input equals it")
	for i := range a.LockingScript {
		a.LockingScript[i] ^= 0xff
	}
	a.Value++
	sym.Assert(bytes.Equal(in.LockingScript, want), "the input does not see changes of its copy")
	out := txbuilder.OutputSupplement{IsRemainder: sym.Bool("remainder"), IsDust: sym.Bool("dust"),
		KeyID: anyText("outkey")}
	sym.Assert(out.Copy() == out, "the copy of an output equals it")
	s := string(sym.Bytes("text", sym.Choose("textlen", 4)))
	sym.Assert(txbuilder.CopyString(s) == s, "the copy of a text equals it")
	sym.Reach("done")
}
