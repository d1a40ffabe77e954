package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// checkSerialized compares the bytes of a builder's transaction with the given ones and decodes
// them.
func checkSerialized(tx *txbuilder.TxBuilder, want []byte) {
	before := wholeOf(tx)
	got, err := tx.Serialize()
	sym.Assert(err == nil, "serializing succeeds")
	sym.Assert(bytes.Equal(got, want), "the bytes are those of the transaction")
	sym.Assert(len(got) == tx.MsgTx.SerializeSize(), "the length is the computed size")
	id := tx.TxID()
	sym.Assert(bytes.Equal(id[:], twice(want)), "the transaction ID is the hash of the bytes")
	back := &wire.MsgTx{}
	sym.Assert(back.Deserialize(bytes.NewReader(got)) == nil, "the bytes can be decoded")
	sym.Assert(back.Version == tx.MsgTx.Version && back.LockTime == tx.MsgTx.LockTime,
		"the bytes decode to the same version and lock time")
	sym.Assert(len(back.TxIn) == len(tx.MsgTx.TxIn) && len(back.TxOut) == len(tx.MsgTx.TxOut),
		"the bytes decode to as many inputs and outputs")
	for i, in := range tx.MsgTx.TxIn {
		b := back.TxIn[i]
		sym.Assert(b.PreviousOutPoint.Hash == in.PreviousOutPoint.Hash, "the bytes decode to the same outpoint hash")
		sym.Assert(b.PreviousOutPoint.Index == in.PreviousOutPoint.Index, "the bytes decode to the same outpoint index")
		sym.Assert(b.Sequence == in.Sequence, "the bytes decode to the same sequence")
		sym.Assert(bytes.Equal(b.UnlockingScript, in.UnlockingScript), "the bytes decode to the same unlocking script")
	}
	for i, o := range tx.MsgTx.TxOut {
		sym.Assert(back.TxOut[i].Value == o.Value, "the bytes decode to the same value")
		sym.Assert(bytes.Equal(back.TxOut[i].LockingScript, o.LockingScript), "the bytes decode to the same locking script")
	}
	sym.Assert(tx.GetMsgTx() == tx.MsgTx, "the transaction is the one held")
	sym.Assert(sameWhole(before, wholeOf(tx)), "reading changes nothing")
	sym.Reach("serialized")
}

// C20_Serialize: up to 3 inputs and 3 outputs with every field arbitrary.
func C20_Serialize() {
	tx := anyBuilder()
	checkSerialized(tx, rawTx(tx.MsgTx))
}

// C20_Long: an unlocking script and a locking script of 0, 1, 252, 253 or 300 bytes, and 1, 252 or
// 253 outputs, with all numbers arbitrary.
func C20_Long() {
	lens := []int{0, 1, 252, 253, 300}
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	tx.MsgTx.Version, tx.MsgTx.LockTime = sym.I32("version"), sym.U32("locktime")
	putIn(tx, inState{hash: hashOf(1), index: sym.U32("index"), seq: sym.U32("seq"),
		unlock: opReturn(300, 4)[:lens[sym.Choose("unlock", 5)]], script: p2pkh(3), value: 5})
	putOut(tx, outState{value: sym.U64("value"), script: opReturn(300, 4)[:lens[sym.Choose("lock", 5)]]})
	n := []int{1, 252, 253}[sym.Choose("outs", 3)]
	for len(tx.Outputs) < n {
		putOut(tx, outState{value: uint64(len(tx.Outputs)), script: bitcoin.Script{0x51}})
	}
	want := le32(uint32(tx.MsgTx.Version))
	want = append(want, 1)
	want = append(want, outpoint(tx.MsgTx.TxIn[0])...)
	want = append(want, withLen(tx.MsgTx.TxIn[0].UnlockingScript)...)
	want = append(want, le32(tx.MsgTx.TxIn[0].Sequence)...)
	if n < 253 {
		want = append(want, byte(n))
	} else {
		want = append(want, 253, byte(n), byte(n>>8))
	}
	for _, o := range tx.MsgTx.TxOut {
		want = append(want, rawOut(o)...)
	}
	want = append(want, le32(tx.MsgTx.LockTime)...)
	got, err := tx.Serialize()
	sym.Assert(err == nil && bytes.Equal(got, want), "the bytes are those of the transaction")
	sym.Assert(len(got) == tx.MsgTx.SerializeSize(), "the length is the computed size")
	id := tx.TxID()
	sym.Assert(bytes.Equal(id[:], twice(want)), "the transaction ID is the hash of the bytes")
	sym.Reach("serialized")
}

// C20_Access: every index up to one past the end of up to 3 inputs and 3 outputs with every field
// arbitrary.
func C20_Access() {
	tx := anyBuilder()
	before := wholeOf(tx)
	sym.Assert(tx.InputCount() == len(before.ins) && tx.OutputCount() == len(before.outs), "the counts are right")
	signed := true
	for i, in := range before.ins {
		sym.Assert(tx.Input(i) == tx.MsgTx.TxIn[i], "the input is the one at the index")
		o, err := tx.InputOutput(i)
		if len(in.script) == 0 && in.value == 0 {
			sym.Assert(err != nil, "an unknown spent output is an error")
			sym.Reach("unknown")
		} else {
			sym.Assert(err == nil && o.Value == in.value && bytes.Equal(o.LockingScript, in.script),
				"the spent output is the one at the index")
			sym.Reach("known")
		}
		sym.Assert(tx.InputIsSigned(i) == (len(in.unlock) > 0), "an input is signed when it has an unlocking script")
		signed = signed && len(in.unlock) > 0
	}
	for i := range before.outs {
		sym.Assert(tx.Output(i) == tx.MsgTx.TxOut[i], "the output is the one at the index")
	}
	sym.Assert(tx.AllInputsAreSigned() == signed, "all are signed when each is")
	past := sym.IntR("past", 0, 1<<40)
	n, m := len(before.ins), len(before.outs)
	_, err := tx.InputOutput(n + past)
	sym.Assert(err != nil, "a spent output past the end is an error")
	_, err = tx.InputAddress(n + past)
	sym.Assert(err != nil, "an input address past the end is an error")
	_, err = tx.OutputAddress(m + past)
	sym.Assert(err != nil, "an output address past the end is an error")
	sym.Assert(!tx.InputIsSigned(n+past), "an input past the end is not signed")
	sym.Assert(sameWhole(before, wholeOf(tx)), "reading changes nothing")
}

// C20_Signed: up to 3 inputs, each with an unlocking script of 0, 1 or 2 bytes.
func C20_Signed() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	n := sym.Choose("ins", 4)
	all := true
	for i := 0; i < n; i++ {
		k := sym.Choose(name("len", i), 3)
		all = all && k > 0
		putIn(tx, inState{hash: hashOf(1), index: uint32(i), unlock: sym.Bytes(name("unlock", i), k)})
	}
	sym.Assert(tx.AllInputsAreSigned() == all, "all are signed when each is")
	for i := 0; i < n; i++ {
		sym.Assert(tx.InputIsSigned(i) == (len(tx.MsgTx.TxIn[i].UnlockingScript) > 0),
			"an input is signed when it has an unlocking script")
	}
	sym.Reach("done")
}

// addressed is a script of an address with arbitrary bytes, or one that need not have an address.
func addressed(tag string, kind int) (bitcoin.Script, bool) {
	s := scriptOf(kind, 7)
	switch kind {
	case 0:
		copy(s[3:23], sym.Bytes(tag, 20))
	case 3:
		// a fixed point of the curve
		return p2pkOf(keyOf(2)), true
	case 4:
		at := bytes.Index(s, bytes.Repeat([]byte{7}, 20))
		copy(s[at:at+20], sym.Bytes(tag, 20))
	default:
		return s, false
	}
	return s, true
}

// C20_Address: addresses of 2 inputs and 2 outputs paying any public key hash, a public key, any
// public key hashes, or something else.
func C20_Address() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	a, b := sym.Choose("a", 5), sym.Choose("b", 5)
	sa, oka := addressed("first", a)
	sb, okb := addressed("second", b)
	putIn(tx, inState{hash: hashOf(1), script: clone(sa)})
	putIn(tx, inState{hash: hashOf(2), script: clone(sb)})
	putOut(tx, outState{script: clone(sb)})
	putOut(tx, outState{script: clone(sa)})
	check := func(ra bitcoin.RawAddress, err error, s bitcoin.Script, ok bool) {
		sym.Assert(!ok || err == nil, "a script paying to keys has an address")
		if err != nil {
			sym.Reach("none")
			return
		}
		back, err := ra.LockingScript()
		sym.Assert(err == nil && bytes.Equal(back, s), "the address is that of the script at the index")
		sym.Reach("address")
	}
	ra, err := tx.InputAddress(0)
	check(ra, err, sa, oka)
	ra, err = tx.InputAddress(1)
	check(ra, err, sb, okb)
	ra, err = tx.OutputAddress(0)
	check(ra, err, sb, okb)
	ra, err = tx.OutputAddress(1)
	check(ra, err, sa, oka)
}
