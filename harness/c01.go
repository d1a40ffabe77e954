package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// looseHash is a transaction ID with the given number of arbitrary bytes at either end.
func looseHash(name string) bitcoin.Hash32 {
	h := hashOf(0x42)
	h[0] = sym.Byte(name + ".first")
	h[31] = sym.Byte(name + ".last")
	return h
}

// distinctIns puts n inputs of arbitrary content and pairwise different outpoints in the builder.
func distinctIns(tx *txbuilder.TxBuilder, n int) {
	for i := 0; i < n; i++ {
		in := inState{
			hash:   looseHash(name("hash", i)),
			index:  sym.U32(name("index", i)),
			seq:    sym.U32(name("seq", i)),
			script: scriptOf(i%3, byte(0x20+i)),
			value:  sym.U64R(name("invalue", i), 0, maxMoney),
			key:    string(sym.Bytes(name("inkey", i), 1-i%2)),
		}
		in.script[3] = sym.Byte(name("inscript", i))
		for j := 0; j < i; j++ {
			o := tx.MsgTx.TxIn[j].PreviousOutPoint
			sym.Assume(!sym.And(o.Hash == in.hash, o.Index == in.index))
		}
		putIn(tx, in)
	}
}

// C01_Op: a builder with 0 to 3 inputs with different outpoints (2 hash bytes and the index
// arbitrary) and arbitrary value, sequence, script byte and key of 0 or 1 characters; one operation (add UTXO, add
// outpoint, insert, update, remove) at any index up to one past the valid ones with an arbitrary
// UTXO. Every history is covered as each step starts from any such state.
func C01_Op() {
	n := sym.Choose("n", 4)
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	distinctIns(tx, n)
	anyOuts(tx, 1)
	if sym.Bool("spare") {
		spare(tx)
	}
	before := insOf(tx)
	outs := outsOf(tx)

	script := p2pkh(0x55)
	script[7] = sym.Byte("script")
	utxo := bitcoin.UTXO{
		Hash:          looseHash("hash"),
		Index:         sym.U32("index"),
		Value:         sym.U64R("value", 0, maxMoney),
		LockingScript: script,
		KeyID:         string(sym.Bytes("key", sym.Choose("keylen", 2))),
	}
	added := inState{hash: utxo.Hash, index: utxo.Index, seq: 0xffffffff, script: script,
		value: utxo.Value, key: utxo.KeyID}

	op := sym.Choose("op", 5)
	at := n
	var err error
	switch op {
	case 0:
		err = tx.AddInputUTXO(utxo)
	case 1:
		err = tx.AddInput(wire.OutPoint{Hash: utxo.Hash, Index: utxo.Index}, script, utxo.Value)
		added.key = ""
	case 2:
		at = sym.Choose("at", n+2)
		err = tx.InsertInput(at, utxo)
	case 3:
		at = sym.Choose("at", n+2)
		err = tx.UpdateInputUTXO(at, utxo)
	case 4:
		at = sym.Choose("at", n+2)
		err = tx.RemoveInput(at)
	}
	after := insOf(tx)
	sym.Assert(sameOuts(outs, outsOf(tx)), "input operations leave outputs alone")

	duplicate := false
	for i, in := range before {
		if op != 3 || i != at {
			duplicate = sym.Or(duplicate, sym.And(in.hash == utxo.Hash, in.index == utxo.Index))
		}
	}
	past := at > n || (op >= 3 && at == n)
	if err != nil {
		sym.Assert(sameIns(before, after), "a rejected operation changes nothing")
	}
	if past {
		sym.Assert(err != nil, "an index past the end is an error")
		sym.Reach("past the end")
		return
	}
	if op == 4 {
		sym.Assert(err == nil, "removing an existing input works")
		exp := append(append([]inState{}, before[:at]...), before[at+1:]...)
		sym.Assert(sameIns(exp, after), "removing drops exactly the addressed input")
		sym.Reach("removed")
		return
	}
	if err != nil {
		sym.Assert(is(err, txbuilder.ErrDuplicateInput), "only duplicates are rejected")
		sym.Assert(duplicate, "an outpoint that is not spent yet is accepted")
		sym.Reach("duplicate")
		return
	}
	sym.Assert(!duplicate, "a duplicate is rejected")
	var exp []inState
	exp = append(exp, before[:at]...)
	if op == 3 {
		added.seq = before[at].seq
		exp = append(exp, added)
		exp = append(exp, before[at+1:]...)
		sym.Reach("updated")
	} else {
		exp = append(exp, added)
		exp = append(exp, before[at:]...)
		sym.Reach("added")
	}
	sym.Assert(sameIns(exp, after), "the input is at its place with its data and others are untouched")
	sym.Observe("in", after[at].value, after[at].index)
}

// C01_History: 3 (thorough: 4) operations in a row on an empty builder, each any of add UTXO, add
// outpoint, insert, update and remove at any index, with arbitrary outpoint indexes and values, and
// checked against a list model after every step.
func C01_History() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	var model []inState
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for step := 0; step < steps; step++ {
		utxo := bitcoin.UTXO{
			Hash:          hashOf(byte(sym.Choose(name("tx", step), 2))),
			Index:         sym.U32(name("index", step)),
			Value:         sym.U64R(name("value", step), 0, maxMoney),
			LockingScript: p2pkh(byte(step)),
			KeyID:         []string{name("key", step), ""}[sym.Choose(name("keyless", step), 2)],
		}
		add := inState{hash: utxo.Hash, index: utxo.Index, seq: 0xffffffff,
			script: utxo.LockingScript, value: utxo.Value, key: utxo.KeyID}
		op := sym.Choose(name("op", step), 5)
		at := len(model)
		if op >= 2 {
			at = sym.Choose(name("at", step), len(model)+2)
		}
		var err error
		switch op {
		case 0:
			err = tx.AddInputUTXO(utxo)
		case 1:
			err = tx.AddInput(wire.OutPoint{Hash: utxo.Hash, Index: utxo.Index},
				utxo.LockingScript, utxo.Value)
			add.key = ""
		case 2:
			err = tx.InsertInput(at, utxo)
		case 3:
			err = tx.UpdateInputUTXO(at, utxo)
		case 4:
			err = tx.RemoveInput(at)
		}
		bad := at > len(model) || (op >= 3 && at == len(model))
		if op != 4 {
			for i, in := range model {
				if op != 3 || i != at {
					if in.hash == utxo.Hash && in.index == utxo.Index {
						bad = true
					}
				}
			}
		}
		sym.Assert((err != nil) == bad, "exactly duplicates and bad indexes are rejected")
		if !bad {
			switch op {
			case 3:
				model = append(append(append([]inState{}, model[:at]...), add), model[at+1:]...)
			case 4:
				model = append(append([]inState{}, model[:at]...), model[at+1:]...)
			default:
				model = append(append(append([]inState{}, model[:at]...), add), model[at:]...)
			}
		}
		sym.Assert(sameIns(model, insOf(tx)), "the inputs follow the history")
	}
	sym.Reach("done")
}
