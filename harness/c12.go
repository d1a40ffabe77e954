package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// C12_Max: 0 or 1 inputs and 0 or 1 payments of any value (thorough: 2), a maximum output given as
// address or script of 2 kinds, before or after the payments, change script set or not; 1 to 2
// coins of any value (thorough: 3) of 2 kinds with any outpoint index so that they may repeat,
// funded with or without breaking up change; fee rates 0.05 and every multiple of 1/1024 up to 8.
func C12_Max() {
	maxOuts, maxCoins := 1, 2
	if sym.Thorough() {
		maxOuts, maxCoins = 2, 3
	}
	fee := float32(0.05)
	if sym.Bool("anyfee") {
		fee = rate("fee", 0, 1<<13, 10)
	}
	dust := float32(0)
	if sym.Thorough() && sym.Bool("dust") {
		dust = 0.5
	}
	tx := txbuilder.NewTxBuilder(fee, dust)
	if sym.Bool("input") {
		putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: sym.U64R("in", 1, maxMoney)})
	}
	if sym.Bool("changescript") {
		tx.ChangeScript = p2pkh(0x55)
	}
	max := bitcoin.Script(scriptOf([]int{0, 4}[sym.Choose("kind", 2)], 0x66))
	payments := sym.Choose("outs", maxOuts+1)
	at := payments
	if sym.Bool("first") {
		at = 0
	}
	others := uint64(0)
	for i := 0; i <= payments; i++ {
		if i == at {
			var err error
			if sym.Bool("address") {
				ra, e := bitcoin.RawAddressFromLockingScript(max)
				if e != nil {
					panic(e)
				}
				err = tx.AddMaxOutput(ra)
			} else {
				err = tx.AddMaxScriptOutput(max)
			}
			sym.Assert(err == nil, "adding the maximum output works")
			sym.Assert(tx.SendMax, "the builder is set to send the maximum")
		}
		if i < payments {
			v := sym.U64R(name("value", i), 0, maxMoney)
			putOut(tx, outState{value: v, script: p2pkh(byte(0x10 + i)), dust: sym.Bool(name("dust", i)), key: name("key", i)})
			others += v
		}
	}
	utxos := coins(1+sym.Choose("coins", maxCoins), []int{0, 3})
	checkMax(tx, at, max, others, utxos)
}

// C12_Mixed: 2 inputs, a maximum output before, between or after 2 payments, all of any value; 1 to 3
// coins of any value which may repeat, funded with or without breaking up change; fee rate 0.5.
func C12_Mixed() {
	tx := txbuilder.NewTxBuilder(0.5, 0)
	for i := 0; i < 2; i++ {
		putIn(tx, inState{hash: hashOf(byte(1 + i)), index: 3, script: p2pkh(5), value: sym.U64R(name("in", i), 1, maxMoney)})
	}
	tx.ChangeScript = p2pkh(0x55)
	at := sym.Choose("at", 3)
	others := uint64(0)
	for i := 0; i < 3; i++ {
		if i == at {
			sym.Assert(tx.AddMaxScriptOutput(p2pkh(0x66)) == nil, "adding the maximum output works")
			continue
		}
		v := sym.U64R(name("value", i), 0, maxMoney)
		putOut(tx, outState{value: v, script: scriptOf(i%2, byte(0x10+i)), dust: sym.Bool(name("dust", i))})
		others += v
	}
	checkMax(tx, at, p2pkh(0x66), others, coins(1+sym.Choose("coins", 3), []int{0}))
}

// checkMax funds the transaction with the maximum output at the given index and other outputs of the
// given value.
func checkMax(tx *txbuilder.TxBuilder, at int, max bitcoin.Script, others uint64, utxos []bitcoin.UTXO) {
	f := newFunding(tx, utxos)
	sym.Assert(sameOut(f.outs[at], outState{script: max, remainder: true}), "the maximum output starts empty")
	var err error
	if sym.Bool("broken") {
		list, _ := changeList(1)
		err = tx.AddFundingBreakChange(utxos, 1000, list)
	} else {
		err = tx.AddFunding(utxos)
	}

	// exact fee for everything
	size := uint64(10)
	in := f.have(len(f.added))
	for _, i := range append(append([]inState{}, f.ins...), f.added...) {
		n, e := txbuilder.InputSize(i.script)
		if e != nil {
			panic(e)
		}
		size += uint64(n)
	}
	for _, o := range f.outs {
		size += uint64(8 + varInt(len(o.script)) + len(o.script))
	}
	need := txbuilder.EstimatedFeeValue(size, float64(tx.FeeRate))
	worth := cost(max, tx.FeeRate)
	if err != nil {
		sym.Assert(is(err, txbuilder.ErrInsufficientValue), "sending the maximum fails only for lack of value")
		sym.Assert(in < others+need+worth, "sending the maximum works whenever something is left to send")
		sym.Reach("insufficient")
		return
	}
	ins, outs := insOf(tx), outsOf(tx)
	sym.Assert(sameIns(append(append([]inState{}, f.ins...), f.added...), ins), "every coin is spent once")
	exp := append([]outState{}, f.outs...)
	exp[at].value = in - others - need
	sym.Assert(in >= others+need, "sending the maximum leaves the fee")
	sym.Assert(sameOuts(exp, outs), "the maximum output gets everything but payments and fee")
	sym.Reach("sent")
	sym.Observe("max", outs[at].value)
}
