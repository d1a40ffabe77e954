package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// checkFunded asserts what holds after funding succeeded.
func checkFunded(f *funding) {
	tx := f.tx
	outs, ins := outsOf(tx), insOf(tx)
	est := tx.EstimatedFee()
	in, out := uint64(0), uint64(0)
	for _, i := range ins {
		in += i.value
	}
	for _, o := range outs {
		out += o.value
	}
	sym.Assert(in >= out+est, "inputs cover outputs and the estimated fee")

	// inputs
	n := len(ins) - len(f.ins)
	sym.Assert(n >= 0 && n <= len(f.added), "inputs are only added")
	if n < 0 || n > len(f.added) {
		return
	}
	sym.Assert(sameIns(f.ins, ins[:len(f.ins)]), "existing inputs are untouched")
	sym.Assert(sameIns(f.added[:n], ins[len(f.ins):]), "inputs are added in the order offered")
	if f.funded {
		sym.Assert(n == 0, "nothing is added when already funded")
		sym.Reach("already funded")
	}
	if n > 1 {
		sym.Assert(f.have(n-1) < f.most(n-1), "no input is added once the others suffice")
	}

	// outputs
	at := firstChange(f.outs)
	sym.Assert(len(outs) == len(f.outs) || len(outs) == len(f.outs)+1, "at most one output is added")
	if len(outs) < len(f.outs) {
		return
	}
	exp := append([]outState{}, f.outs...)
	if at >= 0 {
		exp[at].value, exp[at].dust = outs[at].value, outs[at].dust
		if !f.funded {
			sym.Assert(outs[at].value >= f.outs[at].value, "change only grows when funding is added")
		}
		sym.Reach("existing change")
	}
	sym.Assert(sameOuts(exp, outs[:len(f.outs)]), "payments are untouched")
	if len(outs) > len(f.outs) {
		last := outs[len(outs)-1]
		sym.Assert(at < 0, "no change output is added next to another")
		sym.Assert(sameOut(last, outState{value: last.value, script: tx.ChangeScript, remainder: true,
			key: tx.ChangeKeyID}), "the added output pays the change script")
		if !f.funded {
			sym.Assert(last.value >= txbuilder.DustLimitForLockingScript(tx.ChangeScript, tx.DustFeeRate),
				"added change is not dust")
		}
		sym.Reach("added change")
	}

	// excess
	excess := in - out - est
	if len(outs) > len(f.outs) {
		sym.Assert(excess <= uint64(n)+1, "with added change the fee is the estimated fee up to rounding")
	} else if f.funded {
		limit := f.keepLimit()
		if at < 0 {
			script := tx.ChangeScript
			c := 3 * cost(p2pkh(1), tx.FeeRate)
			if len(script) > 0 {
				c = cost(script, tx.FeeRate) + txbuilder.LockingScriptOutputFee(script, tx.FeeRate)
			}
			limit += c
			sym.Assert(excess <= limit, "the excess of a funded transaction is not worth change")
		} else {
			sym.Assert(excess == 0, "the excess of a funded transaction goes to change")
		}
	} else {
		sym.Assert(excess <= f.keepLimit(), "the excess is not worth change")
		sym.Reach("no change")
	}
}

// C10_Fund: 0 or 1 inputs of any value, 0 or 1 outputs of any value (thorough: 2 with up to 2 coins),
// change or not, change script absent, of 2 kinds or that of the output; 0 to 2 coins of any value
// (thorough: 3) of 2 kinds with any outpoint index so that they may repeat; fee rates from 5 bands and
// dust rates from 3 including every multiple of 1/1024 up to 8.
func C10_Fund() {
	maxOuts, maxCoins := 1, 2
	if sym.Thorough() {
		maxCoins = 3
	}
	n := sym.Choose("coins", maxCoins+1)
	if sym.Thorough() && n < 3 {
		maxOuts = 2
	}
	tx := fundTx(maxOuts)
	utxos := coins(n, []int{0, 3})
	fundAndCheck(tx, utxos)
}

// C10_Mixed: 0 or 1 inputs of any value, 2 or 3 outputs of any value (thorough: 4) of which any may be
// change, a change script or none; 1 to 3 coins of any value, which may repeat; fee rate 0.5, dust
// rate 0 or 0.5.
func C10_Mixed() {
	n := 1 + sym.Choose("coins", 3)
	tx := mixedTx(0.5, []float32{0, 0.5}[sym.Choose("dustfee", 2)])
	fundAndCheck(tx, coins(n, []int{0}))
}

func fundAndCheck(tx *txbuilder.TxBuilder, utxos []bitcoin.UTXO) {
	f := newFunding(tx, utxos)
	offered := append([]bitcoin.UTXO{}, utxos...)
	if err := tx.AddFunding(utxos); err != nil {
		sym.Reach("failed")
		return
	}
	checkFunded(f)
	for i := range offered {
		sym.Assert(offered[i].Hash == utxos[i].Hash && offered[i].Index == utxos[i].Index, "the coins are untouched")
	}
	for _, o := range tx.MsgTx.TxOut {
		sym.Observe("out", o.Value)
	}
	sym.Observe("ins", len(tx.MsgTx.TxIn))
}

// C10_Counts: 251 or 252 inputs, 1 or 252 outputs, so that adding an input or change makes a count
// longer; two coins of any value, a change script, fee rates 0.05, 0.5 and 1.
func C10_Counts() {
	tx := txbuilder.NewTxBuilder([]float32{0.05, 0.5, 1}[sym.Choose("fee", 3)], 0)
	tx.ChangeScript = p2pkh(2)
	ins := 251 + sym.Choose("ins", 2)
	value := sym.U64R("in", 1, 1000)
	for i := 0; i < ins; i++ {
		putIn(tx, inState{hash: hashOf(2), index: uint32(i), script: p2pkh(5), value: value})
	}
	outs := []int{1, 252}[sym.Choose("outs", 2)]
	pay := sym.U64R("out", 1, 1000)
	for i := 0; i < outs; i++ {
		putOut(tx, outState{value: pay, script: p2pkh(1)})
	}
	var utxos []bitcoin.UTXO
	for i := 0; i < 2; i++ {
		utxos = append(utxos, bitcoin.UTXO{Hash: hashOf(3), Index: uint32(i), LockingScript: p2pkh(7),
			Value: sym.U64R(name("coin", i), 0, maxMoney)})
	}
	f := newFunding(tx, utxos)
	if err := tx.AddFunding(utxos); err != nil {
		return
	}
	// the witnesses of the other harness do not apply
	est := tx.EstimatedFee()
	sym.Assert(tx.InputValue() >= tx.OutputValue(true)+est, "inputs cover outputs and the estimated fee")
	if !f.funded {
		sym.Assert(tx.Fee()-est <= f.keepLimit(), "the excess is not worth change")
		sym.Reach("funded")
	}
	sym.Observe("fee", tx.Fee())
}

// C10_Unknown: two coins of any value, one or both paying a script of no known template, in any
// order, offered to either way of funding a payment of any value; fee rates 0.5 and 5.
func C10_Unknown() {
	sym.ShuffleMode(2)
	tx := txbuilder.NewTxBuilder([]float32{0.5, 5}[sym.Choose("fee", 2)], 0)
	tx.ChangeScript = p2pkh(2)
	putOut(tx, outState{value: sym.U64R("out", 1, maxMoney), script: p2pkh(1)})
	utxos := []bitcoin.UTXO{
		{Hash: hashOf(3), LockingScript: unknown(5, 1), Value: sym.U64R("coin0", 0, maxMoney)},
		{Hash: hashOf(4), LockingScript: p2pkh(7), Value: sym.U64R("coin1", 0, maxMoney)},
	}
	switch sym.Choose("order", 3) {
	case 1:
		utxos[0], utxos[1] = utxos[1], utxos[0]
	case 2:
		utxos[1].LockingScript = unknown(300, 2)
	}
	if sym.Choose("max", 2) == 1 {
		tx.SendMax = true
		tx.Outputs[0].IsRemainder = true
	}
	var err error
	if sym.Choose("break", 2) == 1 {
		list, _ := changeList(1)
		err = tx.AddFundingBreakChange(utxos, 1000, list)
	} else {
		err = tx.AddFunding(utxos)
	}
	if err != nil {
		sym.Reach("failed")
		return
	}
	sym.Assert(tx.InputValue() >= tx.OutputValue(true)+tx.EstimatedFee(), "inputs cover outputs and the estimated fee")
	for _, i := range tx.Inputs {
		_, err := txbuilder.InputSize(i.LockingScript)
		sym.Assert(err == nil, "a coin that has no known cost is not used")
	}
	sym.Reach("funded")
}
