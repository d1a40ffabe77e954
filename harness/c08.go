package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// firstChange is the index of the first change output, or -1.
func firstChange(outs []outState) int {
	for i, o := range outs {
		if o.remainder {
			return i
		}
	}
	return -1
}

// cost is what it takes to create and to spend an output.
func cost(script bitcoin.Script, feeRate float32) uint64 {
	o, i, _ := txbuilder.OutputTotalCost(script, feeRate)
	return o + i
}

// feeTx is a builder with one input of any value, up to maxOuts outputs of which any may be change,
// and maybe a change script.
func feeTx(maxOuts int) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(anyRate("fee"), 0.5)
	putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: sym.U64R("in", 0, maxMoney)})
	n := sym.Choose("outs", maxOuts+1)
	for i := 0; i < n; i++ {
		kind := (i * 2) % 5
		if i == 0 && sym.Bool("data") {
			kind = 1
		}
		putOut(tx, outState{
			value:     sym.U64R(name("value", i), 0, maxMoney),
			script:    scriptOf(kind, byte(0x10+i)),
			remainder: sym.Bool(name("remainder", i)),
			dust:      sym.Bool(name("dust", i)),
			key:       name("key", i),
		})
	}
	if sym.Bool("changescript") {
		tx.ChangeScript = scriptOf([]int{0, 3, 2}[sym.Choose("changekind", 3)], 0x55)
		tx.ChangeKeyID = "change"
		if n > 0 && sym.Bool("changepaid") {
			tx.ChangeScript = tx.MsgTx.TxOut[n-1].LockingScript.Copy()
		}
	}
	tx.SendMax = sym.Bool("sendmax")
	if sym.Bool("spare") {
		spare(tx)
	}
	return tx
}

// checkAdjust asserts the rule for one adjustment. added tells which change output an earlier
// adjustment may have added, or -1.
func checkAdjust(tx *txbuilder.TxBuilder, before []outState, ins []inState, sizeBefore int,
	amount int64, added int, done bool, err error) {

	after := outsOf(tx)
	sym.Assert(sameIns(ins, insOf(tx)), "inputs are untouched")
	at := firstChange(before)
	if amount == 0 {
		sym.Assert(err == nil && done, "nothing to do")
		sym.Assert(sameOuts(before, after), "an adjustment of zero changes nothing")
		return
	}
	if err != nil {
		sym.Assert(sameOuts(before, after), "a failed adjustment changes nothing")
		if amount > 0 {
			sym.Assert(is(err, txbuilder.ErrInsufficientValue), "raising fails for lack of change only")
			if at >= 0 {
				v := before[at].value
				sym.Assert(sym.Or(v < uint64(amount), v-uint64(amount) < cost(before[at].script, tx.FeeRate)),
					"raising fails only when change cannot cover it")
				sym.Reach("cannot cover")
			}
			return
		}
		sym.Assert(at < 0 && len(tx.ChangeScript) == 0 && is(err, txbuilder.ErrChangeAddressNeeded),
			"lowering fails only for lack of a change address")
		sym.Assert(uint64(-amount) > txbuilder.EstimatedFeeValue(34+149, float64(tx.FeeRate)),
			"a change address is asked for only when change is worth having")
		sym.Reach("T:address needed")
		return
	}
	if amount > 0 {
		sym.Assert(at >= 0, "raising needs a change output")
		if at < 0 {
			return
		}
		v := before[at].value
		sym.Assert(v >= uint64(amount), "raising takes no more than there is")
		if len(after) == len(before) {
			exp := append([]outState{}, before...)
			exp[at].value, exp[at].dust = v-uint64(amount), after[at].dust
			sym.Assert(sameOuts(exp, after), "raising takes exactly the amount from the first change output")
			sym.Assert(exp[at].value >= cost(before[at].script, tx.FeeRate), "change that is kept is worth it")
			sym.Reach("raised")
			return
		}
		sym.Assert(at == added, "only an output added by an adjustment is dropped")
		sym.Assert(done, "dropping change ends the adjustments")
		sym.Assert(v-uint64(amount) < cost(before[at].script, tx.FeeRate), "only change that is not worth it is dropped")
		exp := append(append([]outState{}, before[:at]...), before[at+1:]...)
		sym.Assert(sameOuts(exp, after), "dropping change leaves the other outputs")
		return
	}
	if at >= 0 {
		exp := append([]outState{}, before...)
		exp[at].value += uint64(-amount)
		exp[at].dust = len(after) > at && after[at].dust
		sym.Assert(sameOuts(exp, after), "lowering adds exactly the amount to the first change output")
		sym.Assert(!done, "more adjustments are possible with a change output")
		sym.Reach("lowered")
		return
	}
	if len(after) == len(before) {
		sym.Assert(sameOuts(before, after), "an amount left with the miner changes nothing")
		sym.Assert(done, "leaving the amount with the miner ends the adjustments")
		script := tx.ChangeScript
		if len(script) > 0 {
			// one satoshi for rounding the fee of the new output
			sym.Assert(uint64(-amount) <= 1+txbuilder.LockingScriptOutputFee(script, tx.FeeRate)+
				cost(script, tx.FeeRate), "only an amount not worth an output is left with the miner")
		} else {
			sym.Assert(uint64(-amount) <= 3+3*cost(p2pkh(1), tx.FeeRate),
				"only an amount not worth an output is left with the miner when there is no address")
		}
		sym.Reach("left")
		return
	}
	sym.Assert(len(after) == len(before)+1, "one output is added")
	last := after[len(after)-1]
	sym.Assert(sameOuts(before, after[:len(before)]), "adding change leaves the other outputs")
	want := outState{script: tx.ChangeScript, value: last.value, remainder: true, key: tx.ChangeKeyID}
	sym.Assert(sameOut(last, want), "the added output pays the change script")
	fee := txbuilder.EstimatedFeeValue(uint64(tx.EstimatedSize()), float64(tx.FeeRate)) -
		txbuilder.EstimatedFeeValue(uint64(sizeBefore), float64(tx.FeeRate))
	sym.Assert(last.value+fee == uint64(-amount), "the added output gets the amount less its own fee")
	sym.Assert(last.value > cost(tx.ChangeScript, tx.FeeRate), "change that is added is worth it")
	sym.Assert(!done, "more adjustments are possible with added change")
	sym.Reach("added")
}

// C08_Once: one input of any value, 0 to 3 outputs of any value (thorough: 4) of which any may be
// change, with no change script, one of 3 kinds or that of the last output; sending the maximum or
// not; any adjustment up to the money supply in either
// direction; fee rates from 5 bands including every multiple of 1/1024 up to 8.
func C08_Once() {
	outs := 3
	if sym.Thorough() {
		outs = 4
	}
	tx := feeTx(outs)
	before, ins := outsOf(tx), insOf(tx)
	size := tx.EstimatedSize()
	amount := sym.I64R("amount", -maxMoney, maxMoney)
	done, err := tx.AdjustFee(amount)
	checkAdjust(tx, before, ins, size, amount, -1, done, err)
	for _, o := range tx.MsgTx.TxOut {
		sym.Observe("out", o.Value)
	}
}

// C08_History: up to 3 adjustments (thorough: 4) of any amount in a row, starting without change,
// with a change script of 2 kinds and 0 or 1 payments, and maybe a payment added before or after the
// others between the first two adjustments; fee rates as before.
func C08_History() {
	tx := txbuilder.NewTxBuilder(anyRate("fee"), 0.5)
	putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: maxMoney})
	if sym.Bool("payment") {
		putOut(tx, outState{value: 1000, script: p2pkh(9), key: "pay"})
	}
	tx.ChangeScript = scriptOf([]int{0, 4}[sym.Choose("changekind", 2)], 0x55)
	tx.ChangeKeyID = "change"
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	added := -1
	for i := 0; i < steps; i++ {
		before, ins := outsOf(tx), insOf(tx)
		size := tx.EstimatedSize()
		amount := sym.I64R(name("amount", i), -maxMoney, maxMoney)
		done, err := tx.AdjustFee(amount)
		checkAdjust(tx, before, ins, size, amount, added, done, err)
		if err == nil && len(tx.Outputs) < len(before) {
			added = -1
			sym.Reach("dropped")
		}
		if len(tx.Outputs) > len(before) {
			added = len(before)
		}
		if i > 0 {
			continue
		}
		switch sym.Choose("more", 3) {
		case 1:
			putOut(tx, outState{value: sym.U64R("later", 0, maxMoney), script: p2pkh(8), key: "later"})
		case 2:
			putOut(tx, outState{value: sym.U64R("later", 0, maxMoney), script: p2pkh(8), key: "earlier"})
			for j := len(tx.Outputs) - 1; j > 0; j-- {
				tx.Outputs[j], tx.Outputs[j-1] = tx.Outputs[j-1], tx.Outputs[j]
				tx.MsgTx.TxOut[j], tx.MsgTx.TxOut[j-1] = tx.MsgTx.TxOut[j-1], tx.MsgTx.TxOut[j]
			}
			if added >= 0 {
				added++
			}
		}
	}
	for _, o := range tx.MsgTx.TxOut {
		sym.Observe("out", o.Value)
	}
}

// C08_Zero: the same transactions as for one adjustment, made to pay no fee.
func C08_Zero() {
	tx := feeTx(2)
	before, ins := outsOf(tx), insOf(tx)
	size := tx.EstimatedSize()
	amount := -tx.ActualFee()
	err := tx.ZeroizeFee()
	checkAdjust(tx, before, ins, size, amount, -1, err == nil && len(tx.Outputs) == len(before) &&
		(amount == 0 || firstChange(before) < 0), err)
	if err == nil && firstChange(before) >= 0 {
		sym.Assert(tx.ActualFee() == 0, "the fee is zero when there is change")
		sym.Reach("zero")
	}
}
