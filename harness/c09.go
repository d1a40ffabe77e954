package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// C09_Totals: 0 to 2 inputs (thorough: 3), each known with any value, unknown with embedded data
// for any size of 2 bytes and value of 6 bytes, or unknown without; 0 to 2 outputs of any value and
// any mix of change; fee rates 0, 0.05, 0.5, 1 and every multiple of 1/1024 up to 8.
func C09_Totals() {
	tx := txbuilder.NewTxBuilder(anyRate("fee"), 0.5)
	tx.SendMax = sym.Bool("sendmax")
	maxIns := 2
	if sym.Thorough() {
		maxIns = 3
	}
	ins := sym.Choose("ins", maxIns+1)
	in := uint64(0)
	known := true
	for i := 0; i < ins; i++ {
		s := inState{hash: hashOf(byte(i + 1)), index: uint32(i)}
		switch sym.Choose(name("kind", i), 3) {
		case 0:
			s.script = scriptOf(i%2*3, 7)
			s.value = sym.U64R(name("in", i), 0, maxMoney)
			in += s.value
			if s.value == 0 {
				known = false
			}
		case 1:
			v := uint64(0)
			s.unlock, _, v = embedded(name("data", i), 2, 6)
			in += v
		case 2:
			known = false
		}
		putIn(tx, s)
	}
	outs := sym.Choose("outs", 3)
	out, change, reclaim := uint64(0), uint64(0), uint64(0)
	for i := 0; i < outs; i++ {
		v := sym.U64R(name("out", i), 0, maxMoney)
		r := sym.Bool(name("remainder", i))
		s := scriptOf([]int{i * 5, 1}[sym.Choose(name("outkind", i), 2)], 9)
		putOut(tx, outState{value: v, script: s, remainder: r, dust: sym.Bool(name("dust", i)), key: name("key", i)})
		out += v
		if r {
			change += v
			reclaim += v + txbuilder.EstimatedFeeValueDown(uint64(8+varInt(len(s))+len(s)), float64(tx.FeeRate))
		}
	}
	sym.Assert(tx.InputValue() == in, "the input value is the sum over the inputs")
	sym.Assert(tx.OutputValue(true) == out, "the output value is the sum over the outputs")
	sym.Assert(tx.OutputValue(false) == out-change, "the output value without change leaves change out")
	sym.Assert(tx.ActualFee() == int64(in)-int64(out), "the actual fee is inputs minus outputs")
	sym.Assert(tx.Fee() == sym.IteU64(out > in, 0, in-out), "the fee is inputs minus outputs or zero")
	sym.Assert(tx.Remainder() == reclaim, "the remainder is change plus what its outputs cost")
	sym.Assert(fees.OutputsValue(tx) == out, "the standalone output value is the sum over the outputs")
	if known {
		sym.Reach("known")
	}
	sym.Observe("totals", in, out, change, reclaim)
}

// checkCalculated asserts the rule for calculating the fee.
func checkCalculated(tx *txbuilder.TxBuilder, before []outState, ins []inState, fee, est int64, err error) {
	sym.Assert(sameIns(ins, insOf(tx)), "inputs are untouched")
	at := firstChange(before)
	if err != nil {
		sym.Assert(sameOuts(before, outsOf(tx)), "a failed calculation changes nothing")
		if is(err, txbuilder.ErrInsufficientValue) {
			sym.Assert(fee < est, "a transaction that pays enough is not insufficient")
			if at >= 0 && fee < est {
				v, need := before[at].value, uint64(est-fee)
				sym.Assert(sym.Or(v < need, v-need < cost(before[at].script, tx.FeeRate)),
					"it is insufficient only when change cannot cover the fee")
			}
			sym.Reach("insufficient")
			return
		}
		sym.Assert(is(err, txbuilder.ErrChangeAddressNeeded), "the only other error is a missing change address")
		sym.Assert(at < 0 && len(tx.ChangeScript) == 0 && fee > est, "a change address is asked for only without change")
		sym.Reach("T:address")
		return
	}
	after := tx.EstimatedFee()
	sym.Assert(tx.ActualFee() >= int64(after), "the calculated fee is enough")
	if firstChange(outsOf(tx)) >= 0 {
		sym.Assert(tx.Fee() == after, "the calculated fee is the estimated fee when there is change")
		sym.Reach("exact")
		return
	}
	limit := uint64(0)
	if len(tx.ChangeScript) > 0 {
		limit = cost(tx.ChangeScript, tx.FeeRate) + txbuilder.LockingScriptOutputFee(tx.ChangeScript, tx.FeeRate)
	} else {
		limit = 3 * cost(p2pkh(1), tx.FeeRate)
	}
	// a longer output count and rounding
	limit += txbuilder.EstimatedFeeValue(2, float64(tx.FeeRate)) + 3
	sym.Assert(tx.Fee()-after <= limit, "the calculated fee is higher only by what is not worth an output")
	sym.Reach("left")
}

// C09_Calculate: transactions as for one fee adjustment: one input of any value, 0 to 3 outputs
// (thorough: 4), any mix of change, change script absent, of 3 kinds or that of the last output.
func C09_Calculate() {
	outs := 3
	if sym.Thorough() {
		outs = 4
	}
	tx := feeTx(outs)
	before, ins := outsOf(tx), insOf(tx)
	fee, est := tx.ActualFee(), int64(tx.EstimatedFee())
	err := tx.CalculateFee()
	checkCalculated(tx, before, ins, fee, est, err)
	for _, o := range tx.MsgTx.TxOut {
		sym.Observe("out", o.Value)
	}
}

// C09_Again: one input of any value and no outputs, a change script of 2 kinds; the fee is
// calculated, a payment of any value is added and the fee is calculated again, twice.
func C09_Again() {
	tx := txbuilder.NewTxBuilder(anyRate("fee"), 0.5)
	tx.SendMax = sym.Bool("sendmax")
	putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: sym.U64R("in", 0, maxMoney)})
	tx.ChangeScript = scriptOf([]int{0, 4}[sym.Choose("changekind", 2)], 0x55)
	for i := 0; i < 3; i++ {
		if i > 0 {
			putOut(tx, outState{value: sym.U64R(name("pay", i), 0, maxMoney), script: p2pkh(byte(i))})
		}
		before, ins := outsOf(tx), insOf(tx)
		fee, est := tx.ActualFee(), int64(tx.EstimatedFee())
		err := tx.CalculateFee()
		checkCalculated(tx, before, ins, fee, est, err)
		if len(tx.Outputs) < len(before) {
			sym.Reach("dropped")
		}
	}
	for _, o := range tx.MsgTx.TxOut {
		sym.Observe("out", o.Value)
	}
}

// C09_Many: 251 or 252 payments, one input of any value, a change script, so that adding change
// makes the count of outputs longer; fee rates as before.
func C09_Many() {
	tx := txbuilder.NewTxBuilder(anyRate("fee"), 0.5)
	tx.SendMax = sym.Bool("sendmax")
	putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: sym.U64R("in", 0, maxMoney)})
	n := 251 + sym.Choose("outs", 2)
	for i := 0; i < n; i++ {
		putOut(tx, outState{value: 1, script: p2pkh(1)})
	}
	tx.ChangeScript = p2pkh(2)
	before, ins := outsOf(tx), insOf(tx)
	fee, est := tx.ActualFee(), int64(tx.EstimatedFee())
	err := tx.CalculateFee()
	checkCalculated(tx, before, ins, fee, est, err)
	sym.Observe("fee", tx.Fee())
}
