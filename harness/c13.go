package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// changeList is n addresses of 2 kinds for change.
func changeList(n int) ([]txbuilder.AddressKeyID, []bitcoin.Script) {
	var list []txbuilder.AddressKeyID
	var scripts []bitcoin.Script
	for i := 0; i < n; i++ {
		s := p2pkh(byte(0x60 + i))
		if i == 1 {
			s = p2pk(0x61)
		}
		ra, err := bitcoin.RawAddressFromLockingScript(s)
		if err != nil {
			panic(err)
		}
		list = append(list, txbuilder.AddressKeyID{Address: ra, KeyID: name("change", i)})
		scripts = append(scripts, s)
	}
	return list, scripts
}

// checkBroken asserts what holds after funding with broken up change.
func checkBroken(f *funding, scripts []bitcoin.Script, err error) {
	tx := f.tx
	outs, ins := outsOf(tx), insOf(tx)
	at := firstChange(f.outs)
	firstFee, firstCost := uint64(0), uint64(0)
	if at < 0 && len(scripts) > 0 {
		firstFee = txbuilder.LockingScriptOutputFee(scripts[0], tx.FeeRate)
		firstCost = cost(scripts[0], tx.FeeRate)
	}
	if err != nil {
		if is(err, txbuilder.ErrInsufficientValue) {
			enough := f.in > f.out && f.in >= f.out+f.est+firstFee
			for i := 1; i <= len(f.added); i++ {
				enough = sym.Or(enough, f.have(i) >= f.most(i)+firstFee)
			}
			sym.Assert(!enough, "coins that suffice are not insufficient")
			sym.Reach("insufficient")
			return
		}
		sym.Assert(at < 0 && len(scripts) == 0, "coins that suffice fund the transaction")
		return
	}
	in, out := uint64(0), uint64(0)
	for _, i := range ins {
		in += i.value
	}
	for _, o := range outs {
		out += o.value
	}
	est := tx.EstimatedFee()
	sym.Assert(in >= out+est, "inputs cover outputs and the estimated fee")
	n := len(ins) - len(f.ins)
	sym.Assert(n >= 0 && n <= len(f.added), "inputs are only added")
	sym.Assert(len(outs) >= len(f.outs), "outputs are only added")
	if n < 0 || n > len(f.added) || len(outs) < len(f.outs) {
		return
	}
	sym.Assert(sameIns(f.ins, ins[:len(f.ins)]), "existing inputs are untouched")
	sym.Assert(sameIns(f.added[:n], ins[len(f.ins):]), "inputs are added in the order offered")
	if n > 1 {
		sym.Assert(f.have(n-1) < f.most(n-1)+firstFee, "no input is added once the others suffice")
	}
	exp := append([]outState{}, f.outs...)
	if at >= 0 {
		exp[at].value, exp[at].dust = outs[at].value, outs[at].dust
		sym.Assert(len(outs) == len(f.outs), "nothing is added next to existing change")
		sym.Assert(in == out+est, "existing change receives all of the change")
		sym.Reach("existing change")
	}
	sym.Assert(sameOuts(exp, outs[:len(f.outs)]), "payments are untouched")
	if at >= 0 {
		return
	}
	used := make([]bool, len(scripts))
	remainders := 0
	for _, o := range outs[len(f.outs):] {
		found := false
		for i, s := range scripts {
			if !used[i] && bytes.Equal(s, o.script) {
				used[i] = true
				found = true
				sym.Assert(o.key == name("change", i), "change has the key of its address")
				break
			}
		}
		sym.Assert(found, "change pays different given addresses")
		sym.Assert(sym.And(o.value > 0, o.value <= in), "change has value")
		if o.remainder {
			remainders++
		}
	}
	added := len(outs) - len(f.outs)
	excess := in - out - est
	if added > 0 {
		sym.Assert(remainders == 1, "one change output is the remainder")
		sym.Assert(excess <= uint64(added)+1, "with added change the fee is the estimated fee up to rounding")
		sym.Reach("change")
	} else {
		sym.Assert(excess <= firstFee+firstCost+3, "the excess is not worth change")
		sym.Reach("no change")
	}
}

// C13_Break: 0 or 1 inputs of any value, 0 or 1 outputs of any value, change or not; 0 to 2 coins of
// any value of 2 kinds with any outpoint index so that they may repeat, 0 to 2 change addresses of
// 2 kinds (with 2 coins only 1), any break value, fee rates 0.05, 1 and every multiple of 1/1024 up
// to 4 (with 2 addresses only 0.05), every random draw.
func C13_Break() {
	n := sym.Choose("coins", 3)
	addrs := 1
	if n < 2 || sym.Thorough() {
		addrs = sym.Choose("addresses", 3)
	}
	var fee float32
	bands := 3
	if addrs > 1 && !sym.Thorough() {
		bands = 1
	}
	switch sym.Choose("rate", bands) {
	case 0:
		fee = 0.05
	case 1:
		fee = 1
	case 2:
		fee = rate("m", 1, 1<<12, 10)
	}
	tx := txbuilder.NewTxBuilder(fee, 0.5)
	if sym.Bool("input") {
		putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: sym.U64R("in", 1, maxMoney)})
	}
	if sym.Bool("output") {
		putOut(tx, outState{value: sym.U64R("value", 0, maxMoney), script: p2pkh(0x10),
			remainder: sym.Bool("remainder"), dust: sym.Bool("dust"), key: "key"})
	}
	breakAndCheck(tx, coins(n, []int{0, 3}), addrs)
}

// C13_Mixed: 0 or 1 inputs of any value, 2 or 3 outputs of any value (thorough: 4) of which any may be
// change; 1 to 3 coins of any value, which may repeat, 1 change address, any break value, fee rate
// 0.5, every random draw.
func C13_Mixed() {
	n := 1 + sym.Choose("coins", 3)
	tx := mixedTx(0.5, 0)
	breakAndCheck(tx, coins(n, []int{0}), 1)
}

func breakAndCheck(tx *txbuilder.TxBuilder, utxos []bitcoin.UTXO, addrs int) {
	list, scripts := changeList(addrs)
	f := newFunding(tx, utxos)
	var err error
	crash := sym.Panics(func() {
		err = tx.AddFundingBreakChange(utxos, sym.U64R("breakvalue", 1, maxMoney), list)
	})
	sym.Assert(!crash, "funding does not crash")
	if !crash {
		checkBroken(f, scripts, err)
	}
	for _, o := range tx.MsgTx.TxOut {
		sym.Observe("out", o.Value)
	}
}

// C13_Counts: 251 or 252 inputs, 1 or 252 outputs, so that adding an input or change makes a
// count longer; one coin of any value, payments up to 1000, 2 change addresses, break value 500
// to 1000, fee rates 0.05 and 1, no final shuffle.
func C13_Counts() {
	sym.ShuffleMode(2)
	tx := txbuilder.NewTxBuilder([]float32{0.05, 1}[sym.Choose("fee", 2)], 0)
	ins := 251 + sym.Choose("ins", 2)
	for i := 0; i < ins; i++ {
		putIn(tx, inState{hash: hashOf(2), index: uint32(i), script: p2pkh(5), value: 500})
	}
	outs := []int{1, 252}[sym.Choose("outs", 2)]
	pay := sym.U64R("out", 1, 1000)
	remainder := sym.Bool("remainder")
	for i := 0; i < outs; i++ {
		putOut(tx, outState{value: pay, script: p2pkh(1), remainder: i == 0 && remainder})
	}
	utxos := []bitcoin.UTXO{{Hash: hashOf(3), LockingScript: p2pkh(7), Value: sym.U64R("coin", 0, maxMoney)}}
	list, _ := changeList(2)
	f := newFunding(tx, utxos)
	if err := tx.AddFundingBreakChange(utxos, sym.U64R("breakvalue", 500, 1000), list); err != nil {
		return
	}
	est := tx.EstimatedFee()
	sym.Assert(tx.InputValue() >= tx.OutputValue(true)+est, "inputs cover outputs and the estimated fee")
	if !f.funded {
		sym.Assert(tx.Fee()-est <= 5+txbuilder.EstimatedFeeValue(4+34+149, float64(tx.FeeRate)), "the excess is not worth change")
		sym.Reach("funded")
	}
	sym.Observe("fee", tx.Fee())
}
