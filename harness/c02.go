package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// anyOuts puts n outputs of arbitrary content into the builder.
func anyOuts(tx *txbuilder.TxBuilder, n int) {
	for i := 0; i < n; i++ {
		putOut(tx, outState{
			value:     sym.U64R(name("value", i), 0, maxMoney),
			script:    scriptOf((i*2)%5, byte(0x10+i)),
			remainder: sym.Bool(name("remainder", i)),
			dust:      sym.Bool(name("dust", i)),
			key:       []string{name("key", i), ""}[i%2],
		})
	}
}

// C02_Add: a builder with 0 to 2 arbitrary outputs, one output added or inserted at any index from
// 0 to one past the end plus one; script of 6 kinds, value up to the money supply, both flags, send
// max on or off, fee and dust rates from 5 bands including every multiple of 1/1024 up to 8.
func C02_Add() {
	n := sym.Choose("n", 3)
	tx := txbuilder.NewTxBuilder(anyRate("fee"), anyRate("dustfee"))
	anyOuts(tx, n)
	if sym.Bool("spare") {
		spare(tx)
	}
	tx.SendMax = sym.Bool("sendmax")
	before := outsOf(tx)

	script := scriptOf(sym.Choose("kind", 6), 0x77)
	value := sym.U64R("value", 0, maxMoney)
	rem := sym.Bool("rem")
	dust := sym.Bool("dust")
	outputFee := txbuilder.EstimatedFeeValue(uint64(txbuilder.OutputSize(script)),
		float64(tx.FeeRate))
	limit := txbuilder.DustLimitForLockingScript(script, tx.DustFeeRate)
	refuse := sym.And(!dust, value < outputFee, !(tx.SendMax && rem),
		!bitcoin.LockingScriptIsUnspendable(script))

	at := n
	var err error
	if sym.Bool("insert") {
		at = sym.Choose("at", n+2)
		err = tx.InsertOutput(at, script, value, rem, dust)
	} else {
		err = tx.AddOutput(script, value, rem, dust)
	}
	after := outsOf(tx)
	if err != nil {
		sym.Assert(sameOuts(before, after), "rejected add changes nothing")
		if at <= n {
			sym.Assert(is(err, txbuilder.ErrBelowDustValue), "only the dust error on a valid index")
			sym.Assert(refuse, "only outputs below their fee are refused")
			sym.Reach("refused")
		} else {
			sym.Reach("past the end")
		}
		return
	}
	sym.Assert(at <= n, "index past the end is an error")
	sym.Assert(!refuse, "an output below its fee is refused")
	want := outState{value: value, script: script, remainder: rem, dust: dust}
	if dust {
		want.value = limit
	}
	sym.Assert(len(after) == n+1, "one output added")
	var exp []outState
	exp = append(exp, before[:at]...)
	exp = append(exp, want)
	exp = append(exp, before[at:]...)
	sym.Assert(sameOuts(exp, after), "the added output is at its place and others are untouched")
	sym.Reach("added")
	sym.Observe("added", at, after[at].value)
}

// C02_Edit: a builder with 1 to 3 arbitrary outputs and one edit at any index up to one past the
// end: remove, add value, subtract value, set to dust, set script; amounts
// added up to the money supply, amounts subtracted any 64 bit value, fee and dust rates as for adding.
func C02_Edit() {
	n := 1 + sym.Choose("n", 3)
	tx := txbuilder.NewTxBuilder(0.5, anyRate("dustfee"))
	anyOuts(tx, n)
	if sym.Bool("spare") {
		spare(tx)
	}
	before := outsOf(tx)
	at := sym.Choose("at", n+1)
	amount := sym.U64("amount")
	op := sym.Choose("op", 5)
	if op == 1 {
		sym.Assume(amount <= maxMoney)
	}
	script := scriptOf(sym.Choose("kind", 3), 0x77)
	var err error
	switch op {
	case 0:
		err = tx.RemoveOutput(at)
	case 1:
		err = tx.AddValueToOutput(uint32(at), amount)
	case 2:
		err = tx.SubtractValueFromOutput(uint32(at), amount)
	case 3:
		err = tx.SetOutputToDust(uint32(at))
	case 4:
		err = tx.UpdateOutput(uint32(at), script)
	}
	after := outsOf(tx)
	if at == n {
		sym.Assert(err != nil, "index past the end is an error")
		sym.Assert(sameOuts(before, after), "rejected edit changes nothing")
		sym.Reach("past the end")
		return
	}
	if op == 0 {
		sym.Assert(err == nil, "removing an existing output works")
		exp := append(append([]outState{}, before[:at]...), before[at+1:]...)
		sym.Assert(sameOuts(exp, after), "removing drops exactly the addressed output")
		sym.Reach("removed")
		return
	}
	old := before[at]
	limit := txbuilder.DustLimitForLockingScript(old.script, tx.DustFeeRate)
	exp := append([]outState{}, before...)
	fails := false
	switch op {
	case 1:
		if old.dust {
			fails = amount < limit
			exp[at].value = amount
			exp[at].dust = false
		} else {
			exp[at].value += amount
		}
	case 2:
		fails = sym.Or(old.value < amount, old.value-amount < limit)
		exp[at].value -= amount
	case 3:
		exp[at].value = limit
		exp[at].dust = true
	case 4:
		exp[at].script = script
	}
	if err != nil {
		sym.Assert(fails, "only edits below the dust limit are refused")
		sym.Assert(sameOuts(before, after), "rejected edit changes nothing")
		sym.Reach("refused")
		return
	}
	sym.Assert(!fails, "an edit below the dust limit is refused")
	sym.Assert(sameOuts(exp, after), "edit changes exactly the addressed output by the rule")
	sym.Reach("edited")
	sym.Observe("edited", after[at].value)
}

// addressOf gives the address of a script of the given kind, or an address that was never set.
func addressOf(kind int, tag byte) (bitcoin.RawAddress, bitcoin.Script) {
	if kind == 4 {
		return bitcoin.RawAddress{}, nil
	}
	script := scriptOf([]int{0, 3, 4, 2}[kind], tag)
	ra, err := bitcoin.RawAddressFromLockingScript(script)
	if err != nil {
		panic(err)
	}
	return ra, script
}

// C02_Address: a builder with 0 to 2 arbitrary outputs and one output added by address (payment,
// dust, maximum) or as a maximum script; addresses of 4 kinds or never set, value up to the money
// supply, flags, send max on or off, fee and dust rates from 5 bands.
func C02_Address() {
	n := sym.Choose("n", 3)
	tx := txbuilder.NewTxBuilder(anyRate("fee"), anyRate("dustfee"))
	anyOuts(tx, n)
	tx.SendMax = sym.Bool("sendmax")
	tx.ChangeScript, tx.ChangeKeyID = p2pkh(0x55), "change"
	before := wholeOf(tx)

	ra, script := addressOf(sym.Choose("kind", 5), 0x77)
	value := sym.U64R("value", 0, maxMoney)
	rem := sym.Bool("rem")
	want := outState{value: value, script: script, remainder: rem}
	max := tx.SendMax
	refuse := false
	op := sym.Choose("op", 4)
	var err error
	switch op {
	case 0:
		outputFee := txbuilder.EstimatedFeeValue(uint64(txbuilder.OutputSize(script)), float64(tx.FeeRate))
		refuse = sym.And(value < outputFee, !(max && rem))
		err = tx.AddPaymentOutput(ra, value, rem)
	case 1:
		want.value, want.dust = txbuilder.DustLimitForLockingScript(script, tx.DustFeeRate), true
		err = tx.AddDustOutput(ra, rem)
	case 2:
		want.value, want.remainder, max = 0, true, true
		err = tx.AddMaxOutput(ra)
	case 3:
		want.value, want.remainder, max = 0, true, true
		err = tx.AddMaxScriptOutput(script)
	}
	after := wholeOf(tx)
	if err != nil {
		sym.Assert(sameWhole(before, after), "a rejected add by address changes nothing")
		if script != nil {
			sym.Assert(is(err, txbuilder.ErrBelowDustValue), "only the dust error for a valid address")
			sym.Assert(refuse, "only payments below their fee are refused")
			sym.Reach("refused")
		} else {
			sym.Reach("no address")
		}
		return
	}
	if op != 3 {
		sym.Assert(script != nil, "an address that is not set is an error")
	}
	sym.Assert(!refuse, "a payment below its fee is refused")
	before.outs = append(before.outs, want)
	before.max = max
	sym.Assert(sameWhole(before, after), "the output is added for the address and nothing else changes")
	sym.Reach("added")
}

// C02_Change: a builder with 0 to 3 outputs of any value and flags that pay the new change script, a
// script that differs from it anywhere in its hash, one that goes on after it or ends before it, or a
// script of another kind; the change is set by script or by address, with any key ID of 0 or 2
// characters.
func C02_Change() {
	n := sym.Choose("n", 4)
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	change := p2pkh(0x55)
	pays := make([]bool, n)
	for i := 0; i < n; i++ {
		script := scriptOf(2+i%2, 0x55)
		switch sym.Choose(name("pays", i), 5) {
		case 0:
			script = p2pkh(0x55)
			pays[i] = true
		case 1:
			script = p2pkh(0x55)
			hash := sym.Bytes(name("hash", i), 20)
			copy(script[3:], hash)
			pays[i] = bytes.Equal(hash, change[3:23])
		case 2:
			script = append(p2pkh(0x55), sym.Byte(name("more", i)))
		case 3:
			script = p2pkh(0x55)[:sym.Choose(name("cut", i), 2)*24]
		}
		putOut(tx, outState{value: sym.U64R(name("value", i), 0, maxMoney), script: script,
			remainder: sym.Bool(name("remainder", i)), dust: sym.Bool(name("dust", i)), key: name("key", i)})
	}
	tx.ChangeScript, tx.ChangeKeyID = p2pkh(0x12), "before"
	want := wholeOf(tx)
	key := anyText("newkey")
	want.change, want.key = change, key
	for i := range want.outs {
		if pays[i] {
			want.outs[i].remainder, want.outs[i].key = true, key
			sym.Reach("existing")
		}
	}
	var err error
	if sym.Bool("address") {
		ra, e := bitcoin.RawAddressFromLockingScript(change)
		if e != nil {
			panic(e)
		}
		err = tx.SetChangeAddress(ra, key)
	} else {
		err = tx.SetChangeLockingScript(change, key)
	}
	sym.Assert(err == nil, "setting the change works")
	sym.Assert(sameWhole(want, wholeOf(tx)), "the outputs that pay the change script, and only those, receive the change")
	before := wholeOf(tx)
	sym.Assert(tx.SetChangeAddress(bitcoin.RawAddress{}, "none") != nil, "a change address that is not set is an error")
	sym.Assert(sameWhole(before, wholeOf(tx)), "a rejected change address changes nothing")
	sym.Reach("set")
}

// C02_Bulk: a builder with 0 to 2 arbitrary outputs, to which 0 to 2 outputs of any value, flags and
// key ID are added at once.
func C02_Bulk() {
	n, more := sym.Choose("n", 3), sym.Choose("more", 3)
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	anyOuts(tx, n)
	if sym.Bool("spare") {
		spare(tx)
	}
	want := wholeOf(tx)
	var add []*txbuilder.Output
	for i := 0; i < more; i++ {
		o := outState{value: sym.U64(name("added", i)), script: scriptOf(i, 0x31), remainder: sym.Bool(name("rem", i)),
			dust: sym.Bool(name("isdust", i)), key: string(sym.Bytes(name("newkey", i), 2))}
		out := &txbuilder.Output{}
		out.Value, out.LockingScript = o.value, o.script
		out.Supplement = txbuilder.OutputSupplement{IsRemainder: o.remainder, IsDust: o.dust, KeyID: o.key}
		add = append(add, out)
		want.outs = append(want.outs, o)
	}
	tx.AddOutputs(add)
	sym.Assert(sameWhole(want, wholeOf(tx)), "the outputs are added at the end with their own data")
	sym.Reach("added")
}
