package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// supported is a script of each supported template: to a public key hash, a public key, every m of
// n public key hashes up to 4 of 5, or an agent transfer whose agent uses one of these.
func supported(tag string) bitcoin.Script {
	var s bitcoin.Script
	switch sym.Choose(tag+".kind", 3) {
	case 0:
		s = p2pkh(1)
		copy(s[3:23], sym.Bytes(tag+".hash", 20))
	case 1:
		s = p2pk(1)
		copy(s[2:34], sym.Bytes(tag+".key", 32))
	case 2:
		total := 1 + sym.Choose(tag+".total", 5)
		s = multiPKH(1+sym.Choose(tag+".required", total), total, 1)
	}
	if sym.Bool(tag + ".agent") {
		sym.Reach("agent")
		return agentTransfer(s)
	}
	return s
}

// C22_Supported: after sizes of other scripts were asked for, every supported template with arbitrary keys, any fee rate that is a multiple of
// 1/1024 up to 8.
func C22_Supported() {
	s := supported("script")
	before := clone(s)
	r := rate("rate", 0, 1<<13, 10)
	others(3)
	want, err := txbuilder.UnlockingScriptSize(s)
	sym.Assert(err == nil, "the builder knows the template")
	got, err := fees.EstimateUnlockingSize(s)
	sym.Assert(err == nil && got == want, "both give the same unlocking size")
	sym.Assert(fees.OutputSize(s) == txbuilder.OutputSize(s), "both give the same output size")
	out, in, err := txbuilder.OutputTotalCost(s, r)
	sym.Assert(err == nil, "the builder gives a cost")
	o, i, err := fees.OutputTotalCost(s, float64(r))
	sym.Assert(err == nil && o == out && i == in, "both give the same cost")
	sym.Assert(fees.OutputFeeForLockingScript(s, float64(r)) == out, "the output fee is that of the cost")
	size, err := txbuilder.InputSize(s)
	sym.Assert(err == nil && fees.InputSizeForUnlockingScriptSize(got) == size, "both give the same input size")
	sym.Assert(bytes.Equal(before, s), "the script is unchanged")
	sym.Reach("done")
}

// C22_Transaction: 1 or 2 inputs of the supported templates with arbitrary values, 0 to 2 outputs
// of each kind with arbitrary values, unlocking scripts of any length up to 3 bytes, a fee rate that
// is a multiple of 1/1024 up to 8.
func C22_Transaction() {
	r := rate("rate", 0, 1<<13, 10)
	tx := txbuilder.NewTxBuilder(r, 0.5)
	ins, outs := 1+sym.Choose("ins", 2), sym.Choose("outs", 3)
	in, out := uint64(0), uint64(0)
	for i := 0; i < ins; i++ {
		k := sym.Choose(name("kind", i), 4)
		s := scriptOf([]int{0, 3, 4, 0}[k], byte(i))
		if k == 3 {
			s = agentTransfer(s)
		}
		v := sym.U64R(name("in", i), 1, maxMoney)
		putIn(tx, inState{hash: hashOf(byte(i)), script: s, value: v, unlock: sym.Bytes(name("unlock", i), i*3)})
		in += v
	}
	for i := 0; i < outs; i++ {
		v := sym.U64R(name("out", i), 0, maxMoney)
		putOut(tx, outState{value: v, script: scriptOf(sym.Choose(name("outkind", i), 6), byte(i))})
		out += v
	}
	before := wholeOf(tx)
	size, err := fees.EstimateSize(tx, unlocker{})
	sym.Assert(err == nil && size == tx.EstimatedSize(), "both give the same size")
	fee, err := fees.EstimateFee(tx, unlocker{}, float64(r))
	sym.Assert(err == nil && fee == tx.EstimatedFee(), "both give the same estimated fee")
	v, err := fees.InputsValue(tx)
	sym.Assert(err == nil && v == tx.InputValue() && v == in, "both give the same input value")
	sym.Assert(fees.OutputsValue(tx) == tx.OutputValue(true) && fees.OutputsValue(tx) == out, "both give the same output value")
	paid, err := fees.Fee(tx)
	sym.Assert(err == nil && paid == tx.ActualFee() && paid == int64(in)-int64(out), "both give the same fee")
	sym.Assert(sameWhole(before, wholeOf(tx)), "reading changes nothing")
	sym.Reach("done")
}

// C22_Counts: 251 to 254 inputs and outputs with scripts of 25, 252 or 253 bytes and any value.
func C22_Counts() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	ins, outs := 251+sym.Choose("ins", 4), 251+sym.Choose("outs", 4)
	v := sym.U64R("value", 1, 1000000)
	for i := 0; i < ins; i++ {
		putIn(tx, inState{hash: hashOf(1), index: uint32(i), script: p2pkh(1), value: v})
	}
	s := []bitcoin.Script{p2pkh(2), opReturn(252, 1), opReturn(253, 1)}[sym.Choose("script", 3)]
	for i := 0; i < outs; i++ {
		putOut(tx, outState{value: v, script: s})
	}
	size, err := fees.EstimateSize(tx, unlocker{})
	sym.Assert(err == nil && size == tx.EstimatedSize(), "both give the same size")
	fee, err := fees.EstimateFee(tx, unlocker{}, 0.5)
	sym.Assert(err == nil && fee == tx.EstimatedFee(), "both give the same estimated fee")
	paid, err := fees.Fee(tx)
	sym.Assert(err == nil && paid == tx.ActualFee(), "both give the same fee")
	sym.Reach("done")
}

// alone checks that the standalone functions report an unknown script.
func alone(s bitcoin.Script) {
	before := clone(s)
	r := rate("rate", 0, 1<<13, 10)
	crash := sym.Panics(func() {
		_, err := fees.EstimateUnlockingSize(s)
		sym.Assert(err != nil, "an unknown script is an error")
		o, i, err := fees.OutputTotalCost(s, float64(r))
		sym.Assert(err != nil && i == 0, "the cost of spending an unknown script is an error")
		sym.Assert(o == txbuilder.LockingScriptOutputFee(s, r), "the output fee is still given")
		sym.Assert(bytes.Equal(before, s), "the script is unchanged")
		sym.Reach("unknown")
	})
	if agentLike(s) {
		sym.Assert(!crash, "a script that starts with OP_NOTIF does not crash the standalone functions")
	} else if multiLike(s) {
		sym.Assert(!crash, "a script that starts with OP_0 OP_TOALTSTACK does not crash the standalone functions")
	} else {
		sym.Assert(!crash, "an unknown script does not crash the standalone functions")
	}
}

// C22_Unknown: every script of 0 to 3 bytes (thorough: 4), any rate as above.
func C22_Unknown() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	alone(sym.Bytes("s", sym.Choose("n", max)))
}

// C22_Kinds: unspendable and unknown scripts of 2 to 300 bytes, templates with the last byte
// missing or any opcode beyond the pushes added.
func C22_Kinds() {
	k := sym.Choose("kind", 7)
	s := []bitcoin.Script{opReturn(2, 1), opReturn(300, 1), unknown(5, 1), unknown(253, 1), p2pkh(1), p2pk(1),
		multiPKH(1, 2, 1)}[k]
	if k >= 4 {
		if sym.Bool("cut") {
			s = s[:len(s)-1]
		} else {
			b := sym.Byte("b")
			sym.Assume(b > bitcoin.OP_16)
			s = append(s, b)
		}
	}
	alone(s)
}

// C22_Cut: agent transfers cut off anywhere or with any opcode beyond the pushes added.
func C22_Cut() {
	s := agentTransfer(p2pkh(1))
	n := sym.Choose("n", len(s)+1)
	if n == len(s) {
		b := sym.Byte("b")
		sym.Assume(b > bitcoin.OP_16)
		s = append(s, b)
	} else {
		s = s[:n]
	}
	alone(s)
}

// C22_Multi: every script of OP_0, OP_TOALTSTACK and 0 to 3 bytes more (thorough: 4).
func C22_Multi() { alone(multiRest()) }

// C22_Required: scripts for 1 to 3 public key hashes that require -1 or any number up to 16 of
// signatures that is more than they have keys.
func C22_Required() { alone(tooMany()) }

// C22_Agent: agent transfers whose agent uses one of 5 unknown scripts, two of them close to a
// template, any rate as above.
func C22_Agent() {
	s := otherAgent()
	r := rate("rate", 0, 1<<13, 10)
	sym.Assert(!sym.Panics(func() {
		_, err := fees.EstimateUnlockingSize(s)
		sym.Assert(err != nil, "an unknown agent is an error")
		o, i, err := fees.OutputTotalCost(s, float64(r))
		sym.Assert(err != nil && i == 0, "the cost of spending with an unknown agent is an error")
		sym.Assert(o == txbuilder.LockingScriptOutputFee(s, r), "the output fee is still given for an unknown agent")
	}), "an unknown agent does not crash the standalone functions")
	sym.Reach("done")
}
