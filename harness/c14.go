package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// signRate is a fee rate for signing.
func signRate() float32 {
	return []float32{0.5, 0.05, 1, 5, 0}[sym.Choose("fee", 5)]
}

// C14_Sign: 1 or 2 inputs of any value paying a public key hash or public key, a payment of any
// value, change before or after it or not, a change script or not, maybe that of the only output, sending the maximum
// or not; fee rates 0, 0.05, 0.5, 1 and 5; every signature of
// every round 70 or 72 bytes long (with 1 input 69 to 72).
func C14_Sign() {
	n := 1 + sym.Choose("n", 2)
	if n == 1 {
		sym.SigLens(69, 70, 71, 72)
	} else {
		sym.SigLens(70, 72)
	}
	signAny(n, 0)
}

// C14_Short: as above with 1 input (thorough: or 2), all signatures of one length of 9, 40, 56 or
// 64 bytes, so that the fee is adjusted after a round of signatures.
func C14_Short() {
	n := 1
	if sym.Thorough() {
		n += sym.Choose("n", 2)
	}
	length := []int{9, 40, 56, 64}[sym.Choose("length", 4)]
	sym.SigLens(length)
	signAny(n, uint64(n*(72-length)))
}

// signAny signs n inputs whose signatures are shorter than the estimate by up to 3 bytes each, and
// short bytes in all. Signatures that short have no practical chance, so an estimate that counts
// them in full is not excessive.
func signAny(n int, short uint64) {
	tx := txbuilder.NewTxBuilder(signRate(), 0)
	keys := []bitcoin.Key{keyOf(0), keyOf(1)}
	in := uint64(0)
	for i := 0; i < n; i++ {
		s := p2pkhOf(keys[i])
		if i == 1 || sym.Bool("p2pk") {
			s = p2pkOf(keys[i])
		}
		v := sym.U64R(name("in", i), 0, maxMoney)
		in += v
		putIn(tx, inState{hash: hashOf(byte(i + 1)), index: 1, script: s, value: v, seq: 7})
	}
	out := uint64(0)
	at := -1
	payment, existing := sym.Bool("payment"), sym.Bool("existing")
	changeFirst := false
	if payment && existing {
		changeFirst = sym.Bool("changefirst")
	}
	for i := 0; i < 2; i++ {
		if payment && changeFirst == (i == 1) {
			v := sym.U64R("pay", 0, maxMoney)
			out += v
			kind := 0
			if n == 1 {
				kind = sym.Choose("paykind", 2)
			}
			putOut(tx, outState{value: v, script: scriptOf(kind, 0x22), dust: sym.Bool("paydust"), key: "pay"})
		}
		if existing && changeFirst == (i == 0) {
			v := sym.U64R("change", 0, maxMoney)
			out += v
			at = len(tx.Outputs)
			putOut(tx, outState{value: v, script: p2pkh(0x33), remainder: true, dust: sym.Bool("changedust"), key: "change"})
		}
	}
	if sym.Bool("changescript") {
		tx.ChangeScript = p2pkh(0x44)
		tx.ChangeKeyID = "new"
		if len(tx.Outputs) == 1 && sym.Bool("changepaid") {
			tx.ChangeScript = tx.MsgTx.TxOut[0].LockingScript.Copy()
		}
	}
	tx.SendMax = sym.Bool("sendmax")
	before, ins := outsOf(tx), insOf(tx)
	est := tx.EstimatedFee()
	_, err := tx.Sign(keys)
	after := outsOf(tx)
	for i, s := range insOf(tx) {
		s.unlock = ins[i].unlock
		sym.Assert(sameIn(ins[i], s), "inputs keep what they spend")
	}
	// payments, and everything before the change, are untouched
	exp := append([]outState{}, before...)
	if at >= 0 && len(after) > at {
		exp[at].value, exp[at].dust = after[at].value, after[at].dust
	}
	sym.Assert(len(after) >= len(before) && sameOuts(exp, after[:len(before)]), "only change is touched")
	sym.Assert(len(after) <= len(before)+1, "at most one output is added")
	if len(after) == len(before)+1 {
		last := after[len(before)]
		sym.Assert(sym.And(at < 0, len(tx.ChangeScript) > 0, sameOut(last, outState{value: last.value,
			script: tx.ChangeScript, remainder: true, key: "new"})), "only change is added")
		sym.Reach("added")
	}
	if in < out+est {
		sym.Assert(is(err, txbuilder.ErrInsufficientValue), "inputs that do not cover outputs and fee are insufficient")
		sym.Reach("insufficient")
		return
	}
	if err != nil {
		if is(err, txbuilder.ErrInsufficientValue) {
			sym.Assert(at >= 0 && before[at].value < cost(before[at].script, tx.FeeRate),
				"inputs that cover outputs and fee are sufficient unless change is not worth its cost")
			return
		}
		sym.Assert(is(err, txbuilder.ErrChangeAddressNeeded) && at < 0 && len(tx.ChangeScript) == 0,
			"the only other error is a missing change address")
		sym.Reach("address")
		return
	}
	size := uint64(tx.MsgTx.SerializeSize())
	target := txbuilder.EstimatedFeeValue(size, float64(tx.FeeRate))
	total := uint64(0)
	for _, o := range after {
		total += o.value
	}
	sym.Assert(in >= total+target, "the fee is adequate for the signed size")
	target = txbuilder.EstimatedFeeValue(size+short, float64(tx.FeeRate))
	excess := sym.IteU64(in-total < target, 0, in-total-target)
	limit := target / 20
	if limit < 3 {
		limit = 3
	}
	if firstChange(after) >= 0 {
		sym.Assert(excess <= limit, "with change the fee is not excessive")
		sym.Reach("change")
	} else {
		script := tx.ChangeScript
		more := 3 * cost(p2pkh(1), tx.FeeRate)
		if len(script) > 0 {
			more = cost(script, tx.FeeRate) + txbuilder.LockingScriptOutputFee(script, tx.FeeRate)
		}
		sym.Assert(excess <= limit+more, "without change the fee is higher only by what is not worth an output")
		sym.Reach("no change")
	}
	sym.Observe("fee", tx.Fee(), size)
}

// C14_Missing: 2 inputs of any value paying public key hashes, the key of one or both missing; a
// payment of any value and existing change, a change script or neither; fee rates as above.
func C14_Missing() {
	sym.SigLens(70, 72)
	tx := txbuilder.NewTxBuilder(signRate(), 0)
	all := []bitcoin.Key{keyOf(0), keyOf(1)}
	keys := [][]bitcoin.Key{{}, {all[0]}, {all[1]}}[sym.Choose("keys", 3)]
	in := uint64(0)
	for i := 0; i < 2; i++ {
		v := sym.U64R(name("in", i), 0, maxMoney)
		in += v
		putIn(tx, inState{hash: hashOf(byte(i + 1)), index: 1, script: p2pkhOf(all[i]), value: v, seq: 7})
	}
	putOut(tx, outState{value: sym.U64R("pay", 0, maxMoney), script: p2pkh(0x22), dust: sym.Bool("paydust"), key: "pay"})
	switch sym.Choose("change", 3) {
	case 0:
		putOut(tx, outState{value: sym.U64R("change", 0, maxMoney), script: p2pkh(0x33), remainder: true})
	case 1:
		tx.ChangeScript = p2pkh(0x44)
	}
	_, err := tx.Sign(keys)
	sym.Assert(err != nil, "signing without all keys is an error")
	if !is(err, txbuilder.ErrMissingPrivateKey) {
		return
	}
	sym.Reach("missing")
	sym.Assert(tx.Fee() >= tx.EstimatedFee(), "the fee stays adequate for the missing signatures")
	_, err = tx.SignOnly(all)
	sym.Assert(err == nil, "the missing signatures can be added")
	target := txbuilder.EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate))
	sym.Assert(tx.Fee() >= target, "the fee is adequate when all have signed")
	sym.Observe("fee", tx.Fee())
}
