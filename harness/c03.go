package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/txbuilder"
)

// permuted asserts that got is a reordering of want: every output occurs equally often in both.
func permuted(want, got []outState) {
	sym.Assert(len(want) == len(got), "same number of outputs")
	for _, w := range want {
		var a, b uint64
		for i := range want {
			a += sym.IteU64(sameOut(w, want[i]), 1, 0)
			b += sym.IteU64(sameOut(w, got[i]), 1, 0)
		}
		sym.Assert(a == b, "every output keeps its value, script, flags and key")
	}
	probe := outState{
		value:     sym.U64("probe.value"),
		script:    p2pkh(1),
		remainder: sym.Bool("probe.remainder"),
		dust:      sym.Bool("probe.dust"),
		key:       string(sym.Bytes("probe.key", 1)),
	}
	probe.script[5] = sym.Byte("probe.tag")
	var in, out uint64
	for i := range want {
		in |= sym.IteU64(sameOut(probe, want[i]), 1<<i, 0)
		out += sym.IteU64(sameOut(probe, got[i]), 1, 0)
	}
	sym.Assert((in == 0) == (out == 0), "any output that is there afterwards was there before")
}

// looseOuts puts n outputs into the builder that may or may not differ from each other.
func looseOuts(tx *txbuilder.TxBuilder, n int) {
	for i := 0; i < n; i++ {
		s := p2pkh(1)
		s[5] = sym.Byte(name("tag", i))
		putOut(tx, outState{
			value:     sym.U64R(name("value", i), 0, maxMoney),
			script:    s,
			remainder: sym.Bool(name("remainder", i)),
			dust:      sym.Bool(name("dust", i)),
			key:       string(sym.Bytes(name("key", i), 1)),
		})
	}
}

// C03_All: 0 to 4 outputs with arbitrary values, flags and one arbitrary script byte and key each, every result of the shuffle.
func C03_All() {
	n := sym.Choose("n", 5)
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	looseOuts(tx, n)
	before := outsOf(tx)
	tx.RandomizeOutputs()
	after := outsOf(tx)
	permuted(before, after)
	sym.Reach("done")
	for i := range after {
		sym.Observe("out", after[i].value, after[i].key)
	}
}

// C03_After: 1 to 4 outputs with arbitrary values, flags and one arbitrary script byte and key each, every start index, every result of the
// shuffle of the rest.
func C03_After() {
	n := 1 + sym.Choose("n", 4)
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	looseOuts(tx, n)
	before := outsOf(tx)
	at := sym.Choose("at", n)
	tx.RandomizeOutputsAfter(at)
	after := outsOf(tx)
	sym.Assert(len(after) == n, "same number of outputs")
	for i := 0; i <= at; i++ {
		sym.Assert(sameOut(before[i], after[i]), "outputs up to the index stay in place")
	}
	permuted(before[at+1:], after[at+1:])
	sym.Reach("done")
	for i := range after {
		sym.Observe("out", after[i].value, after[i].key)
	}
}

// C03_Fee: an input of any value, 0 to 2 payments (thorough: 3) of any value, a change output added
// by an adjustment of any amount, every result of either way to shuffle, then another adjustment of
// any amount; fee rates 0.05, 0.5 and 1.
func C03_Fee() {
	most := 3
	if sym.Thorough() {
		most = 4
	}
	n := sym.Choose("n", most)
	rate := []float32{0.05, 0.5, 1}[sym.Choose("fee", 3)]
	in, first, second := sym.U64R("in", 0, maxMoney), sym.U64R("first", 0, maxMoney), sym.I64R("second", -maxMoney, maxMoney)
	var pay []uint64
	for i := 0; i < n; i++ {
		pay = append(pay, sym.U64R(name("value", i), 0, maxMoney))
	}
	start := func() *txbuilder.TxBuilder {
		tx := txbuilder.NewTxBuilder(rate, 0.5)
		putIn(tx, inState{hash: hashOf(1), script: p2pkh(5), value: in})
		for i := 0; i < n; i++ {
			putOut(tx, outState{value: pay[i], script: p2pkh(byte(0x10 + i)), key: name("key", i)})
		}
		tx.ChangeScript, tx.ChangeKeyID = p2pkh(0x55), "change"
		if _, err := tx.AdjustFee(-int64(first)); err != nil {
			sym.Assume(false)
		}
		return tx
	}
	tx, other := start(), start()
	if len(tx.Outputs) > 0 && sym.Bool("after") {
		tx.RandomizeOutputsAfter(sym.Choose("at", len(tx.Outputs)))
	} else {
		tx.RandomizeOutputs()
	}
	_, err := tx.AdjustFee(second)
	_, errOther := other.AdjustFee(second)
	sym.Assert((err == nil) == (errOther == nil), "the fee can be adjusted as without shuffling")
	permuted(outsOf(other), outsOf(tx))
	if len(tx.Outputs) == n && len(other.Outputs) == n && second > 0 && err == nil {
		sym.Reach("dropped")
	}
	if err != nil {
		sym.Reach("failed")
	}
}
