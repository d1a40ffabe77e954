package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// anyDustRate is a dust rate: none, equal to common fee rates, or any multiple of 1/1024 up to 8.
func anyDustRate(name string) float32 {
	switch sym.Choose(name+".band", 3) {
	case 0:
		return 0
	case 1:
		return 0.5
	}
	return rate(name, 1, 1<<13, 10)
}

// coins is a list of n unspent outputs of any value whose outpoints have any index, and all but the
// first any byte in the hash, so that they may repeat each other or the input with hash 1.
func coins(n int, kinds []int) []bitcoin.UTXO {
	var r []bitcoin.UTXO
	for i := 0; i < n; i++ {
		h := hashOf(1)
		if i > 0 {
			h[31] = sym.Byte(name("coin.hash", i))
		}
		r = append(r, bitcoin.UTXO{
			Hash:          h,
			Index:         sym.U32(name("coin.index", i)),
			Value:         sym.U64R(name("coin", i), 0, maxMoney),
			LockingScript: scriptOf(kinds[sym.Choose(name("coin.kind", i), len(kinds))], byte(0x40+i)),
			KeyID:         name("coinkey", i),
		})
	}
	return r
}

// fresh gives the coins that are not spent yet, in order, as the inputs they become.
func fresh(ins []inState, utxos []bitcoin.UTXO) []inState {
	var r []inState
	for _, u := range utxos {
		dup := false
		for _, in := range append(append([]inState{}, ins...), r...) {
			if in.hash == u.Hash && in.index == u.Index {
				dup = true
			}
		}
		if !dup {
			r = append(r, inState{hash: u.Hash, index: u.Index, seq: wire.MaxTxInSequenceNum,
				script: u.LockingScript, value: u.Value, key: u.KeyID})
		}
	}
	return r
}

// funding is a transaction before funding and what is known about it.
type funding struct {
	tx      *txbuilder.TxBuilder
	outs    []outState
	ins     []inState
	in, out uint64
	est     uint64
	funded  bool // inputs already cover outputs and the estimated fee
	added   []inState
}

func newFunding(tx *txbuilder.TxBuilder, utxos []bitcoin.UTXO) *funding {
	f := &funding{tx: tx, outs: outsOf(tx), ins: insOf(tx)}
	for _, i := range f.ins {
		f.in += i.value
	}
	for _, o := range f.outs {
		f.out += o.value
	}
	f.est = tx.EstimatedFee()
	f.funded = f.in > f.out && f.in-f.out >= f.est
	f.added = fresh(f.ins, utxos)
	return f
}

// most is the most that is needed to cover the outputs and the fee with the first n new inputs when
// the fee of each is rounded up on its own.
func (f *funding) most(n int) uint64 {
	need := f.out + f.est
	for _, in := range f.added[:n] {
		fee, err := txbuilder.LockingScriptInputFee(in.script, f.tx.FeeRate)
		if err != nil {
			panic(err)
		}
		need += fee
	}
	// the count of inputs may get longer
	grow := varInt(len(f.ins)+n) - varInt(len(f.ins))
	return need + txbuilder.EstimatedFeeValue(uint64(grow), float64(f.tx.FeeRate))
}

// have is the value with the first n new inputs.
func (f *funding) have(n int) uint64 {
	v := f.in
	for _, in := range f.added[:n] {
		v += in.value
	}
	return v
}

// fundTx is a builder with 0 or 1 inputs of any value, up to maxOuts outputs of any value of which
// any may be change, and maybe a change script.
func fundTx(maxOuts int) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(anyRate("fee"), anyDustRate("dustfee"))
	if sym.Bool("input") {
		putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: sym.U64R("in", 1, maxMoney),
			seq: 0xfffffffe, key: "first"})
	}
	n := sym.Choose("outs", maxOuts+1)
	for i := 0; i < n; i++ {
		putOut(tx, outState{
			value:     sym.U64R(name("value", i), 0, maxMoney),
			script:    scriptOf((i*3)%5, byte(0x10+i)),
			remainder: sym.Bool(name("remainder", i)),
			dust:      sym.Bool(name("dust", i)),
			key:       name("key", i),
		})
	}
	if sym.Bool("changescript") {
		kinds := 2
		if n > 0 {
			kinds = 3
		}
		switch kind := sym.Choose("changekind", kinds); kind {
		case 2:
			tx.ChangeScript = tx.MsgTx.TxOut[n-1].LockingScript.Copy()
		default:
			tx.ChangeScript = scriptOf([]int{0, 4}[kind], 0x55)
		}
		tx.ChangeKeyID = "change"
	}
	return tx
}

// mixedTx is a builder with 2 or 3 outputs (thorough: 4) of any value of which any may be change, and
// a change script or none. Before them there may be an input.
func mixedTx(fee, dust float32) *txbuilder.TxBuilder {
	tx := txbuilder.NewTxBuilder(fee, dust)
	if sym.Bool("input") {
		putIn(tx, inState{hash: hashOf(1), index: 3, script: p2pkh(5), value: sym.U64R("in", 1, maxMoney),
			seq: 0xfffffffe, key: "first"})
	}
	counts := 2
	if sym.Thorough() {
		counts = 3
	}
	n := 2 + sym.Choose("outs", counts)
	for i := 0; i < n; i++ {
		putOut(tx, outState{
			value:     sym.U64R(name("value", i), 0, maxMoney),
			script:    scriptOf([]int{0, 1, 4, 2}[i], byte(0x10+i)),
			remainder: sym.Bool(name("remainder", i)),
			dust:      sym.Bool(name("dust", i)),
			key:       []string{name("key", i), ""}[i%2],
		})
	}
	if sym.Bool("changescript") {
		tx.ChangeScript = p2pkh(0x55)
		tx.ChangeKeyID = "change"
	}
	return tx
}

// keepLimit is the most that may stay with the miner instead of becoming change.
func (f *funding) keepLimit() uint64 {
	tx := f.tx
	at := firstChange(f.outs)
	slack := uint64(len(f.added)) + 3 + txbuilder.EstimatedFeeValue(4, float64(tx.FeeRate))
	if at >= 0 {
		return slack + txbuilder.DustLimitForLockingScript(f.outs[at].script, tx.DustFeeRate)
	}
	script := tx.ChangeScript
	if len(script) == 0 {
		script = p2pkh(1)
	}
	fee, dust := txbuilder.OutputFeeAndDustForLockingScript(script, tx.DustFeeRate, tx.FeeRate)
	return slack + fee + sym.IteU64(dust < fee, fee, dust)
}
