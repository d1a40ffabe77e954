package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// C11_Fund: the transactions and coins of C10_Fund.
func C11_Fund() {
	maxOuts, maxCoins, kinds := 1, 2, []int{0, 3}
	if sym.Thorough() {
		maxOuts, maxCoins = 2, 3
	}
	n := sym.Choose("coins", maxCoins+1)
	if sym.Thorough() && n < 3 {
		kinds = []int{0, 3, 4}
	}
	tx := fundTx(maxOuts)
	checkEnough(tx, coins(n, kinds))
}

// C11_Mixed: the transactions and coins of C10_Mixed.
func C11_Mixed() {
	n := 1 + sym.Choose("coins", 3)
	tx := mixedTx(0.5, []float32{0, 0.5}[sym.Choose("dustfee", 2)])
	checkEnough(tx, coins(n, []int{0}))
}

func checkEnough(tx *txbuilder.TxBuilder, utxos []bitcoin.UTXO) {
	f := newFunding(tx, utxos)
	crash := true
	var err error
	crash = sym.Panics(func() { err = tx.AddFunding(utxos) })
	sym.Assert(!crash, "funding does not crash")

	// enough is set when some number of the coins, in order, surely suffices
	enough := f.funded
	for i := 1; i <= len(f.added); i++ {
		enough = sym.Or(enough, f.have(i) >= f.most(i))
	}
	if err == nil {
		sym.Reach("funded")
		return
	}
	if is(err, txbuilder.ErrInsufficientValue) {
		sym.Assert(!enough, "coins that suffice are not insufficient")
		sym.Reach("insufficient")
		return
	}
	sym.Assert(is(err, txbuilder.ErrChangeAddressNeeded), "coins that suffice fail only for lack of a change address")
	sym.Assert(sym.And(len(tx.ChangeScript) == 0, firstChange(f.outs) < 0),
		"a change address is asked for only when there is none")
	sym.Assert(enough, "a change address is asked for only when coins suffice")
	least := txbuilder.LockingScriptOutputFee(p2pkh(1), tx.FeeRate)
	fee := tx.InputValue() - tx.OutputValue(true)
	sym.Assert(fee+1 >= tx.EstimatedFee()+least, "a change address is asked for only when change covers its own fee")
	sym.Reach("address")
}

// C11_NoCoins: any transaction as before and no coins left.
func C11_NoCoins() {
	tx := fundTx(2)
	f := newFunding(tx, nil)
	err := tx.AddFunding(nil)
	if f.funded {
		sym.Assert(!is(err, txbuilder.ErrInsufficientValue), "a funded transaction is not insufficient")
		sym.Reach("funded")
		return
	}
	if f.in < f.out+f.est {
		sym.Assert(is(err, txbuilder.ErrInsufficientValue), "no coins are insufficient")
		sym.Assert(sameIns(f.ins, insOf(tx)) && sameOuts(f.outs, outsOf(tx)), "no coins change nothing")
		sym.Reach("insufficient")
	}
}
