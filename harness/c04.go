package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// breakRate is a fee rate for breaking values.
func breakRate(n int) float32 {
	kinds := 3
	if n > 2 && !sym.Thorough() {
		kinds = 1
	}
	switch sym.Choose("rate", kinds) {
	case 0:
		return 0.05
	case 1:
		return 0
	}
	return rate("m", 1, 1<<12, 10)
}

// checkBreak asserts the rules for the outputs of a broken value.
func checkBreak(value, breakValue uint64, scripts []bitcoin.Script, keys []string, feeRate float32,
	last, subtract bool, outputs []*txbuilder.Output, err error) {

	sym.Assert(err == nil, "breaking works")
	firstOut, firstIn, _ := txbuilder.OutputTotalCost(scripts[0], feeRate)
	if len(outputs) == 0 {
		if subtract {
			sym.Assert(value <= firstOut+firstIn, "nothing is produced only when the value is too small")
		} else {
			sym.Assert(value <= firstIn, "nothing is produced only when the value is too small")
		}
		sym.Reach("nothing")
		return
	}
	sym.Assert(len(outputs) <= len(scripts), "no more outputs than destinations")
	used := make([]bool, len(scripts))
	total := uint64(0)
	flags := 0
	for _, o := range outputs {
		found := false
		for i, s := range scripts {
			if !used[i] && bytes.Equal(s, o.TxOut.LockingScript) {
				used[i] = true
				found = true
				sym.Assert(o.Supplement.KeyID == keys[i], "an output has the key of its destination")
				break
			}
		}
		sym.Assert(found, "outputs pay different given destinations")
		sym.Assert(!o.Supplement.IsDust, "no output is marked dust")
		outputFee, inputFee, _ := txbuilder.OutputTotalCost(o.TxOut.LockingScript, feeRate)
		sym.Assert(o.TxOut.Value <= value, "no output is worth more than the value")
		total += o.TxOut.Value
		if subtract {
			total += outputFee
		}
		sym.Assert(sym.Or(o.TxOut.Value > inputFee, o.TxOut.Value*10 >= breakValue*9),
			"an output is worth spending unless the break value is not")
		sym.Assert(o.TxOut.Value > 0, "an output has value")
		if o.Supplement.IsRemainder {
			flags++
		}
	}
	sym.Assert(total == value, "the value is conserved")
	if last {
		sym.Assert(flags == 1, "one output is the remainder when requested")
	} else {
		sym.Assert(flags == 0, "no output is the remainder when not requested")
	}
	sym.Reach("broken")
	for _, o := range outputs {
		sym.Observe("out", o.TxOut.Value, o.Supplement.KeyID)
	}
}

func breakArgs() (uint64, uint64, []bitcoin.Script, []string, float32, bool, bool) {
	n := 1 + sym.Choose("n", 3)
	if n > 2 && !sym.Thorough() {
		sym.ShuffleMode(1)
	}
	var scripts []bitcoin.Script
	var keys []string
	for i := 0; i < n; i++ {
		if i == 1 {
			scripts = append(scripts, p2pk(byte(0x30+i)))
		} else {
			scripts = append(scripts, p2pkh(byte(0x30+i)))
		}
		keys = append(keys, name("key", i))
	}
	return sym.U64R("value", 0, maxMoney), sym.U64R("breakvalue", 1, maxMoney), scripts, keys,
		breakRate(n), sym.Bool("last"), sym.Bool("subtract")
}

// C04_Addresses: every value and break value up to the money supply, 1 to 3 addresses, fee rates 0,
// 0.05 and every multiple of 1/1024 up to 4, both flags, any dust rate, every random draw. With 3 addresses the
// quick tier takes only the rate 0.05 and limits the final shuffle to rotations.
func C04_Addresses() {
	value, breakValue, scripts, keys, feeRate, last, subtract := breakArgs()
	var list []txbuilder.AddressKeyID
	for i, s := range scripts {
		ra, err := bitcoin.RawAddressFromLockingScript(s)
		if err != nil {
			panic(err)
		}
		list = append(list, txbuilder.AddressKeyID{Address: ra, KeyID: keys[i]})
	}
	outputs, err := txbuilder.BreakValue(value, breakValue, list, rate("dustfee", 0, 1<<13, 10), feeRate, last, subtract)
	checkBreak(value, breakValue, scripts, keys, feeRate, last, subtract, outputs, err)
}

// C04_Scripts: the same for locking scripts, which have no keys.
func C04_Scripts() {
	value, breakValue, scripts, keys, feeRate, last, subtract := breakArgs()
	for i := range keys {
		keys[i] = ""
	}
	outputs, err := txbuilder.BreakValueLockingScripts(value, breakValue, scripts, rate("dustfee", 0, 1<<13, 10), feeRate,
		last, subtract)
	checkBreak(value, breakValue, scripts, keys, feeRate, last, subtract, outputs, err)
}
