package verifharness

import (
	"strings"

	"verifharness/sym"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// numbers gives the numbers in the line that starts with the label, or false when there is none.
func numbers(text, label string) ([]uint64, bool) {
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, label) {
			continue
		}
		var r []uint64
		rest := line[len(label):]
		for i := 0; i < len(rest); {
			j := i
			if rest[i] == 1 {
				for rest[j] != 2 {
					j++
				}
				j++
			} else {
				for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
					j++
				}
			}
			if j == i {
				i++
				continue
			}
			v, ok := sym.ParseNum(rest[i:j])
			sym.Assert(ok, "the summary has numbers")
			r = append(r, v)
			i = j
		}
		return r, true
	}
	return nil, false
}

// lines gives the text after the label of every line that starts with it.
func lines(text, label string) []string {
	var r []string
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, label) {
			r = append(r, strings.TrimSpace(line[len(label):]))
		}
	}
	return r
}

// checkNums asserts that the texts are the numbers.
func checkNums(texts []string, nums []uint64, label string) {
	sym.Assert(len(texts) == len(nums), label)
	for i := 0; i < len(texts) && i < len(nums); i++ {
		v, ok := sym.ParseNum(texts[i])
		sym.Assert(ok && v == nums[i], label)
	}
}

var errNoOutput = errors.New("no output")

// told is a transaction that knows some of the outputs it spends.
type told struct {
	carried
	known []bool
}

func (s *told) InputOutput(i int) (*wire.TxOut, error) {
	if !s.known[i] {
		return nil, errNoOutput
	}
	return s.carried.InputOutput(i)
}

// C23_Totals: 0 to 2 inputs, each known with any value and one of 5 templates, with embedded data of
// any size of 2 bytes and any value of 6 bytes, signed without known output, or unknown; 0 to 2
// outputs of any value.
func C23_Totals() {
	s := &told{}
	s.tx = &wire.MsgTx{Version: 1, LockTime: sym.U32("locktime")}
	ins, outs := sym.Choose("ins", 3), sym.Choose("outs", 3)
	in, size := uint64(0), uint64(8+1+1)
	valueKnown, sizeKnown := true, true
	var values []uint64
	for i := 0; i < ins; i++ {
		txin := &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: hashOf(byte(i + 1)), Index: uint32(i)}}
		out := wire.TxOut{}
		known := false
		switch k := sym.Choose(name("source", i), 8); k {
		case 0, 1, 2, 3, 4:
			known = true
			out.Value = sym.U64R(name("value", i), 0, maxMoney)
			out.LockingScript = scriptOf([]int{0, 3, 4, 0, 2}[k], byte(i))
			if k == 3 {
				out.LockingScript = agentTransfer(out.LockingScript)
			}
			in += out.Value
			values = append(values, out.Value)
			n, err := txbuilder.InputSize(out.LockingScript)
			if err != nil {
				sizeKnown = false
			}
			size += uint64(n)
			txin.UnlockingScript = bitcoin.Script{bitcoin.OP_1}
			if sym.Bool(name("unsigned", i)) {
				txin.UnlockingScript = nil
			}
		case 5:
			var n, v uint64
			txin.UnlockingScript, n, v = embedded(name("data", i), 2, 6)
			in += v
			size += 40 + varIntOf(n) + n
			if v == 0 {
				valueKnown = false
			} else {
				values = append(values, v)
			}
			if n == 0 {
				sizeKnown = false
			}
		case 6:
			txin.UnlockingScript = bitcoin.Script{bitcoin.OP_1, bitcoin.OP_2}
			size += 40 + 1 + 2
			valueKnown = false
		case 7:
			valueKnown, sizeKnown = false, false
			if sym.Bool(name("other", i)) {
				txin.UnlockingScript = opReturn(5, 3)
			}
		}
		s.tx.TxIn = append(s.tx.TxIn, txin)
		s.spent = append(s.spent, out)
		s.known = append(s.known, known)
	}
	out := uint64(0)
	for i := 0; i < outs; i++ {
		o := &wire.TxOut{Value: sym.U64R(name("out", i), 0, maxMoney), LockingScript: scriptOf(i*2, 1)}
		s.tx.TxOut = append(s.tx.TxOut, o)
		out += o.Value
		values = append(values, o.Value)
		size += uint64(o.SerializeSize())
	}
	text := txbuilder.TxString(s)
	checkNums(lines(text, "Value:"), values, "every known value is given")
	checkNums(lines(text, "Locktime:"), []uint64{uint64(s.tx.LockTime)}, "the lock time is given")
	counts, ok := numbers(text, "Inputs")
	sym.Assert(ok && len(counts) == 1 && counts[0] == uint64(ins), "the input count is given")
	counts, ok = numbers(text, "Outputs")
	sym.Assert(ok && len(counts) == 1 && counts[0] == uint64(outs), "the output count is given")
	sym.Assert((len(lines(text, "Fee rate:")) == 1) == sym.And(sizeKnown, valueKnown, in >= out),
		"the fee rate is given exactly when fee and size are known")
	got, ok := numbers(text, "Estimated tx size:")
	sym.Assert(ok == sizeKnown, "the size is given exactly when it is known")
	if ok {
		sym.Assert(len(got) == 1 && got[0] == size, "the size is the estimated size")
		sym.Reach("size")
	}
	got, ok = numbers(text, "Fee:")
	neg, isNeg := numbers(text, "Negative fee:")
	if !valueKnown {
		sym.Assert(!ok && !isNeg, "no fee is given when a value is unknown")
		sym.Reach("unknown")
		return
	}
	if in >= out {
		sym.Assert(ok && !isNeg, "the fee is given")
		sym.Assert(len(got) == 3 && got[0] == in-out, "the fee is inputs minus outputs")
		sym.Assert(len(got) == 3 && got[1] == in && got[2] == out, "the totals are right")
		sym.Reach("fee")
	} else {
		sym.Assert(isNeg && !ok, "the negative fee is given")
		sym.Assert(len(neg) == 3 && neg[0] == out-in, "the negative fee is outputs minus inputs")
		sym.Assert(len(neg) == 3 && neg[1] == in && neg[2] == out, "the totals with a negative fee are right")
		sym.Reach("negative")
	}
}

// C23_Rate: the fee rate of a builder with one or two inputs, one output and any fee below 2^24.
func C23_Rate() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	fee := sym.U64R("fee", 0, 1<<24-1)
	putIn(tx, inState{hash: hashOf(1), script: p2pkh(1), value: fee + 1000})
	if sym.Bool("more") {
		putIn(tx, inState{hash: hashOf(2), script: p2pk(1), value: 500})
		fee += 500
	}
	putOut(tx, outState{value: 1000, script: p2pkh(2)})
	rates := lines(txbuilder.TxString(tx), "Fee rate:")
	sym.Assert(len(rates) == 1 && strings.HasSuffix(rates[0], " sat/byte"), "the fee rate is given")
	v, ok := sym.ParseFixed(strings.TrimSuffix(rates[0], " sat/byte"), 4)
	size := uint64(tx.EstimatedSize())
	slack := size + fee>>8
	sym.Assert(ok && v*size <= fee*10000+slack && fee*10000 <= v*size+slack, "the fee rate is fee over size")
	sym.Reach("done")
}

// C23_Builder: the summary of a builder with 0 to 2 inputs of supported templates and 0 to 2 outputs
// of any value agrees with the builder's own size and fee.
func C23_Builder() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	ins, outs := sym.Choose("ins", 3), sym.Choose("outs", 3)
	for i := 0; i < ins; i++ {
		putIn(tx, inState{hash: hashOf(byte(i + 1)), script: scriptOf([]int{0, 3, 4}[sym.Choose(name("kind", i), 3)], 1),
			value: sym.U64R(name("in", i), 0, maxMoney), unlock: sym.Bytes(name("unlock", i), i*2)})
	}
	for i := 0; i < outs; i++ {
		putOut(tx, outState{value: sym.U64R(name("out", i), 0, maxMoney), script: scriptOf(i, 2)})
	}
	before := wholeOf(tx)
	text := txbuilder.TxString(tx)
	got, ok := numbers(text, "Estimated tx size:")
	sym.Assert(ok && len(got) == 1 && got[0] == uint64(tx.EstimatedSize()), "the size is the builder's estimate")
	label := "Fee:"
	if tx.ActualFee() < 0 {
		label = "Negative fee:"
	}
	got, ok = numbers(text, label)
	sym.Assert(ok && len(got) == 3, "the fee is given")
	fee := got[0]
	if label != "Fee:" {
		fee = -fee
	}
	sym.Assert(fee == uint64(tx.ActualFee()), "the fee is the builder's")
	sym.Assert(got[1] == tx.InputValue() && got[2] == tx.OutputValue(true), "the totals are the builder's")
	got, ok = numbers(text, "Raw size:")
	sym.Assert(ok && len(got) == 1 && got[0] == uint64(tx.MsgTx.SerializeSize()), "the raw size is the serialized size")
	sym.Assert(sameWhole(before, wholeOf(tx)), "printing changes nothing")
	sym.Reach("done")
}

// C23_Counts: the summary of a builder with 252 or 253 inputs and outputs of any value.
func C23_Counts() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	ins, outs := 252+sym.Choose("ins", 2), 252+sym.Choose("outs", 2)
	in, out := sym.U64R("in", 1, 1000000), sym.U64R("out", 0, 1000000)
	for i := 0; i < ins; i++ {
		putIn(tx, inState{hash: hashOf(1), index: uint32(i), script: p2pkh(1), value: in})
	}
	for i := 0; i < outs; i++ {
		putOut(tx, outState{value: out, script: p2pkh(2)})
	}
	text := txbuilder.TxString(tx)
	got, ok := numbers(text, "Estimated tx size:")
	sym.Assert(ok && len(got) == 1 && got[0] == uint64(tx.EstimatedSize()), "the size is the builder's estimate")
	label := "Fee:"
	if tx.ActualFee() < 0 {
		label = "Negative fee:"
	}
	got, ok = numbers(text, label)
	sym.Assert(ok && len(got) == 3, "the fee is given")
	sym.Assert(got[1] == in*uint64(ins) && got[2] == out*uint64(outs), "the totals are the builder's")
	sym.Reach("done")
}

// C23_String: the text of a builder with 0 to 2 inputs and outputs of any value, with and without
// key ID, outputs with any flags.
func C23_String() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	tx.MsgTx.LockTime = sym.U32("locktime")
	ins, outs := sym.Choose("ins", 3), sym.Choose("outs", 3)
	var keys []string
	for i := 0; i < ins; i++ {
		in := inState{hash: hashOf(byte(i + 1)), index: sym.U32(name("index", i)), script: scriptOf([]int{0, 3}[i], 1),
			value: sym.U64R(name("in", i), 0, maxMoney)}
		if sym.Choose(name("key", i), 2) == 1 {
			in.key = name("in", i)
			keys = append(keys, in.key)
		}
		putIn(tx, in)
	}
	var flags []string
	for i := 0; i < outs; i++ {
		out := outState{value: sym.U64R(name("out", i), 0, maxMoney), script: scriptOf(i, 2)}
		k := sym.Choose(name("flags", i), 4)
		out.remainder, out.dust = k&1 != 0, k&2 != 0
		if sym.Choose(name("outkey", i), 2) == 1 {
			out.key = name("out", i)
			keys = append(keys, out.key)
		}
		flags = append(flags, "out")
		if out.remainder {
			flags = append(flags, "IsRemainder")
		}
		if out.dust {
			flags = append(flags, "IsDust")
		}
		putOut(tx, out)
	}
	before := wholeOf(tx)
	text := tx.String(bitcoin.MainNet)
	sym.Assert(sameWhole(before, wholeOf(tx)), "the text changes nothing")
	values := lines(text, "Value:")
	sym.Assert(len(values) == ins+outs, "the text has a value for each input and output")
	for i := 0; i < ins; i++ {
		v, ok := sym.ParseNum(values[i])
		sym.Assert(ok && v == tx.Inputs[i].Value, "the text has the value of the input")
	}
	for i := 0; i < outs; i++ {
		v, ok := sym.ParseFixed(values[ins+i], 8)
		sym.Assert(ok && v == tx.MsgTx.TxOut[i].Value, "the text has the value of the output")
	}
	var got []string
	for _, line := range strings.Split(text[strings.Index(text, "Outputs:"):], "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "Value:") {
			got = append(got, "out")
		}
		if strings.HasPrefix(line, "Is") {
			got = append(got, line)
		}
	}
	sym.Assert(strings.Join(got, " ") == strings.Join(flags, " "), "the text has the flags of the outputs")
	got = nil
	for _, k := range lines(text, "KeyID") {
		got = append(got, strings.TrimSpace(strings.TrimPrefix(k, ":")))
	}
	sym.Assert(strings.Join(got, " ") == strings.Join(keys, " "), "the text has the key IDs")
	checkNums(lines(text, "LockTime:"), []uint64{uint64(tx.MsgTx.LockTime)}, "the text has the lock time")
	checkNums(lines(text, "Version:"), []uint64{uint64(tx.MsgTx.Version)}, "the text has the version")
	head := strings.SplitN(text, "\n", 2)[0]
	n, ok := numbers(head[strings.Index(head, "("):], "(")
	sym.Assert(ok && len(n) == 3, "the text has sizes and fee")
	sym.Assert(n[0] == uint64(tx.MsgTx.SerializeSize()), "the text has the size")
	sym.Assert(n[1] == uint64(tx.EstimatedSize()), "the text has the estimated size")
	sym.Assert(n[2] == tx.Fee(), "the text has the fee")
	sym.Reach("done")
}
