package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/bitcoin_interpreter/check_signature_preimage"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// C07_VarInt: every 64 bit value.
func C07_VarInt() {
	v := sym.U64("v")
	var buf bytes.Buffer
	if err := wire.WriteVarInt(&buf, 0, v); err != nil {
		panic(err)
	}
	sym.Assert(txbuilder.VarIntSerializeSize(v) == buf.Len(), "size of a variable length integer")
	sym.Reach("done")
	sym.Observe("size", buf.Len())
}

// C07_Sizes: every script size up to 2^31.
func C07_Sizes() {
	n := sym.IntR("n", 0, 1<<31-1)
	v := 1
	if n >= 1<<16 {
		v = 5
	} else if n >= 253 {
		v = 3
	}
	sym.Assert(fees.InputSizeForUnlockingScriptSize(n) == 40+v+n, "input size for a script size")
	sym.Assert(fees.OutputSizeForLockingScriptSize(n) == 8+v+n, "output size for a script size")
	sym.Reach("done")
}

var lengths = []int{0, 1, 25, 252, 253, 254, 65535, 65536}

// C07_Output: locking scripts of lengths around the boundaries of the length encoding: 0, 1, 25,
// 252, 253, 254, 65535 and 65536; any value.
func C07_Output() {
	script := make(bitcoin.Script, lengths[sym.Choose("length", len(lengths))])
	out := &wire.TxOut{Value: sym.U64("value"), LockingScript: script}
	var buf bytes.Buffer
	if err := out.Serialize(&buf, 0, 0); err != nil {
		panic(err)
	}
	sym.Assert(txbuilder.OutputSize(script) == buf.Len(), "size of an output")
	sym.Assert(fees.OutputSize(script) == buf.Len(), "standalone size of an output")
	sym.Reach("done")
	sym.Observe("size", buf.Len())
}

// C07_Counts: 1, 252 or 253 inputs of any value and template with unlocking scripts of maximum
// length, 0, 1, 252 or 253 outputs of any value, one of them with a script of each length above.
func C07_Counts() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	ins := []int{1, 252, 253}[sym.Choose("ins", 3)]
	outs := []int{0, 1, 252, 253}[sym.Choose("outs", 4)]
	kind := []int{0, 3, 4}[sym.Choose("kind", 3)]
	value := sym.U64R("value", 0, maxMoney)
	for i := 0; i < ins; i++ {
		putIn(tx, inState{hash: hashOf(byte(i)), index: uint32(i), script: scriptOf(kind, 1),
			unlock: make([]byte, unlockSize(kind)), value: value})
	}
	for i := 0; i < outs; i++ {
		s := p2pkh(2)
		if i == 0 {
			s = make(bitcoin.Script, lengths[sym.Choose("length", len(lengths))])
		}
		putOut(tx, outState{value: value, script: s})
	}
	b, err := tx.Serialize()
	sym.Assert(err == nil, "serializing works")
	sym.Assert(tx.EstimatedSize() == len(b), "the estimate is the size with unlocking scripts of maximum length")
	sym.Reach("done")
	sym.Observe("size", len(b))
}

// C07_Signed: 1 or 2 inputs (thorough: 3) locked to a public key, a public key hash, 1 of 2, 2 of 2
// or 2 of 3 public key hashes, every signature 70, 71 or 72 bytes long (thorough: 69 to 72, and 71
// or 72 with 3 inputs), one output of any value.
func C07_Signed() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	n := 1 + sym.Choose("n", 2)
	if sym.Thorough() {
		n = 1 + sym.Choose("n", 3)
	}
	if n < 3 && sym.Thorough() {
		sym.SigLens(69, 70, 71, 72)
	} else if n == 3 {
		sym.SigLens(71, 72)
	} else {
		sym.SigLens(70, 71, 72)
	}
	keys := []bitcoin.Key{keyOf(0), keyOf(1), keyOf(2), keyOf(3)}
	sigs := 0
	for i := 0; i < n; i++ {
		var s bitcoin.Script
		switch sym.Choose("kind", 5) {
		case 0:
			s = p2pkhOf(keys[i])
			sigs++
		case 1:
			s = p2pkOf(keys[i])
			sigs++
		case 2:
			s = multiOf(1, keys[3], keys[i])
			sigs++
		case 3:
			s = multiOf(2, keys[3], keys[i])
			sigs += 2
		case 4:
			s = multiOf(2, keyOf(9), keys[3], keys[i])
			sigs += 2
		}
		putIn(tx, inState{hash: hashOf(byte(i + 1)), index: 1, script: s, value: 10000})
	}
	putOut(tx, outState{value: sym.U64R("value", 0, maxMoney), script: p2pkh(1)})
	estimate := tx.EstimatedSize()
	_, err := tx.SignOnly(keys)
	sym.Assert(err == nil, "signing works")
	sym.Assert(tx.AllInputsAreSigned(), "every input is signed")
	sym.Assert(tx.EstimatedSize() == estimate, "signing does not change the estimate")
	size := tx.MsgTx.SerializeSize()
	sym.Assert(size <= estimate, "the estimate is never low")
	max := 0
	for i, in := range tx.MsgTx.TxIn {
		items, err := bitcoin.ParseScriptItems(bytes.NewReader(in.UnlockingScript), -1)
		sym.Assert(err == nil, "the unlocking script parses")
		for _, item := range items {
			if item.Type == bitcoin.ScriptItemTypePushData && len(item.Data) == 73 {
				max++
			}
		}
		limit, err := txbuilder.InputSize(tx.Inputs[i].LockingScript)
		sym.Assert(err == nil && in.SerializeSize() <= limit, "the input size is never low")
	}
	if max == sigs {
		sym.Assert(size == estimate, "the estimate is exact for signatures of maximum length")
		sym.Reach("maximum")
	} else {
		sym.Assert(estimate-size <= sigs*4+2*n, "the estimate is high by the missing signature bytes")
		sym.Reach("below")
	}
	sym.Observe("size", size, estimate)
}

// C07_Mixed: 1 or 2 inputs (thorough: 3), each to a public key, a public key hash, 1 of 2 or 3 of 5
// public key hashes or an agent, with an unlocking script of 0 or 2 arbitrary bytes and any value; 0
// to 2 outputs of any value to a public key hash or with data of 252 or 253 bytes.
func C07_Mixed() {
	tx := txbuilder.NewTxBuilder(0.5, 0.5)
	most := 2
	if sym.Thorough() {
		most = 3
	}
	n := 1 + sym.Choose("ins", most)
	size := 4 + 1 + 1 + 4
	for i := 0; i < n; i++ {
		var s bitcoin.Script
		unlock := 0
		switch sym.Choose(name("kind", i), 6) {
		case 0:
			s, unlock = p2pkh(1), 74+34
		case 1:
			s, unlock = p2pk(1), 74
		case 2:
			s, unlock = multiPKH(1, 2, 1), 74+34+1+1
		case 3:
			s, unlock = multiPKH(3, 5, 1), 3*(74+34+1)+2
		case 4:
			s, unlock = agentTransfer(p2pkh(1)), 74+34+2+check_signature_preimage.UnlockingSize
		case 5:
			s, unlock = agentTransfer(multiPKH(2, 3, 1)), 2*(74+34+1)+1+2+check_signature_preimage.UnlockingSize
		}
		putIn(tx, inState{hash: hashOf(byte(i + 1)), index: 1, script: s, unlock: sym.Bytes(name("unlock", i), 2*sym.Choose(name("signed", i), 2)),
			value: sym.U64R(name("value", i), 0, maxMoney)})
		size += 40 + varInt(unlock) + unlock
	}
	outs := sym.Choose("outs", 3)
	for i := 0; i < outs; i++ {
		s := []bitcoin.Script{p2pkh(2), opReturn(252, 1), opReturn(253, 1)}[sym.Choose(name("out.kind", i), 3)]
		putOut(tx, outState{value: sym.U64R(name("out", i), 0, maxMoney), script: s, remainder: sym.Bool(name("remainder", i)), dust: sym.Bool(name("dust", i))})
		size += 8 + varInt(len(s)) + len(s)
	}
	sym.Assert(tx.EstimatedSize() == size, "the estimate is the size with unlocking scripts of maximum length")
	sym.Reach("done")
	sym.Observe("size", size)
}

// others asks for the sizes of other scripts, some as long as those of the n given signers.
func others(n int) {
	for i := n; i > 0; i-- {
		txbuilder.UnlockingScriptSize(multiPKH(i, n, 9))
		fees.EstimateUnlockingSize(multiPKH(i, n, 9))
	}
	for _, s := range []bitcoin.Script{p2pkh(9), p2pk(9), unknown(25, 1), unknown(35, 1), agentTransfer(p2pkh(9))} {
		txbuilder.UnlockingScriptSize(s)
		fees.EstimateUnlockingSize(s)
	}
}

// C07_Templates: after sizes of other scripts were asked for, every m of n public key hashes up to 4 of 5, agent transfers whose agent uses
// each of the other templates.
func C07_Templates() {
	total := 1 + sym.Choose("total", 5)
	required := 1 + sym.Choose("required", total)
	var s bitcoin.Script
	want := 0
	switch sym.Choose("kind", 3) {
	case 0:
		s, want = p2pkh(1), 74+34
	case 1:
		s, want = p2pk(1), 74
	case 2:
		s, want = multiPKH(required, total, 1), required*(74+34+1)+total-required
	}
	if sym.Choose("agent", 2) == 1 {
		s = agentTransfer(s)
		want += 2 + check_signature_preimage.UnlockingSize
		sym.Reach("agent")
	}
	before := clone(s)
	others(total)
	got, err := txbuilder.UnlockingScriptSize(s)
	sym.Assert(err == nil && got == want, "the unlocking size of the template")
	in, err := txbuilder.InputSize(s)
	sym.Assert(err == nil && in == 40+varInt(want)+want, "the input size of the template")
	sym.Assert(bytes.Equal(before, s), "the script is unchanged")
	sym.Observe("size", got)
}

// agentLike tells scripts that start like an agent transfer.
func agentLike(s bitcoin.Script) bool { return len(s) > 0 && s[0] == bitcoin.OP_NOTIF }

// multiLike tells scripts that start like those for several public key hashes.
func multiLike(s bitcoin.Script) bool {
	return len(s) > 1 && s[0] == bitcoin.OP_0 && s[1] == bitcoin.OP_TOALTSTACK
}

func unknownSize(s bitcoin.Script) {
	crash := sym.Panics(func() { txbuilder.UnlockingScriptSize(s) })
	if agentLike(s) {
		sym.Assert(!crash, "estimating a script that starts with OP_NOTIF does not crash")
	} else if multiLike(s) {
		sym.Assert(!crash, "estimating a script that starts with OP_0 OP_TOALTSTACK does not crash")
	} else {
		sym.Assert(!crash, "estimating an unknown script does not crash")
	}
	_, err := txbuilder.UnlockingScriptSize(s)
	sym.Assert(err != nil, "an unknown script is an error")
	_, err = txbuilder.InputSize(s)
	sym.Assert(err != nil, "an input with an unknown script is an error")
	sym.Reach("unknown")
}

// C07_Unknown: every script of 0 to 3 bytes (thorough: 4).
func C07_Unknown() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	unknownSize(sym.Bytes("s", sym.Choose("n", max)))
}

// multiRest is OP_0, OP_TOALTSTACK and 0 to 3 bytes more (thorough: 4). None of these is a template
// other than one that has no signers and requires none.
func multiRest() bitcoin.Script {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	s := sym.Bytes("s", sym.Choose("n", max))
	for _, zero := range []bitcoin.Script{{bitcoin.OP_0}, {1, 0}, {1, 0x80}} {
		none := append(zero, bitcoin.OP_FROMALTSTACK, bitcoin.OP_LESSTHANOREQUAL)
		sym.Assume(!bytes.Equal(s, none))
	}
	return append(bitcoin.Script{bitcoin.OP_0, bitcoin.OP_TOALTSTACK}, s...)
}

// C07_Multi: every script of OP_0, OP_TOALTSTACK and 0 to 3 bytes more (thorough: 4).
func C07_Multi() { unknownSize(multiRest()) }

// tooMany is a script for 1 to 3 public key hashes that requires -1 or any number up to 16 of
// signatures that is more than it has keys.
func tooMany() bitcoin.Script {
	total := 1 + sym.Choose("total", 3)
	s := multiPKH(1, total, 1)
	b := sym.Byte("required")
	sym.Assume(sym.Or(b == bitcoin.OP_1NEGATE, sym.And(b > bitcoin.OP_1-1+byte(total), b <= bitcoin.OP_16)))
	s[len(s)-3] = b
	return s
}

// C07_Required: scripts for 1 to 3 public key hashes that require -1 or any number up to 16 of
// signatures that is more than they have keys.
func C07_Required() { unknownSize(tooMany()) }

// C07_Mangled: scripts of the known templates with the last byte missing, with any opcode beyond
// the pushes added, or with any byte changed to any such opcode.
func C07_Mangled() {
	s := []bitcoin.Script{p2pkh(1), p2pk(1), multiPKH(1, 1, 1)}[sym.Choose("kind", 3)]
	switch sym.Choose("how", 3) {
	case 0:
		s = s[:len(s)-1]
	case 1:
		b := sym.Byte("b")
		sym.Assume(b > bitcoin.OP_16)
		s = append(s, b)
	case 2:
		// the opcodes of the templates; the data in between may be anything
		at := sym.Choose("at", len(s))
		b := sym.Byte("b")
		old := s[at]
		sym.Assume(sym.And(b != old, b > bitcoin.OP_16))
		if old == 1 || old == 2 {
			sym.Assume(false)
		}
		s[at] = b
	}
	unknownSize(s)
}

// C07_Cut: agent transfers cut off anywhere or with any opcode beyond the pushes added.
func C07_Cut() {
	s := agentTransfer(p2pkh(1))
	n := sym.Choose("n", len(s)+1)
	if n == len(s) {
		b := sym.Byte("b")
		sym.Assume(b > bitcoin.OP_16)
		s = append(s, b)
	} else {
		s = s[:n]
	}
	unknownSize(s)
}

// otherAgent is an agent transfer whose agent uses none of the supported templates.
func otherAgent() bitcoin.Script {
	var s bitcoin.Script
	switch sym.Choose("agent", 5) {
	case 0:
		s = bitcoin.Script{bitcoin.OP_CHECKSIG}
	case 1:
		s = bitcoin.Script{bitcoin.OP_HASH160, 1, 5, bitcoin.OP_EQUAL}
	case 2:
		s = append(unknown(80, 1), bitcoin.OP_EQUAL)
	case 3:
		s = p2pkh(1)[1:]
	case 4:
		s = append(bitcoin.Script{bitcoin.OP_NOP}, p2pk(1)...)
	}
	return agentTransfer(s)
}

// C07_Agent: agent transfers whose agent uses one of 5 unknown scripts, two of them close to a
// template.
func C07_Agent() {
	s := otherAgent()
	var err error
	sym.Assert(!sym.Panics(func() { _, err = txbuilder.UnlockingScriptSize(s) }), "estimating an unknown agent does not crash")
	sym.Assert(err != nil, "an unknown agent is an error")
	_, err = txbuilder.InputSize(s)
	sym.Assert(err != nil, "an input with an unknown agent is an error")
	sym.Reach("done")
}
