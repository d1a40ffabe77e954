package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// lock is a locking script with the keys that can unlock it.
type lock struct {
	script   bitcoin.Script
	required int
	keys     []bitcoin.Key
	multi    bool
	bare     bool // no public key in the unlocking script
}

func has(keys []bitcoin.Key, k bitcoin.Key) bool {
	for _, x := range keys {
		if x.Equal(k) {
			return true
		}
	}
	return false
}

// able tells whether the keys suffice for the lock.
func (l lock) able(keys []bitcoin.Key) bool {
	n := 0
	for _, k := range l.keys {
		if has(keys, k) {
			n++
		}
	}
	return n >= l.required
}

// anyLock is one of the supported templates.
func anyLock(tag string, kinds int, k []bitcoin.Key) lock {
	switch sym.Choose(tag, kinds) {
	case 0:
		return lock{script: p2pkhOf(k[0]), required: 1, keys: k[:1]}
	case 1:
		return lock{script: multiOf(2, k[0], k[1], k[2]), required: 2, keys: k[:3], multi: true}
	case 2:
		return lock{script: p2pkOf(k[1]), required: 1, keys: k[1:2], bare: true}
	case 3:
		return lock{script: multiOf(1, k[2], k[0], k[1]), required: 1, keys: []bitcoin.Key{k[2], k[0], k[1]}, multi: true}
	case 4:
		return lock{script: multiOf(2, k[0], k[0]), required: 2, keys: []bitcoin.Key{k[0], k[0]}, multi: true}
	}
	return lock{script: multiOf(2, k[1], k[0]), required: 2, keys: []bitcoin.Key{k[1], k[0]}, multi: true}
}

// goodSig tells whether the bytes are a signature by the key over the input of the transaction as
// it is, for the given type.
func goodSig(sig []byte, k bitcoin.Key, tx *wire.MsgTx, index int, script bitcoin.Script, value uint64, t txbuilder.SigHashType) bool {
	h, err := txbuilder.SignatureHash(tx, index, script, value, t, &txbuilder.SigHashCache{})
	if err != nil {
		panic(err)
	}
	s, err := k.Sign(*h)
	if err != nil {
		panic(err)
	}
	return bytes.Equal(sig, append(s.Bytes(), byte(t)))
}

// checkUnlock asserts that the input is unlocked and gives the keys used.
func checkUnlock(l lock, tx *txbuilder.TxBuilder, i int) []bitcoin.Key {
	const all = txbuilder.SigHashAll | txbuilder.SigHashForkID
	items, err := bitcoin.ParseScriptItems(bytes.NewReader(tx.MsgTx.TxIn[i].UnlockingScript), -1)
	sym.Assert(err == nil, "the unlocking script parses")
	value := tx.Inputs[i].Value
	if !l.multi {
		want := 2
		if l.bare {
			want = 1
		}
		sym.Assert(len(items) == want, "the unlocking script has the parts of the template")
		if len(items) != want {
			return nil
		}
		sym.Assert(goodSig(items[0].Data, l.keys[0], tx.MsgTx, i, l.script, value, all), "the signature is for the final transaction")
		if !l.bare {
			sym.Assert(bytes.Equal(items[1].Data, l.keys[0].PublicKey().Bytes()), "the public key is that of the script")
		}
		return l.keys[:1]
	}
	var used []bitcoin.Key
	pos := 0
	for j := len(l.keys) - 1; j >= 0; j-- {
		if pos < len(items) && items[pos].Type == bitcoin.ScriptItemTypeOpCode && items[pos].OpCode == bitcoin.OP_FALSE {
			pos++
			continue
		}
		ok := pos+2 < len(items) && items[pos+2].Type == bitcoin.ScriptItemTypeOpCode && items[pos+2].OpCode == bitcoin.OP_TRUE
		sym.Assert(ok, "each signer has signature, public key and true")
		if !ok {
			return used
		}
		sym.Assert(bytes.Equal(items[pos+1].Data, l.keys[j].PublicKey().Bytes()), "each signer is in reverse order of the script")
		sym.Assert(goodSig(items[pos].Data, l.keys[j], tx.MsgTx, i, l.script, value, all), "each signature is for the final transaction")
		used = append(used, l.keys[j])
		pos += 3
	}
	sym.Assert(pos == len(items), "nothing follows the signers")
	sym.Assert(len(used) == l.required, "as many sign as are required")
	return used
}

// checkSigned asserts the outcome of signing with the given keys. old are unlocking scripts from
// before that stay, stale those that are replaced.
func checkSigned(tx *txbuilder.TxBuilder, locks []lock, old, stale [][]byte, keys, result []bitcoin.Key, err error) {
	missing := false
	var used []bitcoin.Key
	for i, l := range locks {
		if len(old[i]) > 0 {
			sym.Assert(bytes.Equal(old[i], tx.MsgTx.TxIn[i].UnlockingScript), "an unlocking script that is present stays")
			continue
		}
		if !l.able(keys) {
			missing = true
			sym.Assert(bytes.Equal(stale[i], tx.MsgTx.TxIn[i].UnlockingScript), "an input without keys is not unlocked")
			continue
		}
		for _, k := range checkUnlock(l, tx, i) {
			if !has(used, k) {
				used = append(used, k)
			}
		}
	}
	if missing {
		sym.Assert(is(err, txbuilder.ErrMissingPrivateKey), "a missing key is reported")
		sym.Reach("missing")
	} else {
		sym.Assert(err == nil, "signing with all keys works")
		sym.Reach("signed")
	}
	for _, k := range used {
		sym.Assert(has(result, k), "every key used is returned")
	}
	for i, k := range result {
		sym.Assert(has(used, k), "only keys used are returned")
		sym.Assert(!has(result[:i], k), "no key is returned twice")
	}
}

// someKeys is a list of some of 3 keys in some order, maybe with one that fits nothing.
func someKeys(k []bitcoin.Key) []bitcoin.Key {
	switch sym.Choose("keys", 6) {
	case 0:
		return []bitcoin.Key{k[0], k[1], k[2]}
	case 1:
		return []bitcoin.Key{k[2], keyOf(7), k[1], k[0]}
	case 2:
		return []bitcoin.Key{k[0]}
	case 3:
		return []bitcoin.Key{k[1], k[2]}
	case 4:
		return []bitcoin.Key{keyOf(7), k[2], k[2]}
	}
	return nil
}

// C15_Sign: 1 or 2 inputs with any of 5 templates (6 with 1 input), each of 6 selections and orders of 3 keys and
// one that does not fit; values of the inputs, a payment and change of any amount, fee rate 5, so
// that the fee is adjusted after a first round of signatures; signatures 70 or 72 bytes long; the last
// input maybe with an unlocking script from before.
func C15_Sign() {
	sym.SigLens(70, 72)
	k := []bitcoin.Key{keyOf(0), keyOf(1), keyOf(2)}
	keys := someKeys(k)
	tx := txbuilder.NewTxBuilder(5, 0)
	tx.SendMax = sym.Bool("sendmax")
	n := 1 + sym.Choose("n", 2)
	var locks []lock
	stale := make([][]byte, n)
	if sym.Bool("stale") {
		stale[n-1] = []byte{1, 9}
	}
	for i := 0; i < n; i++ {
		kinds := 6
		if n > 1 && !sym.Thorough() {
			kinds = 3
		}
		l := anyLock(name("lock", i), kinds, k)
		locks = append(locks, l)
		putIn(tx, inState{hash: hashOf(byte(i + 1)), index: 1, script: l.script, unlock: clone(stale[i]), value: sym.U64R(name("in", i), 0, maxMoney), seq: 7})
	}
	putOut(tx, outState{value: sym.U64R("pay", 0, maxMoney), script: p2pkh(0x22)})
	putOut(tx, outState{value: sym.U64R("change", 20000, maxMoney), script: p2pkh(0x33), remainder: true})
	in, out := tx.InputValue(), tx.OutputValue(true)
	sym.Assume(in >= out+tx.EstimatedFee())
	result, err := tx.Sign(keys)
	checkSigned(tx, locks, make([][]byte, n), stale, keys, result, err)
	sym.Observe("keys", len(result))
}

// C15_Only: 1 to 3 inputs with any of 5 templates (quick: 3 inputs only with 2), any of them with
// an unlocking script already, 6 selections of keys; any values.
func C15_Only() {
	k := []bitcoin.Key{keyOf(0), keyOf(1), keyOf(2)}
	keys := someKeys(k)
	tx := txbuilder.NewTxBuilder(0.5, 0)
	n := 1 + sym.Choose("n", 3)
	var locks []lock
	var old [][]byte
	for i := 0; i < n; i++ {
		kinds := 6
		if n > 2 && !sym.Thorough() {
			kinds = 2
		}
		l := anyLock(name("lock", i), kinds, k)
		locks = append(locks, l)
		var u []byte
		if sym.Bool(name("signed", i)) {
			u = []byte{1, byte(i)}
		}
		old = append(old, u)
		putIn(tx, inState{hash: hashOf(byte(i + 1)), index: 1, script: l.script, unlock: clone(u),
			value: sym.U64R(name("in", i), 0, maxMoney), seq: 7})
	}
	putOut(tx, outState{value: sym.U64R("pay", 0, maxMoney), script: p2pkh(0x22)})
	putOut(tx, outState{value: sym.U64R("change", 0, maxMoney), script: p2pkh(0x33), remainder: true})
	outs, ins := outsOf(tx), insOf(tx)
	result, err := tx.SignOnly(keys)
	checkSigned(tx, locks, old, make([][]byte, n), keys, result, err)
	sym.Assert(sameOuts(outs, outsOf(tx)), "signing only leaves the outputs")
	for i, s := range insOf(tx) {
		s.unlock = ins[i].unlock
		sym.Assert(sameIn(ins[i], s), "inputs keep what they spend")
	}
	sym.Observe("keys", len(result))
}

// C15_Kept: 1 or 2 inputs of which the first has an unlocking script of 1 to 3 arbitrary bytes and
// maybe 40 more, signed by the key that fits both, any values.
func C15_Kept() {
	k := keyOf(1)
	tx := txbuilder.NewTxBuilder(0.5, 0)
	old := sym.Bytes("unlock", 1+sym.Choose("size", 3))
	if sym.Bool("long") {
		old = append(old, bytes.Repeat([]byte{3}, 40)...)
	}
	putIn(tx, inState{hash: hashOf(1), index: 1, script: p2pkhOf(k), unlock: clone(old), value: sym.U64R("in0", 0, maxMoney), seq: 7})
	n := 1 + sym.Choose("n", 2)
	if n > 1 {
		putIn(tx, inState{hash: hashOf(2), index: 1, script: p2pkhOf(k), value: sym.U64R("in1", 0, maxMoney), seq: 7})
	}
	putOut(tx, outState{value: sym.U64R("pay", 0, maxMoney), script: p2pkh(0x22)})
	result, err := tx.SignOnly([]bitcoin.Key{k})
	sym.Assert(err == nil, "signing with all keys works")
	sym.Assert(bytes.Equal(old, tx.MsgTx.TxIn[0].UnlockingScript), "an unlocking script that is present stays")
	if n > 1 {
		checkUnlock(lock{script: p2pkhOf(k), required: 1, keys: []bitcoin.Key{k}}, tx, 1)
		sym.Reach("other signed")
	}
	sym.Assert(len(result) == n-1, "only keys used are returned")
}

// C15_One: signing one of 2 inputs paying a public key hash or something else, with a fitting or
// another key, at index 0 to 2; any values.
func C15_One() {
	tx := txbuilder.NewTxBuilder(0.5, 0)
	k := []bitcoin.Key{keyOf(0), keyOf(1), keyOf(2)}
	l := anyLock("lock", 3, k)
	putIn(tx, inState{hash: hashOf(1), index: 1, script: p2pkhOf(k[1]), value: sym.U64R("in0", 0, maxMoney), seq: 7})
	putIn(tx, inState{hash: hashOf(2), index: 1, script: l.script, value: sym.U64R("in1", 0, maxMoney), seq: 8})
	putOut(tx, outState{value: sym.U64R("pay", 0, maxMoney), script: p2pkh(0x22)})
	outs, ins := outsOf(tx), insOf(tx)
	index := sym.Choose("index", 3)
	key := k[sym.Choose("key", 2)]
	err := tx.SignP2PKHInput(index, key, &txbuilder.SigHashCache{})
	sym.Assert(sameOuts(outs, outsOf(tx)), "signing an input leaves the outputs")
	fits := index < 2 && bytes.Equal(ins[index].script, p2pkhOf(key))
	if !fits {
		sym.Assert(err != nil && sameIns(ins, insOf(tx)), "a wrong key, script or index is an error")
		if index < 2 && (index == 0 || !l.multi && !l.bare) {
			sym.Assert(is(err, txbuilder.ErrWrongPrivateKey), "a wrong key is reported")
			sym.Reach("wrong key")
		}
		return
	}
	sym.Assert(err == nil, "signing an input works")
	checkUnlock(lock{script: ins[index].script, required: 1, keys: []bitcoin.Key{key}}, tx, index)
	sym.Assert(len(tx.MsgTx.TxIn[1-index].UnlockingScript) == 0, "the other input is not signed")
	sym.Reach("signed")
}

// C15_Multi: 1 to 4 public keys, each with or without a signature of 71 bytes, or a different
// number of signatures.
func C15_Multi() {
	n := 1 + sym.Choose("n", 4)
	var pubs, sigs [][]byte
	for i := 0; i < n; i++ {
		pubs = append(pubs, append([]byte{2}, bytes.Repeat([]byte{byte(i)}, 32)...))
		if sym.Bool(name("sig", i)) {
			sigs = append(sigs, sym.Bytes(name("sig", i), 71))
		} else {
			sigs = append(sigs, nil)
		}
	}
	if sym.Bool("short") {
		_, err := txbuilder.P2MultiPKHUnlockingScript(1, pubs, sigs[1:])
		sym.Assert(err != nil, "a different number of signatures is an error")
		sym.Reach("short")
		return
	}
	s, err := txbuilder.P2MultiPKHUnlockingScript(1, pubs, sigs)
	var want []byte
	for i := n - 1; i >= 0; i-- {
		if sigs[i] == nil {
			want = append(want, bitcoin.OP_FALSE)
			continue
		}
		want = append(append(want, 71), sigs[i]...)
		want = append(append(want, 33), pubs[i]...)
		want = append(want, bitcoin.OP_TRUE)
	}
	sym.Assert(err == nil && bytes.Equal(s, want), "signers in reverse order, each with signature, key and true")
	sym.Reach("done")
}

// C15_Match: an input that pays any public key (33 bytes), any public key hash (20 bytes), or 1 of 2
// public key hashes of which one is any 20 bytes, signed with 1 or 2 fixed keys that may or may not
// be among them.
func C15_Match() {
	tx := txbuilder.NewTxBuilder(0.5, 0)
	keys := []bitcoin.Key{keyOf(0), keyOf(1)}[:1+sym.Choose("keys", 2)]
	kind := sym.Choose("kind", 3)
	var script bitcoin.Script
	var wanted []byte
	switch kind {
	case 0:
		script = p2pkhOf(keyOf(5))
		wanted = sym.Bytes("hash", 20)
		copy(script[3:], wanted)
	case 1:
		script = p2pkOf(keyOf(5))
		wanted = sym.Bytes("public", 33)
		sym.Assume(wanted[0] == 2 || wanted[0] == 3)
		copy(script[1:], wanted)
	case 2:
		script = multiOf(1, keyOf(5), keyOf(6))
		wanted = sym.Bytes("hash", 20)
		old := bitcoin.Hash160(keyOf(5).PublicKey().Bytes())
		i := bytes.Index(script, old)
		copy(script[i:], wanted)
	}
	putIn(tx, inState{hash: hashOf(1), index: 1, script: script, value: sym.U64R("in", 0, maxMoney)})
	putOut(tx, outState{value: sym.U64R("pay", 0, maxMoney), script: p2pkh(0x22)})
	result, err := tx.SignOnly(keys)
	for _, k := range keys {
		own := k.PublicKey().Bytes()
		if kind != 1 {
			own = bitcoin.Hash160(own)
		}
		if !bytes.Equal(own, wanted) {
			continue
		}
		sym.Assert(err == nil && len(result) == 1 && result[0].Equal(k), "the key that fits is used")
		l := lock{script: script, required: 1, keys: []bitcoin.Key{k}, bare: kind == 1}
		if kind == 2 {
			l.keys, l.multi = []bitcoin.Key{k, keyOf(6)}, true
		}
		checkUnlock(l, tx, 0)
		sym.Reach("fits")
		return
	}
	sym.Assert(is(err, txbuilder.ErrMissingPrivateKey) && len(result) == 0, "a key that does not fit is not used")
	sym.Assert(len(tx.MsgTx.TxIn[0].UnlockingScript) == 0, "an input that no key fits is not unlocked")
	sym.Reach("missing")
}

// C15_Helpers: the signature and unlocking script of an input of 2, by one of 2 keys, for every
// defined type, index 0 to 2, any value.
func C15_Helpers() {
	tx := txbuilder.NewTxBuilder(0.5, 0)
	k := []bitcoin.Key{keyOf(0), keyOf(1)}
	putIn(tx, inState{hash: hashOf(1), index: 1, script: p2pkhOf(k[0]), value: 5, seq: 7})
	putIn(tx, inState{hash: hashOf(2), index: 3, script: p2pkOf(k[0]), value: 6, seq: 8})
	putOut(tx, outState{value: sym.U64R("pay", 0, maxMoney), script: p2pkh(0x22)})
	t := []txbuilder.SigHashType{1, 2, 3}[sym.Choose("type", 3)] | txbuilder.SigHashForkID
	if sym.Choose("anyone", 2) == 1 {
		t |= txbuilder.SigHashAnyOneCanPay
	}
	index := sym.Choose("index", 3)
	key := k[sym.Choose("key", 2)]
	value := sym.U64R("value", 0, maxMoney)
	script := []bitcoin.Script{p2pkhOf(key), p2pkOf(key)}[sym.Choose("script", 2)]
	before := wholeOf(tx)
	sig, err := txbuilder.InputSignature(key, tx.MsgTx, index, script, value, t, &txbuilder.SigHashCache{})
	pkh, herr := txbuilder.P2PKHUnlockingScript(key, tx.MsgTx, index, script, value, t, &txbuilder.SigHashCache{})
	pk, kerr := txbuilder.P2PKUnlockingScript(key, tx.MsgTx, index, script, value, t, &txbuilder.SigHashCache{})
	sym.Assert(sameWhole(before, wholeOf(tx)), "creating a signature changes nothing")
	if index == 2 {
		sym.Assert(err != nil && herr != nil && kerr != nil, "an index past the end is an error")
		sym.Reach("index")
		return
	}
	sym.Assert(err == nil && herr == nil && kerr == nil, "signatures are created")
	sym.Assert(goodSig(sig, key, tx.MsgTx, index, script, value, t), "the signature is for the transaction and type")
	want := append([]byte{byte(len(sig))}, sig...)
	sym.Assert(bytes.Equal(pk, want), "a public key is unlocked by a signature")
	want = append(append(want, 33), key.PublicKey().Bytes()...)
	sym.Assert(bytes.Equal(pkh, want), "a public key hash is unlocked by signature and public key")
	sym.Reach("done")
}
