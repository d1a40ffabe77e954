package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// journey is a transaction on its way from payments over funding to signatures.
type journey struct {
	tx     *txbuilder.TxBuilder
	keys   []bitcoin.Key
	coins  int // coins offered so far
	pays   []outState
	broken []txbuilder.AddressKeyID // addresses for broken up change, if any
}

// coin is an unspent output of any value that one of the keys can spend.
func (j *journey) coin() bitcoin.UTXO {
	i := j.coins
	j.coins++
	s := p2pkhOf(j.keys[i])
	if i == 1 {
		s = p2pkOf(j.keys[i])
	}
	return bitcoin.UTXO{Hash: hashOf(byte(i + 1)), Index: 2, LockingScript: s,
		Value: sym.U64R(name("coin", i), 0, maxMoney), KeyID: name("coinkey", i)}
}

// lock is that of the coin spent by the input.
func (j *journey) lock(i int) lock {
	s := j.tx.Inputs[i].LockingScript
	for _, k := range j.keys {
		if bytes.Equal(s, p2pkhOf(k)) {
			return lock{script: s, required: 1, keys: []bitcoin.Key{k}}
		}
		if bytes.Equal(s, p2pkOf(k)) {
			return lock{script: s, required: 1, keys: []bitcoin.Key{k}, bare: true}
		}
	}
	sym.Assert(false, "only coins are spent")
	return lock{}
}

// pay adds a payment of any value, the second with data.
func (j *journey) pay(tag byte) bool {
	v := sym.U64R(name("pay", len(j.pays)), 0, maxMoney)
	s := scriptOf(len(j.pays), tag)
	if err := j.tx.AddOutput(s, v, false, false); err != nil {
		return false
	}
	j.pays = append(j.pays, outState{value: v, script: s})
	return true
}

// fund offers n more coins.
func (j *journey) fund(n int) bool {
	var utxos []bitcoin.UTXO
	for i := 0; i < n; i++ {
		utxos = append(utxos, j.coin())
	}
	var err error
	if len(j.broken) > 0 {
		err = j.tx.AddFundingBreakChange(utxos, 10000, j.broken)
	} else {
		err = j.tx.AddFunding(utxos)
	}
	// which coins suffice is decided elsewhere
	return err == nil
}

// paid asserts that the payments are there, in order, and gives the other outputs.
func (j *journey) paid() []outState {
	var rest []outState
	at := 0
	for _, o := range outsOf(j.tx) {
		if at < len(j.pays) && !o.remainder && bytes.Equal(o.script, j.pays[at].script) {
			sym.Assert(o.value == j.pays[at].value, "payments keep their value")
			at++
			continue
		}
		rest = append(rest, o)
	}
	sym.Assert(at == len(j.pays), "payments are kept")
	return rest
}

// sign signs and asserts that the funding was enough.
func (j *journey) sign() bool {
	tx := j.tx
	ins := insOf(tx)
	change := firstChange(outsOf(tx)) >= 0
	_, err := tx.Sign(j.keys)
	if err != nil {
		sym.Assert(!is(err, txbuilder.ErrInsufficientValue), "a funded transaction has enough value to be signed")
		sym.Assert(is(err, txbuilder.ErrChangeAddressNeeded) && !change && len(tx.ChangeScript) == 0,
			"signing a funded transaction fails only for lack of a change address")
		return false
	}
	after := insOf(tx)
	for i := range after {
		after[i].unlock = ins[i].unlock
	}
	sym.Assert(sameIns(ins, after), "inputs keep what they spend")
	in, out := uint64(0), uint64(0)
	for i, s := range ins {
		in += s.value
		checkUnlock(j.lock(i), tx, i)
	}
	sym.Assert(tx.AllInputsAreSigned(), "all inputs are signed")
	for _, o := range outsOf(tx) {
		out += o.value
	}
	target := txbuilder.EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate))
	sym.Assert(in >= out+target, "the signed transaction pays for its size")
	if firstChange(outsOf(tx)) >= 0 {
		limit := target / 20
		if limit < 3 {
			limit = 3
		}
		sym.Assert(in-out <= target+limit, "with change the fee is not excessive")
	}
	sym.Reach("signed")
	return true
}

func newJourney(rates int) *journey {
	sym.SigLens(70, 72)
	dust := []float32{0, 0.5}[sym.Choose("dustfee", 2)]
	fee := []float32{0.5, 0.05, 1, 0}[sym.Choose("fee", rates)]
	return &journey{tx: txbuilder.NewTxBuilder(fee, dust),
		keys: []bitcoin.Key{keyOf(0), keyOf(1), keyOf(2), keyOf(3)}}
}

// change sets up no change, a change script or a change output, and tells which.
func (j *journey) change() {
	switch sym.Choose("change", 3) {
	case 1:
		sym.Assert(j.tx.SetChangeLockingScript(p2pkh(0x44), "change") == nil, "setting the change script works")
	case 2:
		sym.Assert(j.tx.AddOutput(p2pkh(0x44), 1000, true, false) == nil, "adding a change output works")
	}
}

// C25_Once: 1 payment (thorough: 2) of any value; no change, a change script or a change output before
// the payments; funded from 1 or 2 coins of any value paying a public key hash or public key; signed,
// every signature 70 or 72 bytes long; fee rates 0.05, 0.5, 1 and 0, dust rates 0 and 0.5.
func C25_Once() {
	j := newJourney(4)
	j.change()
	n := 1
	if sym.Thorough() {
		n += sym.Choose("pays", 2)
	}
	for i := 0; i < n; i++ {
		if !j.pay(byte(0x20 + i)) {
			return
		}
	}
	if !j.fund(1 + sym.Choose("coins", 2)) {
		return
	}
	if j.sign() {
		rest := j.paid()
		sym.Assert(len(rest) <= 1, "nothing is added but change")
		if len(rest) == 1 {
			sym.Assert(sym.And(rest[0].remainder, bytes.Equal(rest[0].script, p2pkh(0x44))), "change is paid to its script")
		}
	}
}

// C25_Again: as above with 1 coin (thorough: or 2), then maybe signed, then another payment of any
// value, funded from another coin of any value and signed; fee rates 0.05 and 0.5.
func C25_Again() {
	j := newJourney(2)
	j.change()
	if !j.pay(0x20) {
		return
	}
	coins := 1
	if sym.Thorough() {
		coins += sym.Choose("coins", 2)
	}
	if !j.fund(coins) {
		return
	}
	if sym.Bool("signfirst") && !j.sign() {
		return
	}
	if !j.pay(0x21) || !j.fund(1) {
		return
	}
	if j.sign() {
		rest := j.paid()
		sym.Assert(len(rest) <= 1, "nothing is added but change")
		if len(rest) == 1 {
			sym.Assert(sym.And(rest[0].remainder, bytes.Equal(rest[0].script, p2pkh(0x44))), "change is paid to its script")
		}
	}
}

// C25_Max: a maximum output and maybe a payment of any value before or after it, funded from 1 or 2
// coins of any value and signed; change script or not; fee rates 0.05, 0.5, 1 and 0.
func C25_Max() {
	j := newJourney(4)
	if sym.Bool("changescript") {
		sym.Assert(j.tx.SetChangeLockingScript(p2pkh(0x44), "change") == nil, "setting the change script works")
	}
	at := sym.Choose("payment", 3)
	if at == 1 && !j.pay(0x20) {
		return
	}
	sym.Assert(j.tx.AddMaxScriptOutput(p2pkh(0x66)) == nil, "adding the maximum output works")
	if at == 2 && !j.pay(0x20) {
		return
	}
	n := 1 + sym.Choose("coins", 2)
	if !j.fund(n) {
		return
	}
	if j.sign() {
		rest := j.paid()
		sym.Assert(sym.And(len(j.tx.Inputs) == n, len(rest) == 1, bytes.Equal(rest[0].script, p2pkh(0x66))),
			"everything else goes to the maximum output")
	}
}

// C25_Break: a payment of any value, funded from 1 or 2 coins of any value with the change broken up
// at 10000 between 2 addresses, and signed; fee rate 0.5 (thorough: or 0.05), dust rates 0 and 0.5.
func C25_Break() {
	rates := 1
	if sym.Thorough() {
		rates = 2
	}
	j := newJourney(rates)
	for i := 0; i < 2; i++ {
		ra, err := bitcoin.RawAddressFromLockingScript(p2pkh(byte(0x50 + i)))
		if err != nil {
			panic(err)
		}
		j.broken = append(j.broken, txbuilder.AddressKeyID{Address: ra, KeyID: name("broken", i)})
	}
	if !j.pay(0x20) || !j.fund(1+sym.Choose("coins", 2)) {
		return
	}
	if j.sign() {
		for _, o := range j.paid() {
			sym.Assert(sym.Or(bytes.Equal(o.script, p2pkh(0x50)), bytes.Equal(o.script, p2pkh(0x51))), "change is paid to its addresses")
		}
	}
}
