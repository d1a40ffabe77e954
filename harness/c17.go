package verifharness

import (
	"bytes"

	"verifharness/sym"

	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// sameDigest computes one digest with the shared cache and compares it with the specified one and
// with the one from a fresh cache.
func sameDigest(tag string, tx *wire.MsgTx, cache *txbuilder.SigHashCache, value uint64) {
	i := sym.Choose(tag+".at", len(tx.TxIn))
	t := txbuilder.SigHashType(0x41 + sym.Choose(tag+".base", 3))
	if sym.Bool(tag + ".any") {
		t |= 0x80
	}
	got, err := txbuilder.SignatureHashPreimageBytes(tx, i, p2pkh(3), value, t, cache)
	sym.Assert(err == nil, "the preimage with a shared cache is defined")
	fresh, err := txbuilder.SignatureHashPreimageBytes(tx, i, p2pkh(3), value, t, &txbuilder.SigHashCache{})
	sym.Assert(err == nil && bytes.Equal(got, fresh), "the preimage with a shared cache is that with a fresh one")
	sym.Assert(bytes.Equal(got, wantPreimage(tx, i, p2pkh(3), value, uint32(t))),
		"the preimage with a shared cache is the specified one")
	h, err := txbuilder.SignatureHash(tx, i, p2pkh(3), value, t, cache)
	sym.Assert(err == nil && bytes.Equal(h[:], twice(got)), "the hash with a shared cache is that of the preimage")
}

// anyEdit makes one arbitrary change and clears what the change requires, or makes none.
func anyEdit(tag string, tx *wire.MsgTx, cache *txbuilder.SigHashCache) {
	all := false
	switch sym.Choose(tag, 10) {
	case 0:
		return
	case 1:
		o := tx.TxOut[sym.Choose(tag+".at", len(tx.TxOut))]
		o.Value = sym.U64(tag + ".value")
	case 2:
		o := tx.TxOut[sym.Choose(tag+".at", len(tx.TxOut))]
		o.LockingScript = sym.Bytes(tag+".script", 2)
	case 3:
		tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: sym.U64(tag + ".value"),
			LockingScript: sym.Bytes(tag+".script", 1)})
	case 4:
		tx.TxOut = tx.TxOut[:len(tx.TxOut)-1]
	case 5:
		tx.TxIn[sym.Choose(tag+".at", len(tx.TxIn))].Sequence = sym.U32(tag + ".sequence")
		all = true
	case 6:
		tx.TxIn[sym.Choose(tag+".at", len(tx.TxIn))].PreviousOutPoint.Index = sym.U32(tag + ".index")
		all = true
	case 7:
		tx.TxIn = append(tx.TxIn, &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: hashOf(9),
			Index: sym.U32(tag + ".index")}, Sequence: sym.U32(tag + ".sequence")})
		all = true
	case 8:
		tx.TxOut[0].Value = sym.U64(tag + ".value")
		tx.TxIn[0].Sequence = sym.U32(tag + ".sequence")
		tx.TxIn[0].PreviousOutPoint.Hash[5] = sym.Byte(tag + ".hash")
		all = true
	case 9:
		tx.Version, tx.LockTime = sym.I32(tag+".version"), sym.U32(tag+".locktime")
		return
	}
	if all {
		cache.Clear()
	} else {
		cache.ClearOutputs()
	}
	sym.Reach("edited")
}

// C17_Same: 3 digests (thorough: 4) of every index and type over an unchanged transaction of 1 or 2
// inputs and 0 to 2 outputs with every field arbitrary.
func C17_Same() {
	tx := anyMsgTx(1+sym.Choose("ins", 2), sym.Choose("outs", 3))
	n := 3
	if sym.Thorough() {
		n = 4
	}
	cache := &txbuilder.SigHashCache{}
	for k := 0; k < n; k++ {
		sameDigest(name("digest", k), tx, cache, sym.U64(name("spent", k)))
	}
	sym.Reach("done")
}

// C17_Edited: a digest, one edit with the matching clear, a digest (thorough: another edit and
// digest), of a transaction of 2 inputs and 1 or 2 outputs with every field arbitrary.
func C17_Edited() {
	tx := anyMsgTx(2, 1+sym.Choose("outs", 2))
	cache := &txbuilder.SigHashCache{}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for k := 0; k < n; k++ {
		if k > 0 {
			anyEdit(name("edit", k), tx, cache)
			if len(tx.TxOut) == 0 {
				break
			}
		}
		sameDigest(name("digest", k), tx, cache, sym.U64(name("spent", k)))
	}
	sym.Reach("done")
}

// C17_Hashes: the three cached hashes of a transaction of 1 or 2 inputs and 0 to 2 outputs, asked
// for in each order, before and after an edit with the matching clear.
func C17_Hashes() {
	tx := anyMsgTx(1+sym.Choose("ins", 2), 1+sym.Choose("outs", 2))
	cache := &txbuilder.SigHashCache{}
	ask := func(tag string) {
		first := sym.Choose(tag, 3)
		for k := 0; k < 4; k++ {
			var want []byte
			switch (first + k) % 3 {
			case 0:
				for _, in := range tx.TxIn {
					want = append(want, outpoint(in)...)
				}
				sym.Assert(bytes.Equal(cache.HashPrevOuts(tx), twice(want)), "the hash of spent outpoints is right")
			case 1:
				for _, in := range tx.TxIn {
					want = append(want, le32(in.Sequence)...)
				}
				sym.Assert(bytes.Equal(cache.HashSequence(tx), twice(want)), "the hash of sequences is right")
			case 2:
				for _, o := range tx.TxOut {
					want = append(want, rawOut(o)...)
				}
				sym.Assert(bytes.Equal(cache.HashOutputs(tx), twice(want)), "the hash of outputs is right")
			}
		}
	}
	ask("before")
	anyEdit("edit", tx, cache)
	ask("after")
	sym.Reach("done")
}
