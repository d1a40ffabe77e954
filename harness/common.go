// Package verifharness states the properties as assertions over the exported API. The checker runs
// these functions symbolically together with the real code; the same functions are compiled with
// the real code to replay a counterexample or a sampled path.
package verifharness

import (
	"bytes"
	"fmt"

	"verifharness/sym"

	"github.com/pkg/errors"
	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// maxMoney is the number of satoshis that can ever exist.
const maxMoney = 2100000000000000

func p2pkh(tag byte) bitcoin.Script {
	s := bitcoin.Script{bitcoin.OP_DUP, bitcoin.OP_HASH160, 20}
	for i := 0; i < 20; i++ {
		s = append(s, tag)
	}
	return append(s, bitcoin.OP_EQUALVERIFY, bitcoin.OP_CHECKSIG)
}

func p2pk(tag byte) bitcoin.Script {
	s := bitcoin.Script{33, 2}
	for i := 0; i < 32; i++ {
		s = append(s, tag)
	}
	return append(s, bitcoin.OP_CHECKSIG)
}

func multiPKH(required, total int, tag byte) bitcoin.Script {
	t, err := bitcoin.NewMultiPKHTemplate(uint32(required), uint32(total))
	if err != nil {
		panic(err)
	}
	var s bitcoin.Script
	for _, b := range t {
		if b == bitcoin.OP_PUBKEYHASH {
			s = append(s, 20)
			for i := 0; i < 20; i++ {
				s = append(s, tag)
			}
			tag++
			continue
		}
		s = append(s, b)
	}
	return s
}

// opReturn is an unspendable script of n bytes, n at least 2.
func opReturn(n int, tag byte) bitcoin.Script {
	s := bitcoin.Script{bitcoin.OP_FALSE, bitcoin.OP_RETURN}
	for len(s) < n {
		s = append(s, tag)
	}
	return s
}

// unknown is a spendable script of n bytes that matches no template.
func unknown(n int, tag byte) bitcoin.Script {
	s := bitcoin.Script{}
	for len(s) < n {
		s = append(s, bitcoin.OP_1+tag%16)
	}
	return s
}

// scriptOf gives a script of one of the kinds outputs come in.
func scriptOf(kind int, tag byte) bitcoin.Script {
	switch kind {
	case 0:
		return p2pkh(tag)
	case 1:
		return opReturn(12, tag)
	case 2:
		return unknown(5, tag)
	case 3:
		return p2pk(tag)
	case 4:
		return multiPKH(2, 3, tag)
	}
	return unknown(300, tag)
}

// agentTransfer is an agent transfer script whose agent uses the given locking script.
func agentTransfer(agent bitcoin.Script) bitcoin.Script {
	s, err := agent_bitcoin_transfer.CreateScriptFromOutputHashes(agent, hashOf(3), hashOf(4),
		p2pkh(9), 100)
	if err != nil {
		panic(err)
	}
	return s
}

// rate is a fee rate m / 2^k with all m in the range.
func rate(name string, lo, hi uint64, k uint) float32 {
	m := sym.U64R(name, lo, hi)
	return float32(m) / float32(uint64(1)<<k)
}

// anyRate is a fee rate from one of several bands.
func anyRate(name string) float32 {
	switch sym.Choose(name+".band", 5) {
	case 0:
		return 0
	case 1:
		return 0.05
	case 2:
		return 0.5
	case 3:
		return 1.0
	}
	return rate(name, 1, 1<<13, 10) // up to 8 sat/byte in steps of 1/1024
}

type outState struct {
	value     uint64
	script    []byte
	remainder bool
	dust      bool
	key       string
}

type inState struct {
	hash   bitcoin.Hash32
	index  uint32
	seq    uint32
	unlock []byte
	script []byte
	value  uint64
	key    string
}

func clone(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

// outsOf is a deep copy of what the builder holds about its outputs.
func outsOf(tx *txbuilder.TxBuilder) []outState {
	sym.Assert(len(tx.MsgTx.TxOut) == len(tx.Outputs), "each output has its supplement")
	var r []outState
	for i, o := range tx.MsgTx.TxOut {
		s := tx.Outputs[i]
		r = append(r, outState{o.Value, clone(o.LockingScript), s.IsRemainder, s.IsDust, s.KeyID})
	}
	return r
}

func insOf(tx *txbuilder.TxBuilder) []inState {
	sym.Assert(len(tx.MsgTx.TxIn) == len(tx.Inputs), "each input has its supplement")
	var r []inState
	for i, in := range tx.MsgTx.TxIn {
		s := tx.Inputs[i]
		r = append(r, inState{in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index, in.Sequence,
			clone(in.UnlockingScript), clone(s.LockingScript), s.Value, s.KeyID})
	}
	return r
}

func sameOut(a, b outState) bool {
	return sym.And(a.value == b.value, bytes.Equal(a.script, b.script),
		a.remainder == b.remainder, a.dust == b.dust, a.key == b.key)
}

func sameIn(a, b inState) bool {
	return sym.And(a.hash == b.hash, a.index == b.index, a.seq == b.seq,
		bytes.Equal(a.unlock, b.unlock), bytes.Equal(a.script, b.script), a.value == b.value,
		a.key == b.key)
}

func sameOuts(a, b []outState) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sameOut(a[i], b[i]))
	}
	return ok
}

func sameIns(a, b []inState) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sameIn(a[i], b[i]))
	}
	return ok
}

// putOut appends an output directly, without going through the builder's own operations.
func putOut(tx *txbuilder.TxBuilder, o outState) {
	tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &wire.TxOut{Value: o.value, LockingScript: o.script})
	tx.Outputs = append(tx.Outputs, &txbuilder.OutputSupplement{IsRemainder: o.remainder,
		IsDust: o.dust, KeyID: o.key})
}

func putIn(tx *txbuilder.TxBuilder, in inState) {
	tx.MsgTx.TxIn = append(tx.MsgTx.TxIn, &wire.TxIn{
		PreviousOutPoint: wire.OutPoint{Hash: in.hash, Index: in.index},
		UnlockingScript:  in.unlock,
		Sequence:         in.seq,
	})
	tx.Inputs = append(tx.Inputs, &txbuilder.InputSupplement{LockingScript: in.script,
		Value: in.value, KeyID: in.key})
}

// spare gives the slices of the builder room to grow in place, so that an edit that shares a
// backing array with what it moves shows.
func spare(tx *txbuilder.TxBuilder) {
	tx.MsgTx.TxOut = append(make([]*wire.TxOut, 0, len(tx.MsgTx.TxOut)+3), tx.MsgTx.TxOut...)
	tx.Outputs = append(make([]*txbuilder.OutputSupplement, 0, len(tx.Outputs)+3), tx.Outputs...)
	tx.MsgTx.TxIn = append(make([]*wire.TxIn, 0, len(tx.MsgTx.TxIn)+3), tx.MsgTx.TxIn...)
	tx.Inputs = append(make([]*txbuilder.InputSupplement, 0, len(tx.Inputs)+3), tx.Inputs...)
}

func hashOf(tag byte) bitcoin.Hash32 {
	var h bitcoin.Hash32
	for i := range h {
		h[i] = tag
	}
	return h
}

func is(err, want error) bool {
	return err != nil && errors.Cause(err) == want
}

func name(s string, i int) string { return fmt.Sprintf("%s%d", s, i) }
