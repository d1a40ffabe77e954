package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// C06_Fee: every size from 0 to 2^28 and every rate of 24 significant bits with unit 2^-23, 2^-28,
// 2^-33 or 2^-10: 0 to 2, 0 to 1/16, 0 to 1/512 and 0 to 16384 sat/byte.
func C06_Fee() {
	k := []uint{23, 28, 33, 10}[sym.Choose("unit", 4)]
	m := sym.U64R("m", 0, 1<<24-1)
	size := sym.U64R("size", 0, 1<<28)
	r := float32(m) / float32(uint64(1)<<k)
	p := m * size // below 2^52
	// what was asked before does not matter
	txbuilder.EstimatedFeeValue(size, 3)
	txbuilder.EstimatedFeeValueDown(size, 3)
	fees.EstimateFeeValue(int(size), 3)
	up := txbuilder.EstimatedFeeValue(size, float64(r))
	sym.Assert(sym.And(up<<k >= p, up<<k < p+1<<k), "fee is the product rounded up")
	down := txbuilder.EstimatedFeeValueDown(size, float64(r))
	sym.Assert(sym.And(down<<k <= p, down<<k+1<<k > p), "fee down is the product rounded down")
	alone := fees.EstimateFeeValue(int(size), float64(r))
	sym.Assert(alone == up, "the standalone fee is the same")
	sym.Reach("done")
	sym.Observe("fee", up, down, alone)
}

// C06_Dust: every output size from 0 to 2^17 and every rate m/2^k with m below 2^13, k of 8, 10 or
// 13, where single precision products of sizes up to 2^9 are exact; beyond that the limit of the
// builder is within 2^-23 of the product.
func C06_Dust() {
	k := []uint{8, 10, 13}[sym.Choose("unit", 3)]
	m := sym.U64R("m", 0, 1<<13-1)
	size := sym.U64R("size", 0, 1<<17)
	r := float32(m) / float32(uint64(1)<<k)
	p := 3 * (size + 148) * m
	exact := p >> k
	// what was asked before does not matter
	txbuilder.DustLimit(100, 3)
	fees.DustLimit(100, 3)
	got := txbuilder.DustLimit(int(size), r)
	sym.Assert(got >= 1, "the dust limit is never below one")
	sym.Assert(sym.Or(got == 1, sym.And(got <= exact+exact>>23+1, got+exact>>23+1 >= exact)),
		"the dust limit is three times the cost at the dust rate")
	sym.Assert(sym.Or(p >= 1<<24, got == exact, sym.And(exact == 0, got == 1)),
		"the dust limit is rounded down when the product fits single precision")
	up := (p + 1<<k - 1) >> k
	alone := fees.DustLimit(int(size), float64(r))
	sym.Assert(sym.Or(alone == up, sym.And(up == 0, alone == 1)),
		"the standalone dust limit is rounded up")
	sym.Reach("done")
	sym.Observe("dust", got, alone)
}

// C06_Monotone: any two output sizes up to 2^17 and rates as for the dust limit.
func C06_Monotone() {
	k := []uint{8, 10, 13}[sym.Choose("unit", 3)]
	m := sym.U64R("m", 0, 1<<13-1)
	a := sym.U64R("a", 0, 1<<17)
	b := sym.U64R("b", 0, 1<<17)
	sym.Assume(a <= b)
	r := float32(m) / float32(uint64(1)<<k)
	sym.Assert(txbuilder.DustLimit(int(a), r) <= txbuilder.DustLimit(int(b), r),
		"a larger output has no smaller dust limit")
	sym.Assert(fees.DustLimit(int(a), float64(r)) <= fees.DustLimit(int(b), float64(r)),
		"a larger output has no smaller standalone dust limit")
	sym.Reach("done")
}

func upTo(size int, m uint64, k uint) uint64 { return (uint64(size)*m + 1<<k - 1) >> k }

func dustOf(size int, m uint64, k uint) uint64 {
	d := uint64(size+148) * 3 * m >> k
	return sym.IteU64(d < 1, 1, d)
}

func varInt(n int) int {
	if n < 253 {
		return 1
	}
	if n < 1<<16 {
		return 3
	}
	return 5
}

// unlockSize is the largest unlocking script of the script kinds of scriptOf, or -1.
func unlockSize(kind int) int {
	const sig, key = 1 + 72 + 1, 1 + 33
	switch kind {
	case 0:
		return sig + key
	case 3:
		return sig
	case 4:
		return 2*(sig+key+1) + 1
	}
	return -1
}

// C06_Costs: every cost helper for scripts of 6 kinds, lengths 5 to 300, and every fee and dust
// rate that is a multiple of 1/1024 up to 8.
func C06_Costs() {
	const k = 10
	m := sym.U64R("m", 0, 1<<13)
	d := sym.U64R("d", 0, 1<<13)
	fee := float32(m) / (1 << k)
	dust := float32(d) / (1 << k)
	kind := sym.Choose("kind", 6)
	script := scriptOf(kind, 0x31)
	outSize := 8 + varInt(len(script)) + len(script)
	outFee := upTo(outSize, m, k)
	limit := dustOf(outSize, d, k)
	out := &wire.TxOut{Value: 5, LockingScript: script}

	// what was asked before does not matter
	other := scriptOf(kind, 0x32)
	for _, s := range []bitcoin.Script{script, other} {
		txbuilder.DustLimitForOutput(&wire.TxOut{LockingScript: s}, 3)
		txbuilder.DustLimitForLockingScript(s, 3)
		txbuilder.OutputFeeAndDustForLockingScript(s, 3, 5)
		txbuilder.LockingScriptOutputFee(s, 5)
		txbuilder.OutputTotalCost(s, 5)
		txbuilder.UTXOFee(bitcoin.UTXO{LockingScript: s}, 5)
		txbuilder.LockingScriptInputFee(s, 5)
		fees.DustLimitForLockingScript(s, 3)
		fees.DustLimitForLockingScriptSize(len(s), 3)
		fees.OutputFeeAndDustForLockingScript(s, 3, 5)
		fees.OutputTotalCost(s, 5)
	}

	sym.Assert(txbuilder.DustLimitForOutput(out, dust) == limit, "dust limit of an output")
	sym.Assert(txbuilder.DustLimitForLockingScript(script, dust) == limit, "dust limit of a script")
	f, l := txbuilder.OutputFeeAndDustForLockingScript(script, dust, fee)
	sym.Assert(sym.And(f == outFee, l == limit), "fee and dust of a script")
	sym.Assert(txbuilder.LockingScriptOutputFee(script, fee) == outFee, "output fee of a script")

	ra, err := bitcoin.RawAddressFromLockingScript(script)
	if err == nil {
		l, err := txbuilder.DustLimitForAddress(ra, dust)
		sym.Assert(sym.And(err == nil, l == limit), "dust limit of an address")
		f, l, err := txbuilder.OutputFeeAndDustForAddress(ra, dust, fee)
		sym.Assert(sym.And(err == nil, f == outFee, l == limit), "fee and dust of an address")
		f, err = txbuilder.AddressOutputFee(ra, fee)
		sym.Assert(sym.And(err == nil, f == outFee), "output fee of an address")
		sym.Reach("address")
	}

	n := unlockSize(kind)
	inFee := upTo(40+varInt(n)+n, m, k)
	of, inf, err := txbuilder.OutputTotalCost(script, fee)
	sym.Assert(of == outFee, "the total cost has the output fee")
	uf, uerr := txbuilder.UTXOFee(bitcoin.UTXO{LockingScript: script, Value: 7}, fee)
	us, usf, userr := txbuilder.UTXOInputSizeAndFee(bitcoin.UTXO{LockingScript: script}, fee)
	lf, lerr := txbuilder.LockingScriptInputFee(script, fee)
	if n < 0 {
		sym.Assert(inf == 0 && err != nil, "the input fee of an unknown template is an error")
		sym.Assert(uerr != nil && userr != nil && lerr != nil, "input fees of an unknown template are errors")
		sym.Reach("unknown")
	} else {
		sym.Assert(sym.And(err == nil, inf == inFee), "the total cost has the input fee")
		sym.Assert(sym.And(uerr == nil, uf == inFee), "input fee of a UTXO")
		sym.Assert(sym.And(userr == nil, us == 40+varInt(n)+n, usf == inFee), "input size and fee of a UTXO")
		sym.Assert(sym.And(lerr == nil, lf == inFee), "input fee of a script")
		sym.Reach("known")
	}

	// standalone
	up := upTo(3*(outSize+148), d, k)
	up = sym.IteU64(up < 1, 1, up)
	fee64, dust64 := float64(fee), float64(dust)
	sym.Assert(fees.DustLimitForOutput(out, dust64) == up, "standalone dust limit of an output")
	sym.Assert(fees.DustLimitForLockingScript(script, dust64) == up, "standalone dust limit of a script")
	sym.Assert(fees.DustLimitForLockingScriptSize(len(script), dust64) == up, "standalone dust limit of a script size")
	sym.Assert(fees.OutputFeeForLockingScript(script, fee64) == outFee, "standalone output fee")
	sf, sl := fees.OutputFeeAndDustForLockingScript(script, dust64, fee64)
	sym.Assert(sym.And(sf == outFee, sl == up), "standalone fee and dust")
	sz, sl := fees.OutputSizeAndDustForLockingScript(script, dust64)
	sym.Assert(sym.And(sz == outSize, sl == up), "standalone size and dust")
	sym.Observe("costs", outFee, limit, inFee, up)
}
