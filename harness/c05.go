package verifharness

import (
	"verifharness/sym"

	"github.com/tokenized/txbuilder"
)

func checkQuantity(value, breakValue uint64, n int, positive string) {
	parts, err := txbuilder.BreakQuantity(value, breakValue, n)
	sym.Assert(err == nil, "breaking works")
	sym.Assert(len(parts) <= n+1, "no more parts than the count plus a remainder")
	total := uint64(0)
	for _, p := range parts {
		sym.Assert(p <= value-total, "every part is within the rest")
		sym.Assert(p > 0, positive)
		total += p
	}
	sym.Assert(total == value, "the quantity is conserved")
	sym.Reach("done")
	for _, p := range parts {
		sym.Observe("part", p)
	}
}

// C05_Break: every quantity below 2^59, every positive break value, counts 1 to 2 (thorough: 3),
// every random draw; the final shuffle over all permutations.
func C05_Break() {
	count := 2
	if sym.Thorough() {
		count = 3
	}
	n := 1 + sym.Choose("n", count)
	value := sym.U64R("value", 0, 1<<59-1)
	breakValue := sym.U64("breakvalue")
	sym.Assume(breakValue > 0)
	checkQuantity(value, breakValue, n, "every part is positive")
}

// C05_Huge: every quantity from 2^59 on, every positive break value, count 1 (thorough: 2), every
// random draw.
func C05_Huge() {
	n := 1
	if sym.Thorough() {
		n = 1 + sym.Choose("n", 2)
	}
	value := sym.U64R("value", 1<<59, 1<<64-1)
	breakValue := sym.U64("breakvalue")
	sym.Assume(breakValue > 0)
	checkQuantity(value, breakValue, n, "every part of a quantity of 2^59 or more is positive")
}
