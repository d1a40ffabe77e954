From c24400aabb367e70a6c02a336059ee10abb161d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:48 +0000
Subject: [PATCH 01/26] fix: keep each output with its own supplement in
 RandomizeOutputsAfter

The supplements were read from the start of the list instead of from after
the index, so shuffled outputs got the flags and key ID of other outputs.
---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..bea9c7d 100644
--- a/break_value.go
+++ b/break_value.go
@@ -400,7 +400,7 @@ func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From 507437a2199f1499cc5ad375550616ee8af83539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:48 +0000
Subject: [PATCH 02/26] fix: refuse subtracting from an output that is below
 its dust limit

The check underflowed when the output was already worth less than the dust
limit, so any amount was accepted and the value could wrap around.
---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 413ce67..66300cf 100644
--- a/outputs.go
+++ b/outputs.go
@@ -268,7 +268,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < value || tx.MsgTx.TxOut[index].Value-value < dust {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From c4f83a356e63a1461b708c0062c876f89f27c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:48 +0000
Subject: [PATCH 03/26] fix: return an error from InsertOutput for an index
 past the end

It panicked where the other operations that take an index return an error.
---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 66300cf..5e28c38 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From 6f33b90a19043e1d43bd84d76d96bfac2bc7a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:31 +0000
Subject: [PATCH 04/26] fix: return an error from UpdateInputUTXO for an index
 one past the end

The range check was off by one, so updating at the input count panicked.
---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..91fa522 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From c7c3f77167b064ebd1a3a7c39cdc35e658c6538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:14 +0000
Subject: [PATCH 05/26] fix: don't panic when breaking with a small break value

rand.Int63n was called with zero when a random output value was below five.
Skip the random variation for values under ten like BreakQuantity does.
---
 break_value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index bea9c7d..c9dabff 100644
--- a/break_value.go
+++ b/break_value.go
@@ -85,7 +85,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -218,7 +218,7 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
-- 
2.43.0


From f58a7b83d7b599184326f30db39954d1d80d9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:14 +0000
Subject: [PATCH 06/26] fix: don't divide by zero when breaking into one part

BreakValue handles a single address but BreakValueLockingScripts and
BreakQuantity divided by the count minus one.
---
 break_value.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index c9dabff..55f7fef 100644
--- a/break_value.go
+++ b/break_value.go
@@ -169,7 +169,12 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
-	average := 2 * (value / uint64(len(lockingScripts)-1))
+	var average uint64
+	if len(lockingScripts) == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(len(lockingScripts)-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -294,7 +299,12 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-	average := 2 * (value / uint64(count-1))
+	var average uint64
+	if count == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(count-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
-- 
2.43.0


From a596ab608721cb40b3759abd737c276bbac8f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:14 +0000
Subject: [PATCH 07/26] fix: don't add a remainder output that is not worth
 spending

BreakValue added an output worth exactly the fee to spend it, which is a zero
value output when the fee rate is zero. BreakValueLockingScripts already
requires it to be worth more.
---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index 55f7fef..6cc2f7b 100644
--- a/break_value.go
+++ b/break_value.go
@@ -138,7 +138,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 	} else {
 		_, inputFee, _ := OutputTotalCost(lockingScript, feeRate)
 
-		if remaining >= inputFee {
+		if remaining > inputFee {
 			result = append(result, &Output{
 				TxOut: wire.TxOut{
 					Value:         remaining,
-- 
2.43.0


From 488a64d6b6892c950aa68205f7ae352e7549cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:51 +0000
Subject: [PATCH 08/26] fix: leave the change output untouched when it cannot
 cover a fee increase

AdjustFee subtracted the amount from the change output before checking that
the remaining value was worth keeping. A caller that got the insufficient
value error was left with a transaction whose change had already been
reduced.
---
 fees.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fees.go b/fees.go
index e054ae6..1899db3 100644
--- a/fees.go
+++ b/fees.go
@@ -323,14 +323,13 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
 		}
 
-		// Decrease change, thereby increasing the fee
-		tx.MsgTx.TxOut[changeOutputIndex].Value -= uint64(amount)
+		newValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)
 
 		outputFee, inputFee, _ := OutputTotalCost(tx.MsgTx.TxOut[changeOutputIndex].LockingScript,
 			tx.FeeRate)
 
 		// Check if change is below dust
-		if tx.MsgTx.TxOut[changeOutputIndex].Value < outputFee+inputFee {
+		if newValue < outputFee+inputFee {
 			if !tx.Outputs[changeOutputIndex].addedForFee {
 				// Don't remove outputs unless they were added by fee adjustment
 				return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
@@ -341,6 +340,9 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 				tx.MsgTx.TxOut[changeOutputIndex+1:]...)
 			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
 			done = true
+		} else {
+			// Decrease change, thereby increasing the fee
+			tx.MsgTx.TxOut[changeOutputIndex].Value = newValue
 		}
 	} else {
 		// Decrease fee, transfer to change
-- 
2.43.0


From b832a7eecb0cf710dd5aeb99ee675a551d015f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:58 +0000
Subject: [PATCH 09/26] fix: count the longer output count when adding change

AdjustFee computed the fee of a new change output from the size of the output
only. The 253rd output also makes the output count two bytes longer, so the
calculated fee was below the fee rate.
---
 fees.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fees.go b/fees.go
index 1899db3..c0e1917 100644
--- a/fees.go
+++ b/fees.go
@@ -359,6 +359,9 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			} else {
 				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
 			}
+			// Adding an output can increase the size of the output count.
+			outputCount := uint64(len(tx.MsgTx.TxOut))
+			newSize += uint64(VarIntSerializeSize(outputCount+1) - VarIntSerializeSize(outputCount))
 			newFee := EstimatedFeeValue(newSize, float64(tx.FeeRate))
 
 			changeOutputFee := newFee - currentFee
-- 
2.43.0


From f00133f2466f1218f4bbc5352bac6ffc8286862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:50 +0000
Subject: [PATCH 10/26] fix: count longer input and output counts when funding

AddFunding added up the fees of the inputs and the change output but not the
two bytes the input or output count grows by at the 253rd item. Transactions
that cross that size were funded below the fee rate.
---
 inputs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/inputs.go b/inputs.go
index 91fa522..4069060 100644
--- a/inputs.go
+++ b/inputs.go
@@ -181,6 +181,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	if changeDustLimit == 0 && len(tx.ChangeScript) > 0 {
 		changeOutputFee, changeDustLimit = OutputFeeAndDustForLockingScript(tx.ChangeScript,
 			tx.DustFeeRate, tx.FeeRate)
+		changeOutputFee += countGrowthFee(len(tx.MsgTx.TxOut), tx.FeeRate)
 	}
 	if changeDustLimit == 0 {
 		// Use P2PKH dust limit
@@ -202,6 +203,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 			return errors.Wrap(err, "utxo fee")
 		}
 		neededFunding += inputFee // Add cost of input
+		neededFunding += countGrowthFee(len(tx.MsgTx.TxIn)-1, tx.FeeRate)
 
 		if tx.SendMax {
 			continue
@@ -406,6 +408,13 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		outputValue+tx.EstimatedFee()))
 }
 
+// countGrowthFee returns the tx fee for the increase in size of the input or output count when
+// another input or output is added.
+func countGrowthFee(count int, feeRate float32) uint64 {
+	growth := VarIntSerializeSize(uint64(count+1)) - VarIntSerializeSize(uint64(count))
+	return EstimatedFeeValue(uint64(growth), float64(feeRate))
+}
+
 // UTXOFee calculates the tx fee for the input to spend the UTXO.
 func UTXOFee(utxo bitcoin.UTXO, feeRate float32) (uint64, error) {
 	size, err := InputSize(utxo.LockingScript)
-- 
2.43.0


From 4dec26053f8cd2ac2aa88e67f26de5aebbd061a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:09 +0000
Subject: [PATCH 11/26] fix: leave change below its own output fee with the
 miner when funding

With a dust rate far below the fee rate AddFunding could try to add a change
output worth less than the fee to include it. AddOutput refused it and
funding failed although there was enough value.
---
 inputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inputs.go b/inputs.go
index 4069060..96d4bbd 100644
--- a/inputs.go
+++ b/inputs.go
@@ -181,6 +181,10 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	if changeDustLimit == 0 && len(tx.ChangeScript) > 0 {
 		changeOutputFee, changeDustLimit = OutputFeeAndDustForLockingScript(tx.ChangeScript,
 			tx.DustFeeRate, tx.FeeRate)
+		if changeDustLimit < changeOutputFee {
+			// AddOutput doesn't accept values below the fee to include the output.
+			changeDustLimit = changeOutputFee
+		}
 		changeOutputFee += countGrowthFee(len(tx.MsgTx.TxOut), tx.FeeRate)
 	}
 	if changeDustLimit == 0 {
-- 
2.43.0


From 45bc59d4fcee102da16ba38e32ac605be4b0c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:22 +0000
Subject: [PATCH 12/26] fix: don't require change addresses when a remainder
 output gets the change

AddFundingBreakChange always looked at the first change address, so an empty
list panicked. The list isn't used when there is a remainder output. Without
either it now returns the change address needed error.
---
 inputs.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/inputs.go b/inputs.go
index 96d4bbd..9ffaacf 100644
--- a/inputs.go
+++ b/inputs.go
@@ -286,13 +286,19 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	}
 
 	firstChangeOutputSize := uint64(0)
-	if !remainderIncluded && len(changeAddresses) > 0 {
+	var outputFee, inputFee uint64
+	if !remainderIncluded {
+		if len(changeAddresses) == 0 {
+			return errors.Wrap(ErrChangeAddressNeeded, "no change addresses")
+		}
+
 		lockingScript, err := changeAddresses[0].Address.LockingScript()
 		if err != nil {
 			return errors.Wrap(err, "first change locking script")
 		}
 
 		firstChangeOutputSize = uint64(OutputSize(lockingScript))
+		outputFee, inputFee, _ = OutputTotalCost(lockingScript, tx.FeeRate)
 	}
 
 	inputValue := tx.InputValue()
@@ -301,13 +307,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
-	changeLockingScript, err := changeAddresses[0].Address.LockingScript()
-	if err != nil {
-		return errors.Wrap(err, "change locking script")
-	}
-
-	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
-
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
-- 
2.43.0


From 0733a08a08123b83d8a8cfbcc803668c61ba066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:19 +0000
Subject: [PATCH 13/26] fix: treat a funded transaction as funded when breaking
 up change

When the leftover was too small for a change output AddFundingBreakChange went
on to add inputs. The funding still needed was then negative and wrapped
around, so it added every UTXO and failed with insufficient value.
---
 inputs.go | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/inputs.go b/inputs.go
index 9ffaacf..7ce72b8 100644
--- a/inputs.go
+++ b/inputs.go
@@ -286,7 +286,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	}
 
 	firstChangeOutputSize := uint64(0)
-	var outputFee, inputFee uint64
 	if !remainderIncluded {
 		if len(changeAddresses) == 0 {
 			return errors.Wrap(ErrChangeAddressNeeded, "no change addresses")
@@ -298,7 +297,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		}
 
 		firstChangeOutputSize = uint64(OutputSize(lockingScript))
-		outputFee, inputFee, _ = OutputTotalCost(lockingScript, tx.FeeRate)
 	}
 
 	inputValue := tx.InputValue()
@@ -310,17 +308,13 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
-			// Ensure added change output is funded
-			if inputValue-outputValue >= estFeeValue+outputFee+inputFee {
-				if err := tx.SetChangeAddress(changeAddresses[0].Address,
-					changeAddresses[0].KeyID); err != nil {
-					return errors.Wrap(err, "set change address")
-				}
-				return tx.CalculateFee() // Already funded
+			// A change output is only added if it is worth more than it costs.
+			if err := tx.SetChangeAddress(changeAddresses[0].Address,
+				changeAddresses[0].KeyID); err != nil {
+				return errors.Wrap(err, "set change address")
 			}
-		} else {
-			return tx.CalculateFee() // Already funded
 		}
+		return tx.CalculateFee() // Already funded
 	}
 
 	if len(utxos) == 0 {
@@ -328,10 +322,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			outputValue+estFeeValue))
 	}
 
-	// Calculate additional funding needed. Include cost of first added input.
-	// TODO Add support for input scripts other than P2PKH.
-	estFeeValue = EstimatedFeeValue(estSize, feeRate)
-	neededFunding := estFeeValue + outputValue - inputValue
 	duplicateValue := uint64(0)
 
 	for _, utxo := range utxos {
@@ -350,20 +340,18 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 		estSize += uint64(inputSize)
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 		inputValue += utxo.Value
 
 		if tx.SendMax {
 			continue
 		}
 
-		if neededFunding <= utxo.Value {
+		if estFeeValue+outputValue <= inputValue {
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
 			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
-			finalNeededFunding := finalFeeValue + outputValue - inputValue + utxo.Value
-			changeValue := utxo.Value - finalNeededFunding
+			changeValue := inputValue - outputValue - finalFeeValue
 
 			if remainderIncluded {
 				for i, output := range tx.Outputs {
@@ -393,10 +381,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 			return nil
 		}
-
-		// More UTXOs required
-		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 	}
 
 	if tx.SendMax {
-- 
2.43.0


From 1cb37ab43d2be3748390d31c76c38781dd7cfd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:57 +0000
Subject: [PATCH 14/26] fix: count longer input and output counts when breaking
 up change

AddFundingBreakChange didn't include the two bytes the input or output count
grows by at the 253rd item.
---
 inputs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index 7ce72b8..2289314 100644
--- a/inputs.go
+++ b/inputs.go
@@ -338,7 +338,9 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "input size")
 		}
 
+		inputCount := uint64(len(tx.MsgTx.TxIn))
 		estSize += uint64(inputSize)
+		estSize += uint64(VarIntSerializeSize(inputCount) - VarIntSerializeSize(inputCount-1))
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
 		inputValue += utxo.Value
 
@@ -350,7 +352,14 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
-			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
+			finalSize := estSize - firstChangeOutputSize
+			if !remainderIncluded {
+				outputCount := uint64(len(tx.MsgTx.TxOut))
+				changeCount := uint64(len(changeAddresses))
+				finalSize += uint64(VarIntSerializeSize(outputCount+changeCount) -
+					VarIntSerializeSize(outputCount))
+			}
+			finalFeeValue := EstimatedFeeValue(finalSize, feeRate)
 			changeValue := inputValue - outputValue - finalFeeValue
 
 			if remainderIncluded {
-- 
2.43.0


From 8fd4577b3ee58f6ff26c1f9836a4a430626f4c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:24 +0000
Subject: [PATCH 15/26] fix: keep the estimated fee when signing without all
 keys

Sign lowered the fee to the size of the partially signed transaction. When the
missing signatures were added later the fee was below the fee rate and could
not be corrected without invalidating the first signatures.
---
 sign.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/sign.go b/sign.go
index 0bfd78f..ef4bf97 100644
--- a/sign.go
+++ b/sign.go
@@ -109,6 +109,11 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 			result = appendKeys(result, signKeys...)
 		}
 
+		if missingKey {
+			// The tx isn't at its final size yet so leave the fee at the estimate.
+			return result, ErrMissingPrivateKey
+		}
+
 		// Check fee and adjust if too low
 		targetFee := int64(EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate)))
 		inputValue = tx.InputValue()
@@ -122,9 +127,6 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 		}
 
 		if currentFee == targetFee { // exact target fee rate achieved
-			if missingKey {
-				return result, ErrMissingPrivateKey
-			}
 			return result, nil
 		}
 
@@ -133,26 +135,17 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 				return nil, errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", inputValue,
 					outputValue+uint64(targetFee)))
 			}
-			if missingKey {
-				return result, ErrMissingPrivateKey
-			}
 			return result, nil
 		}
 
 		if currentFee >= targetFee { // above target fee rate
 			if attempt <= 0 { // too many adjustements already
-				if missingKey {
-					return result, ErrMissingPrivateKey
-				}
 				return result, nil
 			}
 
 			feeDiff := currentFee - targetFee
 			if float32(feeDiff)/float32(targetFee) < 0.05 || feeDiff <= 3 {
 				// Current fee is within 5% of target fee or within 3 satoshis
-				if missingKey {
-					return result, ErrMissingPrivateKey
-				}
 				return result, nil
 			}
 		}
-- 
2.43.0


From 758071ce245a2872337e2cbd1b296add4e5b485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:53 +0000
Subject: [PATCH 16/26] fix: return each key used to sign once

appendKeys compared new keys only to the list from before the call, so a key
that signed twice for one multi-PKH input was returned twice.
---
 sign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index ef4bf97..e4f53dc 100644
--- a/sign.go
+++ b/sign.go
@@ -196,7 +196,7 @@ func appendKeys(list []bitcoin.Key, keys ...bitcoin.Key) []bitcoin.Key {
 	result := list
 	for _, key := range keys {
 		found := false
-		for _, k := range list {
+		for _, k := range result {
 			if k.Equal(key) {
 				found = true
 				break
-- 
2.43.0


From d6315ea117b2196af17d0d4ddaa394b3430a5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:28 +0000
Subject: [PATCH 17/26] fix: sign the original bytes after the last code
 separator

The part of the locking script after OP_CODESEPARATOR was parsed and
serialized again. Pushes that are not in their shortest form came out
different, so the signature did not commit to the script being spent.
---
 sig_hash.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sig_hash.go b/sig_hash.go
index ac29cb8..5514fc5 100644
--- a/sig_hash.go
+++ b/sig_hash.go
@@ -219,23 +219,20 @@ func writeSignatureHashPreimageBytes(w io.Writer, tx *wire.MsgTx, index int, loc
 // NOTE: This is only correct if the last OP_CODESEPARATOR is actually executed when the script is
 // executed, so there is room for error here depending on the locking script. --ce
 func afterOpCodeSeparator(lockScript []byte) ([]byte, error) {
-	items, err := bitcoin.ParseScriptItems(bytes.NewReader(lockScript), -1)
-	if err != nil {
-		return nil, errors.Wrap(err, "parse")
-	}
+	// Use the original bytes of the script. Serializing the items again would change any pushes that
+	// are not in their shortest form and the signature would not commit to the script being spent.
+	start := 0
+	buf := bytes.NewReader(lockScript)
+	for buf.Len() > 0 {
+		item, err := bitcoin.ParseScript(buf)
+		if err != nil {
+			return nil, errors.Wrap(err, "parse")
+		}
 
-	itemCount := len(items)
-	for i := itemCount - 1; i >= 0; i-- {
-		item := items[i]
 		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
-			if i == itemCount-1 {
-				return nil, nil // OP_CODESEPARATOR is the last op code of the script
-			}
-
-			return items[i+1:].Script()
+			start = len(lockScript) - buf.Len()
 		}
 	}
 
-	// No OP_CODESEPARATOR found so return the full locking script.
-	return lockScript, nil
+	return lockScript[start:], nil
 }
-- 
2.43.0


From fbdc7f9c05e75541ba8c7c350be8a665a200ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:44 +0000
Subject: [PATCH 18/26] fix: give inputs without data an empty supplement when
 importing

The builder returned with the missing input data error had nil entries,
so estimating, copying or printing it crashed.
---
 txbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/txbuilder.go b/txbuilder.go
index d542968..34e00f5 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -202,6 +202,7 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
@@ -244,6 +245,7 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
-- 
2.43.0


From 94fafd85a8143e799cdc6d3542e76fcb8128b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:55 +0000
Subject: [PATCH 19/26] fix: value an unidentified input by its embedded value

fees.InputValue returned the size of the unlocking script instead.
---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..a847d42 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -233,7 +233,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From 136aa9f9488cef081e5a191e74fc639d04b90f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:11 +0000
Subject: [PATCH 20/26] fix: estimate agent transfers and report unknown
 scripts in fees

EstimateUnlockingSize used the agent transfer information exactly when
the script did not match. Unknown scripts crashed and agent transfers
were reported as unknown.
---
 fees/fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees/fees.go b/fees/fees.go
index a847d42..d425882 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,8 +139,10 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+		agentLockingScript := info.AgentLockingScript.Copy()
+		agentLockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From 6076c7ef5b2e766dd0bf8e5263a93a10ad967e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:11 +0000
Subject: [PATCH 21/26] fix: print the size with the embedded unlocking size

The summary added the length of the embedded data instead of the size it
gives for the unlocking script.
---
 print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/print.go b/print.go
index d6e321c..b8fce54 100644
--- a/print.go
+++ b/print.go
@@ -67,7 +67,7 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 
 				inputsValue += unlockData.Value
 				inputsSize += InputBaseSize + wire.VarIntSerializeSize(uint64(unlockData.Size)) +
-					len(txin.UnlockingScript)
+					int(unlockData.Size)
 				continue
 			}
 		}
-- 
2.43.0


From b240de5fbc96fdde33a0f8aaf9a321e292b81200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:18 +0000
Subject: [PATCH 22/26] fix: print output values at full precision

The text of a transaction builder converted output values to single
precision, so values of more than seven digits were printed wrong.
---
 txbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txbuilder.go b/txbuilder.go
index 34e00f5..4dd4552 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -295,7 +295,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	}
 	result += "  Outputs:\n\n"
 	for i, output := range tx.MsgTx.TxOut {
-		result += fmt.Sprintf("    Value: %.08f\n", float32(output.Value)/100000000.0)
+		result += fmt.Sprintf("    Value: %.08f\n", float64(output.Value)/100000000.0)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
 		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
 		if err == nil {
-- 
2.43.0


From 1aaad9d646927647da2d90bdfabc58a18996a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:50 +0000
Subject: [PATCH 23/26] fix: leave send max unset when the address of a maximum
 output is invalid

AddMaxOutput turned on send max before it looked at the address, so an
output that was refused still changed how the transaction is funded.
---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 5e28c38..6cf46d8 100644
--- a/outputs.go
+++ b/outputs.go
@@ -150,11 +150,11 @@ func (tx *TxBuilder) AddDustOutput(address bitcoin.RawAddress, isRemainder bool)
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
 // remainder flag set so that it gets all remaining value after fees are taken.
 func (tx *TxBuilder) AddMaxOutput(address bitcoin.RawAddress) error {
-	tx.SendMax = true
 	script, err := address.LockingScript()
 	if err != nil {
 		return err
 	}
+	tx.SendMax = true
 	return tx.AddOutput(script, 0, true, false)
 }
 
-- 
2.43.0


From 1248426fb06b59c14f3d8815a69ac0f360822090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:03 +0000
Subject: [PATCH 24/26] fix: refuse a negative amount in create_send

A negative amount was converted to a huge unsigned payment. The value sums wrapped
around, so a signed transaction with an impossible output was printed.
---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 3f5a018..fc35c4a 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -96,6 +96,10 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[2], err)
 		return
 	}
+	if amount < 0 {
+		fmt.Printf("Invalid amount : %s : negative\n", args[2])
+		return
+	}
 
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 3; i < len(args); i++ {
-- 
2.43.0


From 219001c935904c2d71dca7e30641634935d79c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:03 +0000
Subject: [PATCH 25/26] fix: end create_sends when no value is left

When what is left is not worth an output the transaction has none. The next
transaction of the chain then indexed the missing output and panicked.
---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index fc35c4a..ed3a0e4 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -256,6 +256,10 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 	for i := 1; i < count; i++ {
 		previousTxID := *tx.MsgTx.TxHash()
 		outpointTx := tx.MsgTx
+		if len(outpointTx.TxOut) == 0 {
+			fmt.Printf("Not enough value to continue after %d of %d transactions\n", i, count)
+			return
+		}
 
 		tx = txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 
-- 
2.43.0


From 9ce87dd4238c0b8b6a10b14fca30ca006f848081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:12 +0000
Subject: [PATCH 26/26] fix: Report multi-PKH scripts requiring more signers
 than they have as unknown

The number of unused signers was calculated by subtracting the required signers
from the total. It wrapped around when more signers were required than present,
so the unlocking script was estimated at over 4 GB.
---
 fees.go      | 2 +-
 fees/fees.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index c0e1917..9b2745b 100644
--- a/fees.go
+++ b/fees.go
@@ -121,7 +121,7 @@ func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
 		return MaxSignaturesPushDataSize + PublicKeyPushDataSize, nil
 	}
 
-	if required, total, err := lockingScript.MultiPKHCounts(); err == nil {
+	if required, total, err := lockingScript.MultiPKHCounts(); err == nil && required <= total {
 		scriptSize := int(total - required) // OP_FALSE for all signatures not included
 
 		// Signature, public key and OP_TRUE for each required signature
diff --git a/fees/fees.go b/fees/fees.go
index d425882..ded0d5c 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -133,7 +133,7 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 		return MaxSignaturesPushDataSize + PublicKeyPushDataSize, nil
 	}
 
-	if required, total, err := lockingScript.MultiPKHCounts(); err == nil {
+	if required, total, err := lockingScript.MultiPKHCounts(); err == nil && required <= total {
 		return int(total-required) + // OP_FALSE for all signatures not included
 			// Signature, public key and OP_TRUE for each required signature
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
-- 
2.43.0

