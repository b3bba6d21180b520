From a4d00fd9edbbe389ee8fe190e914daaafa6a074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:29 +0000
Subject: [PATCH 01/13] fix: report an error for UpdateInputUTXO at the end of
 the input list

The range check allowed an index equal to the number of inputs, which then
panicked instead of returning the out of range error.
---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..91fa522 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From c75e044e65043b0ddee41c69f9bcda4cb0b5e49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:29 +0000
Subject: [PATCH 02/13] fix: report an error when inserting an output beyond
 the end of the list

InsertOutput panicked for an index larger than the number of outputs.
InsertInput already returns an out of range error in that case.
---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 413ce67..1a66cb3 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From 6445a7816e587ec6b8b90dc86d57422044120929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:29 +0000
Subject: [PATCH 03/13] fix: refuse to subtract from an output that is already
 below dust

The unsigned difference between the output value and the dust limit wrapped
around when the value was below the limit, so any amount could be subtracted
and the output value itself wrapped.
---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 1a66cb3..78b9980 100644
--- a/outputs.go
+++ b/outputs.go
@@ -272,7 +272,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < dust || tx.MsgTx.TxOut[index].Value-dust < value {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From 51a3ecf2f5a809524d58e80de5b573baaa158bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:50 +0000
Subject: [PATCH 04/13] fix: keep output records with their outputs when
 randomizing after an index

The records were read from the start of the list instead of from after the
index, so moved outputs got the flags and key IDs of other outputs.
---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..bea9c7d 100644
--- a/break_value.go
+++ b/break_value.go
@@ -400,7 +400,7 @@ func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From db035ddba7feefa86fa1a12589edacde3bb18ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:50 +0000
Subject: [PATCH 05/13] fix: do nothing when randomizing after an index beyond
 the last output

A negative length was passed to make, which panics.
---
 break_value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/break_value.go b/break_value.go
index bea9c7d..93ebec3 100644
--- a/break_value.go
+++ b/break_value.go
@@ -396,6 +396,9 @@ func (tx *TxBuilder) RandomizeOutputs() {
 // that depend on outputs being at a specific index.
 func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	randLength := len(tx.MsgTx.TxOut) - (index + 1)
+	if randLength <= 0 {
+		return // no outputs after the index
+	}
 	randOutputs := make([]*Output, randLength)
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
-- 
2.43.0


From 69801800336776eeee4e1b1e9c4d6313c741454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:50 +0000
Subject: [PATCH 06/13] fix: do not draw from an empty range for values below
 five

rand.Int63n panics when its argument is zero, which it was for break values
that produce an output value below five.
---
 break_value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index 93ebec3..f21514e 100644
--- a/break_value.go
+++ b/break_value.go
@@ -85,7 +85,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 5 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -218,7 +218,7 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 5 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
-- 
2.43.0


From c6a1cab3ac306cf689c2bbc0a5c6be20d20c78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:50 +0000
Subject: [PATCH 07/13] fix: allow breaking a value into a single script or
 quantity

The average was divided by the number of parts minus one, which is zero.
Handle it as BreakValue already does for a single address.
---
 break_value.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index f21514e..34f286d 100644
--- a/break_value.go
+++ b/break_value.go
@@ -169,7 +169,12 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
-	average := 2 * (value / uint64(len(lockingScripts)-1))
+	var average uint64
+	if len(lockingScripts) == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(len(lockingScripts)-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -294,7 +299,12 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-	average := 2 * (value / uint64(count-1))
+	var average uint64
+	if count == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(count-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
-- 
2.43.0


From 91c3b7a6b53627808d072134d25588d6212443be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:50 +0000
Subject: [PATCH 08/13] fix: report an error for a zero break value or no
 destinations

Breaking a value divided by the break value and sliced the destinations up to
length minus one, so both cases panicked.
---
 break_value.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/break_value.go b/break_value.go
index 34f286d..05dd9d8 100644
--- a/break_value.go
+++ b/break_value.go
@@ -13,6 +13,12 @@ import (
 var (
 	// BreakIncrements are the base values used to generate random output values.
 	BreakIncrements = []uint64{1, 2, 5}
+
+	// ErrInvalidBreakValue means that a break value of zero was provided.
+	ErrInvalidBreakValue = errors.New("Invalid Break Value")
+
+	// ErrMissingDestination means that no addresses or locking scripts were provided.
+	ErrMissingDestination = errors.New("Missing Destination")
 )
 
 // BreakValue breaks the value up into psuedo random values based on pre-defined increments of
@@ -23,6 +29,13 @@ var (
 // the remainder.
 func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 	dustFeeRate, feeRate float32, lastIsRemainder bool, subtractFee bool) ([]*Output, error) {
+	if breakValue == 0 {
+		return nil, ErrInvalidBreakValue
+	}
+	if len(addresses) == 0 {
+		return nil, ErrMissingDestination
+	}
+
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
@@ -166,6 +179,13 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 
 func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin.Script,
 	dustFeeRate, feeRate float32, lastIsRemainder bool, subtractFee bool) ([]*Output, error) {
+	if breakValue == 0 {
+		return nil, ErrInvalidBreakValue
+	}
+	if len(lockingScripts) == 0 {
+		return nil, ErrMissingDestination
+	}
+
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
@@ -296,6 +316,10 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 // BreakQuantity breaks the quantity into randomized values. It is like BreakValue, but is not
 // concerned with dust or anything like that.
 func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
+	if breakValue == 0 {
+		return nil, ErrInvalidBreakValue
+	}
+
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-- 
2.43.0


From a88f9cfbf01db5c365622ebc5f11a61f24ebbead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:06 +0000
Subject: [PATCH 09/13] fix: return the value from embedded unlocking data as
 the input value

The size of the unlocking script was returned instead, so totals and fees were
wrong for inputs whose spent output is only known from unlocking data.
---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..a847d42 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -233,7 +233,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From a3a914dc130cf360175ad23a0161e86f01372f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:06 +0000
Subject: [PATCH 10/13] fix: estimate agent transfer scripts and report unknown
 scripts as errors

The check on the match error was inverted. Unknown scripts dereferenced a nil
result and agent transfer scripts were reported as unknown. The agent script
ends with a verify op code, which is removed before estimating it as the root
package does.
---
 fees/fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees/fees.go b/fees/fees.go
index a847d42..d425882 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,8 +139,10 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+		agentLockingScript := info.AgentLockingScript.Copy()
+		agentLockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From 41a3c7d94b26bbf21e4c3712151d4d89cfeaa468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:06 +0000
Subject: [PATCH 11/13] fix: sign the bytes after the last code separator as
 they are

The items after the separator were encoded again. That changes scripts whose
pushes are not minimally encoded, so the signature did not match the script.
---
 sig_hash.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sig_hash.go b/sig_hash.go
index ac29cb8..0bacde9 100644
--- a/sig_hash.go
+++ b/sig_hash.go
@@ -219,23 +219,20 @@ func writeSignatureHashPreimageBytes(w io.Writer, tx *wire.MsgTx, index int, loc
 // NOTE: This is only correct if the last OP_CODESEPARATOR is actually executed when the script is
 // executed, so there is room for error here depending on the locking script. --ce
 func afterOpCodeSeparator(lockScript []byte) ([]byte, error) {
-	items, err := bitcoin.ParseScriptItems(bytes.NewReader(lockScript), -1)
-	if err != nil {
-		return nil, errors.Wrap(err, "parse")
-	}
+	// Keep the bytes as they are because encoding the items again can change push op codes.
+	start := 0
+	buf := bytes.NewReader(lockScript)
+	for buf.Len() > 0 {
+		item, err := bitcoin.ParseScript(buf)
+		if err != nil {
+			return nil, errors.Wrap(err, "parse")
+		}
 
-	itemCount := len(items)
-	for i := itemCount - 1; i >= 0; i-- {
-		item := items[i]
 		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
-			if i == itemCount-1 {
-				return nil, nil // OP_CODESEPARATOR is the last op code of the script
-			}
-
-			return items[i+1:].Script()
+			start = len(lockScript) - buf.Len()
 		}
 	}
 
-	// No OP_CODESEPARATOR found so return the full locking script.
-	return lockScript, nil
+	// If no OP_CODESEPARATOR was found this is the full locking script.
+	return lockScript[start:], nil
 }
-- 
2.43.0


From 485996e45ea3e66feea3c7474dfdb214eae4e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:29:31 +0000
Subject: [PATCH 12/13] fix: include growth of the input and output counts when
 funding and adding change

Adding the 253rd input or output makes its count prefix two bytes longer.
The fee for those bytes was left out, so a transaction could be reported
as funded with less than the estimated fee.
---
 fees.go   | 24 +++++++++++++++---------
 inputs.go | 22 +++++++++++-----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/fees.go b/fees.go
index e054ae6..966d54d 100644
--- a/fees.go
+++ b/fees.go
@@ -346,20 +346,14 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 		// Decrease fee, transfer to change
 		if changeOutputIndex == 0xffffffff {
 			// Adjust amount of fee adjustment for new output being added.
-			currentSize := uint64(tx.EstimatedSize())
-			currentFee := EstimatedFeeValue(currentSize, float64(tx.FeeRate))
-
-			var newSize uint64
+			var changeOutputFee uint64
 			if len(tx.ChangeScript) == 0 {
 				// Assume P2PKH for costs of adding an output so we don't fail out of this function
 				// with an error if the remaining amount is too small to worry about.
-				newSize = currentSize + P2PKHOutputSize
+				changeOutputFee = tx.addedOutputFee(P2PKHOutputSize)
 			} else {
-				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
+				changeOutputFee = tx.addedOutputFee(uint64(OutputSize(tx.ChangeScript)))
 			}
-			newFee := EstimatedFeeValue(newSize, float64(tx.FeeRate))
-
-			changeOutputFee := newFee - currentFee
 
 			if changeOutputFee > uint64(-amount) {
 				return true, nil // adding a change output would make the adjustment negative
@@ -404,6 +398,18 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 	return done, nil
 }
 
+// addedOutputFee returns the amount the estimated fee increases by when an output is added. Adding an
+// output can also increase the size of the output count.
+func (tx *TxBuilder) addedOutputFee(outputSize uint64) uint64 {
+	currentSize := uint64(tx.EstimatedSize())
+	count := uint64(len(tx.MsgTx.TxOut))
+	newSize := currentSize + outputSize + uint64(VarIntSerializeSize(count+1)) -
+		uint64(VarIntSerializeSize(count))
+
+	return EstimatedFeeValue(newSize, float64(tx.FeeRate)) -
+		EstimatedFeeValue(currentSize, float64(tx.FeeRate))
+}
+
 // VarIntSerializeSize returns the number of bytes it would take to serialize
 // val as a variable length integer.
 func VarIntSerializeSize(val uint64) int {
diff --git a/inputs.go b/inputs.go
index 91fa522..4ef496f 100644
--- a/inputs.go
+++ b/inputs.go
@@ -159,9 +159,6 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 			inputValue, outputValue+estFeeValue))
 	}
 
-	// Calculate additional funding needed. Include cost of first added input.
-	// TODO Add support for input scripts other than P2PKH.
-	neededFunding := estFeeValue + outputValue - inputValue
 	changeOutputFee := uint64(0)
 	duplicateValue := uint64(0)
 
@@ -197,19 +194,21 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 			return errors.Wrap(err, "adding input")
 		}
 
-		inputFee, err := UTXOFee(utxo, tx.FeeRate)
-		if err != nil {
+		if _, err := UTXOFee(utxo, tx.FeeRate); err != nil {
 			return errors.Wrap(err, "utxo fee")
 		}
-		neededFunding += inputFee // Add cost of input
+		inputValue += utxo.Value
 
 		if tx.SendMax {
 			continue
 		}
 
-		if neededFunding <= utxo.Value {
+		// Estimate the fee of the full tx because the size of the input count can also increase.
+		estFeeValue = tx.EstimatedFee()
+
+		if inputValue >= outputValue+estFeeValue {
 			// Funding complete
-			change := utxo.Value - neededFunding
+			change := inputValue - outputValue - estFeeValue
 			if change > changeDustLimit {
 				for i, output := range tx.Outputs {
 					if output.IsRemainder {
@@ -219,6 +218,10 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 					}
 				}
 
+				if len(tx.ChangeScript) > 0 {
+					changeOutputFee = tx.addedOutputFee(uint64(OutputSize(tx.ChangeScript)))
+				}
+
 				if change > changeDustLimit+changeOutputFee {
 					// Add new change output
 					change -= changeOutputFee
@@ -236,9 +239,6 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 
 			return nil
 		}
-
-		// More UTXOs required
-		neededFunding -= utxo.Value // Subtract the value this input added
 	}
 
 	if tx.SendMax {
-- 
2.43.0


From 58873cf7b7cc1330d4513055858fdf3afd74fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:29:52 +0000
Subject: [PATCH 13/13] fix: report missing change addresses when funding with
 broken change

AddFundingBreakChange looked at the first change address even when none
were given, and panicked. Change addresses are only needed without a
remainder output, and their absence is now an error.
---
 inputs.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/inputs.go b/inputs.go
index 4ef496f..0e6c1ab 100644
--- a/inputs.go
+++ b/inputs.go
@@ -280,13 +280,19 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	}
 
 	firstChangeOutputSize := uint64(0)
-	if !remainderIncluded && len(changeAddresses) > 0 {
+	var outputFee, inputFee uint64
+	if !remainderIncluded {
+		if len(changeAddresses) == 0 {
+			return errors.Wrap(ErrChangeAddressNeeded, "no change addresses")
+		}
+
 		lockingScript, err := changeAddresses[0].Address.LockingScript()
 		if err != nil {
 			return errors.Wrap(err, "first change locking script")
 		}
 
 		firstChangeOutputSize = uint64(OutputSize(lockingScript))
+		outputFee, inputFee, _ = OutputTotalCost(lockingScript, tx.FeeRate)
 	}
 
 	inputValue := tx.InputValue()
@@ -295,13 +301,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
-	changeLockingScript, err := changeAddresses[0].Address.LockingScript()
-	if err != nil {
-		return errors.Wrap(err, "change locking script")
-	}
-
-	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
-
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
-- 
2.43.0

