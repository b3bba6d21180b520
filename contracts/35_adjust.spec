// C06: fee adjustment.
package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define firstRem(tx, c) = tx.Outputs[c].IsRemainder && forall(k, 0, c, !tx.Outputs[k].IsRemainder)
define noRem(tx) = forall(k, 0, len(tx.Outputs), !tx.Outputs[k].IsRemainder)
opaque define changeless(tx) = noRem(tx)
define smallValues(tx) = forall(k, 0, len(tx.MsgTx.TxOut), tx.MsgTx.TxOut[k].Value <= 4611686018427387904)
// cost of having and spending an output
define changeCost(script, rate) = wrap64(outFee(script, rate) + inCost(bytes(script), rate))
// what the estimated fee rises by with the change output: its size and that of a longer output count
define addedSize(tx, n) = n + varint(len(tx.MsgTx.TxOut) + 1) - varint(len(tx.MsgTx.TxOut))
define changeFee(tx) = wrap64(feeUp(wrap64(estSize(tx) + addedSize(tx, outSize(len(tx.ChangeScript)))), tx.FeeRate) - estFee(tx))
// values of the outputs there were before
define oldVal(tx, k) = old(tx.MsgTx.TxOut[k]).Value

define onlyChange(tx) = forall(k, 0, old(len(tx.Outputs)), implies(!old(tx.Outputs[k].IsRemainder), oldVal(tx, k) == old(tx.MsgTx.TxOut[k].Value)
       && (tx.MsgTx.TxOut[k] == old(tx.MsgTx.TxOut[k]) && tx.Outputs[k] == old(tx.Outputs[k]) || k > 0 && tx.MsgTx.TxOut[k-1] == old(tx.MsgTx.TxOut[k]) && tx.Outputs[k-1] == old(tx.Outputs[k]))))

func (*TxBuilder).AdjustFee(tx, amount) (done, err)
  nopanic [C06, C21]
  reveal changeless
  reveal [C08] estSize estSmall rateFine
  requires txOK(tx) && len(tx.Outputs) < 4294967295
  requires [C06, C07, C08, C10] smallValues(tx)
  requires [C06, C07, C08, C10] amount >= -4611686018427387904
  requires [C08] estSmall(tx) && rateFine(tx.FeeRate)
  modifies tx.Outputs, tx.MsgTx.TxOut, elems(tx.Outputs), elems(tx.MsgTx.TxOut), each(k, 0, len(tx.MsgTx.TxOut), tx.MsgTx.TxOut[k].Value)
  ensures outsOK(tx)
  ensures [C10] "one more output only without change" len(tx.Outputs) <= old(len(tx.Outputs)) && implies(len(tx.Outputs) == old(len(tx.Outputs)), changeless(tx) == old(changeless(tx))) || (len(tx.Outputs) == old(len(tx.Outputs)) + 1 && old(changeless(tx)) && !changeless(tx))
  ensures [C06, C07] "same outputs, one less or one more" (len(tx.Outputs) == old(len(tx.Outputs)) && outsSame(tx))
     || (len(tx.Outputs) == old(len(tx.Outputs)) - 1 && amount > 0 && err == nil && old(!noRem(tx)))
     || (appended(tx) && amount < 0 && err == nil && old(noRem(tx)))
  ensures [C06, C07] "only the first remainder changes" forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), forall(k, 0, old(len(tx.Outputs)), implies(k != c, oldVal(tx, k) == old(tx.MsgTx.TxOut[k].Value)))))
  ensures [C06, C07] "without a remainder no value changes" implies(old(noRem(tx)), forall(k, 0, old(len(tx.Outputs)), oldVal(tx, k) == old(tx.MsgTx.TxOut[k].Value)))
  ensures [C06, C07] "the first remainder changes by the negated amount" forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)),
     implies(err == nil, oldVal(tx, c) == old(tx.MsgTx.TxOut[c].Value) - amount) && (oldVal(tx, c) == old(tx.MsgTx.TxOut[c].Value) || oldVal(tx, c) == old(tx.MsgTx.TxOut[c].Value) - amount)))
  ensures [C06, C07] "only a remainder added for fees is removed" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), old(tx.Outputs[c].addedForFee))))
  ensures [C06, C07] "only a remainder below its cost is removed" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)),
     oldVal(tx, c) < old(changeCost(tx.MsgTx.TxOut[c].LockingScript, tx.FeeRate)))))
  ensures [C06, C07] "outputs before the removed remainder stay" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), outsFirst(tx, c))))
  ensures [C06, C07] "outputs after the removed remainder move up" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)),
     forall(k, c, len(tx.Outputs), tx.Outputs[k] == old(tx.Outputs[k+1]) && tx.MsgTx.TxOut[k] == old(tx.MsgTx.TxOut[k+1])))))
  ensures [C06, C07] "an added output is change" implies(len(tx.Outputs) > old(len(tx.Outputs)),
     tx.Outputs[old(len(tx.Outputs))].IsRemainder && tx.Outputs[old(len(tx.Outputs))].addedForFee && !tx.Outputs[old(len(tx.Outputs))].IsDust
     && tx.Outputs[old(len(tx.Outputs))].KeyID == tx.ChangeKeyID && bytes(tx.MsgTx.TxOut[old(len(tx.Outputs))].LockingScript) == bytes(tx.ChangeScript)
     && fresh(tx.Outputs[old(len(tx.Outputs))]) && fresh(tx.MsgTx.TxOut[old(len(tx.Outputs))]))
  ensures [C06, C07] "added change is the amount less its fee" implies(len(tx.Outputs) > old(len(tx.Outputs)),
     tx.MsgTx.TxOut[old(len(tx.Outputs))].Value == -amount - old(changeFee(tx)) && old(changeFee(tx)) >= 0)
  ensures [C06, C07] "change is left to the fee only below its cost" implies(err == nil && amount < 0 && len(tx.Outputs) == old(len(tx.Outputs)) && old(noRem(tx)) && len(tx.ChangeScript) > 0,
     -amount <= old(changeFee(tx)) + changeCost(tx.ChangeScript, tx.FeeRate))
  lemma [C06, C07, C08, C10] "values before the removed remainder stay" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), forall(k, 0, c, outVal(tx, k) == old(outVal(tx, k))))))
  lemma [C06, C07, C08, C10] "values after the removed remainder move up" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), forall(k, c, len(tx.Outputs), outVal(tx, k) == old(outVal(tx, k+1))))))
  ensures [C06, C07] "a removed remainder leaves the sum" using "values before the removed remainder stay" "values after the removed remainder move up" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), outSum(tx) == old(outSum(tx)) - old(tx.MsgTx.TxOut[c].Value))))
  lemma [C08, C10] "a removed remainder leaves the sum" using "values before the removed remainder stay" "values after the removed remainder move up" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), outSum(tx) == old(outSum(tx)) - old(tx.MsgTx.TxOut[c].Value))))
  ensures [C06, C07, C10] "the fee rises by at least the amount" using "a removed remainder leaves the sum" implies(err == nil, outSum(tx) <= old(outSum(tx)) - amount)
  ensures [C06, C07] "a removed remainder leaves less than its cost" using "a removed remainder leaves the sum" "only a remainder below its cost is removed" "the first remainder changes by the negated amount"
     implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), outSum(tx) > old(outSum(tx)) - amount - old(changeCost(tx.MsgTx.TxOut[c].LockingScript, tx.FeeRate)))))
  ensures [C06, C07] "the fee changes by exactly the amount" implies(err == nil && len(tx.Outputs) == old(len(tx.Outputs)) && old(!noRem(tx)), outSum(tx) == old(outSum(tx)) - amount)
  ensures [C06, C07] "only change outputs are affected" onlyChange(tx)
  ensures [C06, C07] "without a remainder the sum is kept or grows by the change" implies(old(noRem(tx)), outSum(tx) == old(outSum(tx)) + ite(len(tx.Outputs) > old(len(tx.Outputs)), tx.MsgTx.TxOut[old(len(tx.Outputs))].Value, 0))
  ensures [C06, C07] "no remainder to take a fee from is an error" implies(amount > 0 && old(noRem(tx)), err != nil)
  ensures [C06, C07] "raising the fee fails for insufficient value" implies(amount > 0 && err != nil, ecause(err) == ErrInsufficientValue)
  ensures [C06, C07] "lowering the fee with a remainder succeeds" implies(amount <= 0 && old(!noRem(tx)), err == nil)
  ensures [C06, C07] "change without a change script is an error" implies(amount < 0 && err != nil && len(tx.ChangeScript) == 0, ecause(err) == ErrChangeAddressNeeded)
  ensures [C06, C07] "nothing to do" implies(amount == 0, err == nil && outsSame(tx))
  lemma [C08] "estimates before the removed remainder stay" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), forall(k, 0, c, outEst(tx, k) == old(outEst(tx, k))))))
  lemma [C08] "estimates after the removed remainder move up" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), forall(k, c, len(tx.Outputs), outEst(tx, k) == old(outEst(tx, k+1))))))
  lemma [C08] "without the remainder the estimate is lower" using "estimates before the removed remainder stay" "estimates after the removed remainder move up" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), outEsts(tx) == old(outEsts(tx)) - old(outEst(tx, c)))))
  lemma [C08] "estimates of outputs stay" forall(k, 0, old(len(tx.Outputs)), implies(len(tx.Outputs) >= old(len(tx.Outputs)), outEst(tx, k) == old(outEst(tx, k))))
  lemma [C08] "the same outputs have the same estimate" using "estimates of outputs stay" implies(len(tx.Outputs) == old(len(tx.Outputs)), outEsts(tx) == old(outEsts(tx)))
  lemma [C08] "with change the estimate is higher" using "estimates of outputs stay" implies(len(tx.Outputs) > old(len(tx.Outputs)), outEsts(tx) == old(outEsts(tx)) + old(outSize(len(tx.ChangeScript))))
  lemma [C08] "estimates of inputs stay" inEsts(tx) == old(inEsts(tx))
  lemma [C08] "the same outputs have the same estimated fee" using "the same outputs have the same estimate" "estimates of inputs stay" implies(len(tx.Outputs) == old(len(tx.Outputs)), estFee(tx) == old(estFee(tx)))
  lemma [C08] "without the remainder the estimated fee is no higher" using "without the remainder the estimate is lower" "estimates of inputs stay" implies(len(tx.Outputs) < old(len(tx.Outputs)), estFee(tx) <= old(estFee(tx)))
  lemma [C08] "with change the estimated fee rises by its fee" using "with change the estimate is higher" "estimates of inputs stay" implies(len(tx.Outputs) > old(len(tx.Outputs)), estFee(tx) == old(estFee(tx)) + old(changeFee(tx)))
  lemma [C08] "the outputs rise by the amount at most" using "a removed remainder leaves the sum" implies(err == nil, outSum(tx) <= old(outSum(tx)) - amount)
  lemma [C08] "added change leaves its fee" implies(err == nil && len(tx.Outputs) > old(len(tx.Outputs)), outSum(tx) == old(outSum(tx)) - amount - old(changeFee(tx)))
  ensures [C08] "the fee rises by the amount and what the estimate rises by" using "the outputs rise by the amount at most" "added change leaves its fee" "the same outputs have the same estimated fee" "without the remainder the estimated fee is no higher" "with change the estimated fee rises by its fee"
     implies(err == nil, outSum(tx) + estFee(tx) <= old(outSum(tx)) - amount + old(estFee(tx)))
  lemma [C08] "a refused decrease keeps the outputs" implies(err != nil && amount <= 0, outsSame(tx))
  ensures [C08] "a refused decrease keeps the value" using "a refused decrease keeps the outputs" implies(err != nil && amount <= 0, outSum(tx) == old(outSum(tx)))
  ensures [C08] "a refused decrease keeps the estimate" using "a refused decrease keeps the outputs" "the same outputs have the same estimated fee" implies(err != nil && amount <= 0, estFee(tx) == old(estFee(tx)))
  ensures [C08] "raising the fee fails for insufficient value" implies(amount > 0 && err != nil, ecause(err) == ErrInsufficientValue)
  lemma [C10] "outputs kept before the removed remainder" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), forall(k, 0, c, kept(tx, k) == old(kept(tx, k))))))
  lemma [C10] "outputs kept after the removed remainder" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), forall(k, c, len(tx.Outputs), kept(tx, k) == old(kept(tx, k+1))))))
  lemma [C10] "a removed remainder leaves the others" using "outputs kept before the removed remainder" "outputs kept after the removed remainder" implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), keptOuts(tx) == old(keptOuts(tx)))))
  ensures [C10] "the outputs that are not change stay, in order" using "a removed remainder leaves the others" keptOuts(tx) == old(keptOuts(tx))
  loopinv (i int) forall(k, 0, i, !tx.Outputs[k].IsRemainder)

// a larger size does not cost less
define rateUp(rate) = forall(n, 0, 1099511627777, forall(m, 0, 1099511627777, implies(n <= m, feeUp(n, rate) <= feeUp(m, rate))))
opaque define rateFine(rate) = rateOK(rate) && rateUp(rate)

// C07: fee calculation.  No total reaches 2^61 (all bitcoin there will be is below 2^51).
define smallTotals(tx) = inSum(tx) <= 2305843009213693952 && outSum(tx) <= 2305843009213693952
define fee(tx) = inSum(tx) - outSum(tx)
// what a fee calculation to reach target may leave above it
define exactFee(tx, target) = implies(len(tx.Outputs) == old(len(tx.Outputs)) && old(!noRem(tx)), fee(tx) == target)
define changeFeeOnly(tx, target) = implies(len(tx.Outputs) > old(len(tx.Outputs)), fee(tx) == target + old(changeFee(tx)))
define leftBelowCost(tx, target) = implies(len(tx.Outputs) == old(len(tx.Outputs)) && old(noRem(tx)) && len(tx.ChangeScript) > 0, fee(tx) <= target + old(changeFee(tx)) + changeCost(tx.ChangeScript, tx.FeeRate))
define removedBelowCost(tx, target) = implies(len(tx.Outputs) < old(len(tx.Outputs)), forall(c, 0, old(len(tx.Outputs)), implies(old(firstRem(tx, c)), fee(tx) < target + old(changeCost(tx.MsgTx.TxOut[c].LockingScript, tx.FeeRate)))))

define left(tx) = inTotal(tx) - outSum(tx)
func (*TxBuilder).CalculateFee(tx) (err)
  nopanic [C07, C21]
  requires txOK(tx) && len(tx.Outputs) < 4294967295
  requires [C07, C08] smallValues(tx)
  requires [C07] smallTotals(tx)
  requires [C08] inTotal(tx) <= 2305843009213693952 && outSum(tx) <= 2305843009213693952 && inTotal(tx) >= 0
  requires [C07] estFee(tx) <= 2305843009213693952
  requires [C08] rateFine(tx.FeeRate)
  reveal [C08] estSize estSmall rateFine
  modifies tx.Outputs, tx.MsgTx.TxOut, elems(tx.Outputs), elems(tx.MsgTx.TxOut), each(k, 0, len(tx.MsgTx.TxOut), tx.MsgTx.TxOut[k].Value)
  ensures outsOK(tx)
  ensures [C07] "the estimated fee is reached" implies(err == nil, fee(tx) >= old(estFee(tx)))
  ensures [C08] "the estimated fee of the result is reached" implies(err == nil, left(tx) >= estFee(tx))
  ensures [C08] "enough value stays enough" implies(err != nil && old(left(tx) >= estFee(tx)), left(tx) >= estFee(tx))
  ensures [C08] "a short fee fails for insufficient value" implies(old(left(tx) < estFee(tx)) && err != nil, ecause(err) == ErrInsufficientValue)
  ensures [C07] "a remainder makes the fee exact" implies(err == nil, exactFee(tx, old(estFee(tx))))
  ensures [C07] "with change added the excess is its fee" implies(err == nil, changeFeeOnly(tx, old(estFee(tx))))
  ensures [C07] "change not added is below its cost" implies(err == nil, leftBelowCost(tx, old(estFee(tx))))
  ensures [C07] "change removed is below its cost" implies(err == nil, removedBelowCost(tx, old(estFee(tx))))
  ensures [C07] "only change outputs are affected" onlyChange(tx)
  ensures [C07] "short without change is an insufficient value" implies(old(fee(tx)) < old(estFee(tx)) && old(noRem(tx)), err != nil)
  ensures [C07] "a short fee fails for insufficient value" implies(old(fee(tx)) < old(estFee(tx)) && err != nil, ecause(err) == ErrInsufficientValue)

func (*TxBuilder).ZeroizeFee(tx) (err)
  nopanic [C07, C21]
  requires txOK(tx) && len(tx.Outputs) < 4294967295
  requires [C07] smallValues(tx) && smallTotals(tx)
  modifies tx.Outputs, tx.MsgTx.TxOut, elems(tx.Outputs), elems(tx.MsgTx.TxOut), each(k, 0, len(tx.MsgTx.TxOut), tx.MsgTx.TxOut[k].Value)
  ensures outsOK(tx)
  ensures [C07] "the fee is not negative" implies(err == nil, fee(tx) >= 0)
  ensures [C07] "a remainder makes the fee exact" implies(err == nil, exactFee(tx, 0))
  ensures [C07] "with change added the excess is its fee" implies(err == nil, changeFeeOnly(tx, 0))
  ensures [C07] "change not added is below its cost" implies(err == nil, leftBelowCost(tx, 0))
  ensures [C07] "change removed is below its cost" implies(err == nil, removedBelowCost(tx, 0))
  ensures [C07] "only change outputs are affected" onlyChange(tx)
  ensures [C07] "short without change is an insufficient value" implies(old(fee(tx)) < 0 && old(noRem(tx)), err != nil)
  ensures [C07] "a short fee fails for insufficient value" implies(old(fee(tx)) < 0 && err != nil, ecause(err) == ErrInsufficientValue)
