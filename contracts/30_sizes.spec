package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

// size of the unlocking script for a locking script, by template
ufun unlockOK(bytes) bool
ufun unlockSize(bytes) int 0 2305843009213693952
axiom {unlockOK(s)} unlockOK(s) == (isP2PK(s) || isP2PKH(s) || mpOK(s) || (agOK(s) && unlockOK(noVerify(agScript(s)))))
axiom {unlockSize(s)} implies(isP2PK(s), unlockSize(s) == 74)
axiom {unlockSize(s)} implies(!isP2PK(s) && isP2PKH(s), unlockSize(s) == 108)
axiom {unlockSize(s)} implies(!isP2PK(s) && !isP2PKH(s) && mpOK(s), unlockSize(s) == wrap32(mpTotal(s) - mpReq(s)) + 109 * mpReq(s))
axiom {unlockSize(s)} implies(!isP2PK(s) && !isP2PKH(s) && !mpOK(s) && agOK(s), unlockSize(s) == approveSize(unlockSize(noVerify(agScript(s)))))

define inSizeOf(n) = 40 + varint(n) + n

func UnlockingScriptSize(lockingScript) (r, err)
  nopanic [C17, C21]
  ensures [C17, C19, C05, C06, C07, C08, C09, C10, C13] "unknown exactly without a template" (err == nil) == unlockOK(bytes(lockingScript))
  ensures [C17, C19, C05, C06, C07, C08, C09, C10, C13] "size of the template" implies(err == nil, r == unlockSize(bytes(lockingScript)))

func InputSize(lockingScript) (r, err)
  nopanic [C21]
  ensures [C17, C06, C07, C08, C09, C10, C13] "unknown exactly without a template" (err == nil) == unlockOK(bytes(lockingScript))
  ensures [C17, C06, C07, C08, C09, C10, C13] "outpoint, sequence, prefix and unlocking script" implies(err == nil, r == inSizeOf(unlockSize(bytes(lockingScript))))

func OutputSize(lockingScript) (r)
  nopanic [C21]
  ensures [C17, C06, C07, C08, C09, C10] "value, prefix and script" r == outSize(len(lockingScript))

// whole transaction
define isFOR(s) = len(s) > 1 && s[0] == 0 && s[1] == 106
define hasUD(us) = isFOR(us) && udIs(bytes(us))
define inEst(tx, k) = ite(len(tx.Inputs[k].LockingScript) == 0 && hasUD(tx.MsgTx.TxIn[k].UnlockingScript),
     inSizeOf(udSize(bytes(tx.MsgTx.TxIn[k].UnlockingScript))),
     ite(unlockOK(bytes(tx.Inputs[k].LockingScript)), inSizeOf(unlockSize(bytes(tx.Inputs[k].LockingScript))), 149))
define outEst(tx, k) = outSize(len(tx.MsgTx.TxOut[k].LockingScript))
define inEsts(tx) = sum(inEst, k, len(tx.Inputs), inEst(tx, k))
define outEsts(tx) = sum(outEst, k, len(tx.MsgTx.TxOut), outEst(tx, k))
define estTotal(tx) = 8 + varint(len(tx.MsgTx.TxIn)) + varint(len(tx.MsgTx.TxOut)) + inEsts(tx) + outEsts(tx)
// transactions are estimated at no more than 2^39 bytes
opaque define estSmall(tx) = 0 <= estTotal(tx) && estTotal(tx) <= 549755813888
opaque define estSize(tx) = wraps64(estTotal(tx))
define estFee(tx) = feeUp(wrap64(estSize(tx)), tx.FeeRate)
define txOK(tx) = tx != nil && tx.MsgTx != nil && insOK(tx) && outsOK(tx)

func (*TxBuilder).EstimatedSize(tx) (r)
  reveal estSize
  nopanic [C21]
  requires txOK(tx)
  ensures [C17, C06, C07, C08, C09, C10] "overhead, count prefixes, inputs and outputs" r == estSize(tx)
  assumes [C08] estSmall(tx) && 0 <= estSize(tx) && estSize(tx) <= 549755813888
  loopinv (i int, n any int) n == wraps64(8 + varint(len(tx.MsgTx.TxIn)) + varint(len(tx.MsgTx.TxOut)) + sum(inEst, k, i, inEst(tx, k)))
  loopinv (i int, n any int) n == wraps64(8 + varint(len(tx.MsgTx.TxIn)) + varint(len(tx.MsgTx.TxOut))
     + sum(inEst, k, len(tx.Inputs), inEst(tx, k)) + sum(outEst, k, i, outEst(tx, k)))

func (*TxBuilder).EstimatedFee(tx) (r)
  nopanic [C21]
  requires txOK(tx)
  ensures [C17, C07, C08, C09, C10] "size times rate rounded up" r == estFee(tx)
  reveal [C08] rateFine
  ensures [C08] "the fee is small" implies(rateFine(tx.FeeRate), r <= 2305843009213693952)
  assumes [C08] estSmall(tx)

// fee of spending an output, nothing without a template
opaque define inCost(b, rate) = ite(unlockOK(b), feeUp(inSizeOf(unlockSize(b)), rate), 0)
func OutputTotalCost(lockingScript, feeRate) (outFeeV, inFeeV, err)
  reveal inCost
  nopanic [C21]
  ensures [C17, C06, C07, C08, C09, C10, C13] "fee of the output" outFeeV == outFee(lockingScript, feeRate)
  ensures [C17, C06, C07, C08, C09, C10, C13] "fee of spending it" inFeeV == inCost(bytes(lockingScript), feeRate)
  ensures [C17] (err == nil) == unlockOK(bytes(lockingScript))

define spendFee(script, rate) = feeUp(inSizeOf(unlockSize(bytes(script))), rate)
func UTXOFee(utxo, feeRate) (r, err)
  nopanic [C21]
  ensures [C17, C08] (err == nil) == unlockOK(bytes(utxo.LockingScript))
  ensures [C17, C08] "fee of the input" implies(err == nil, r == spendFee(utxo.LockingScript, feeRate))

func UTXOInputSizeAndFee(utxo, feeRate) (size, fee, err)
  nopanic [C21]
  ensures [C17] (err == nil) == unlockOK(bytes(utxo.LockingScript))
  ensures [C17] "size of the input" implies(err == nil, size == inSizeOf(unlockSize(bytes(utxo.LockingScript))))
  ensures [C17] "fee of the input" implies(err == nil, fee == spendFee(utxo.LockingScript, feeRate))

func LockingScriptInputFee(lockingScript, feeRate) (r, err)
  nopanic [C21]
  ensures [C17] (err == nil) == unlockOK(bytes(lockingScript))
  ensures [C17] "fee of the input" implies(err == nil, r == spendFee(lockingScript, feeRate))

func AddressOutputFee(ra, feeRate) (r, err)
  nopanic [C21]
  ensures [C17] (err == nil) == addrOK(ra)
  ensures [C17] "fee of an output to the address" implies(err == nil, r == feeUp(outSize(len(addrScript(ra))), feeRate))

func LockingScriptOutputFee(lockingScript, feeRate) (r)
  nopanic [C21]
  ensures [C17] "fee of the output" r == outFee(lockingScript, feeRate)

// value totals
define inVal(tx, k) = ite(tx.Inputs[k].Value == 0 && hasUD(tx.MsgTx.TxIn[k].UnlockingScript),
     udValue(bytes(tx.MsgTx.TxIn[k].UnlockingScript)), tx.Inputs[k].Value)
define outVal(tx, k) = tx.MsgTx.TxOut[k].Value
define inSum(tx) = sum(inVal, k, len(tx.Inputs), inVal(tx, k))
opaque define inTotal(tx) = inSum(tx)
define outSum(tx) = sum(outVal, k, len(tx.MsgTx.TxOut), outVal(tx, k))
// every input's record has its value
define recorded(tx) = forall(k, 0, len(tx.Inputs), tx.Inputs[k].Value > 0)
define recVal(tx, k) = tx.Inputs[k].Value
define recSum(tx) = sum(recVal, k, len(tx.Inputs), recVal(tx, k))
define nonRem(tx, k) = ite(tx.Outputs[k].IsRemainder, 0, tx.MsgTx.TxOut[k].Value)
define isRem(tx, k) = ite(tx.Outputs[k].IsRemainder, tx.MsgTx.TxOut[k].Value, 0)
define remGain(tx, k) = ite(tx.Outputs[k].IsRemainder, tx.MsgTx.TxOut[k].Value + feeDown(outSize(len(tx.MsgTx.TxOut[k].LockingScript)), tx.FeeRate), 0)

func (*TxBuilder).InputValue(tx) (r)
  nopanic [C21]
  requires txOK(tx)
  reveal [C08] inTotal
  ensures [C05, C06, C07, C09] "sum of the spent values" r == wrap64(inSum(tx))
  ensures [C08] "sum of the spent values" r == wrap64(inTotal(tx))
  ensures [C10] "sum of the recorded values" implies(recorded(tx), r == wrap64(recSum(tx)))
  loopinv [C05, C06, C07, C08, C09, C21] (i int, n any uint64) n == wrap64(sum(inVal, k, i, inVal(tx, k)))
  loopinv [C10] (i int, n any uint64) implies(recorded(tx), n == wrap64(sum(recVal, k, i, recVal(tx, k))))

func (*TxBuilder).OutputValue(tx, includeChange) (r)
  nopanic [C21]
  requires txOK(tx)
  ensures [C05, C06, C07, C08, C09, C10] "sum of all outputs" implies(includeChange, r == wrap64(outSum(tx)))
  ensures [C05, C10] "sum of the outputs that are not change" implies(!includeChange, r == wrap64(sum(nonRem, k, len(tx.MsgTx.TxOut), nonRem(tx, k))))
  loopinv (i int, n any uint64) implies(includeChange, n == wrap64(sum(outVal, k, i, outVal(tx, k))))
  loopinv [C05, C10] (i int, n any uint64) implies(!includeChange, n == wrap64(sum(nonRem, k, i, nonRem(tx, k))))

func (*TxBuilder).Remainder(tx) (r)
  nopanic [C21]
  requires txOK(tx)
  ensures [C05] "sum over change outputs of value plus fee rounded down" r == wrap64(sum(remGain, k, len(tx.MsgTx.TxOut), remGain(tx, k)))
  loopinv [C05] (i int, n any uint64) n == wrap64(sum(remGain, k, i, remGain(tx, k)))

func (*TxBuilder).changeSum(tx) (r)
  optional
  nopanic [C21]
  requires txOK(tx)
  ensures [C05] "sum of the change outputs" r == wrap64(sum(isRem, k, len(tx.MsgTx.TxOut), isRem(tx, k)))
  ensures [C10] "change and the other outputs make up all outputs" r == wrap64(outSum(tx) - sum(nonRem, k, len(tx.MsgTx.TxOut), nonRem(tx, k)))
  loopinv [C05] (i int, n any uint64) n == wrap64(sum(isRem, k, i, isRem(tx, k)))
  loopinv [C10] (i int, n any uint64) n == wrap64(sum(outVal, k, i, outVal(tx, k)) - sum(nonRem, k, i, nonRem(tx, k)))

func (*TxBuilder).Fee(tx) (r)
  nopanic [C21]
  requires txOK(tx)
  ensures [C05] "inputs minus outputs, never negative" r == ite(wrap64(outSum(tx)) > wrap64(inSum(tx)), 0, wrap64(inSum(tx)) - wrap64(outSum(tx)))

func (*TxBuilder).ActualFee(tx) (r)
  nopanic [C21]
  requires txOK(tx)
  ensures [C05, C06, C07, C09] "signed difference" r == wraps64(inSum(tx) - outSum(tx))
  ensures [C08] "signed difference" r == wraps64(inTotal(tx) - outSum(tx))
