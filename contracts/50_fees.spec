// The standalone fee package.

// any transaction and any unlocker: results depend on the arguments only, nothing is modified (assumed)
package github.com/tokenized/bitcoin_interpreter
import wire github.com/tokenized/pkg/wire
ufun fMsg(loc) loc
ufun fOutOK(loc, int) bool
ufun fOutErr(loc, int) loc
ufun fOutVal(loc, int) int 0 18446744073709551615
ufun fOutScript(loc, int) bytes
ufun ulOK(loc, bytes) bool
ufun ulErr(loc, bytes) loc
ufun ulSize(loc, bytes) int 0 2305843009213693952
define msgOf(t) = as(fMsg(t), *wire.MsgTx)
trusted func (TransactionWithOutputs).GetMsgTx(t) (r)
  ensures r == fMsg(t) && r != nil && allocated(r)
  ensures forall(k, 0, len(r.TxIn), r.TxIn[k] != nil) && forall(k, 0, len(r.TxOut), r.TxOut[k] != nil)
trusted func (TransactionWithOutputs).InputOutput(t, index) (r, err)
  requires 0 <= index && index < len(msgOf(t).TxIn)
  ensures (err == nil) == fOutOK(t, index)
  ensures implies(err == nil, r != nil && r.Value == fOutVal(t, index) && bytes(r.LockingScript) == fOutScript(t, index) && len(r.LockingScript) == len(fOutScript(t, index)))
  ensures implies(err != nil, ecause(err) == fOutErr(t, index))
trusted func (Unlocker).UnlockingSize(u, script) (r, err)
  ensures (err == nil) == ulOK(u, bytes(script))
  ensures implies(err == nil, r == ulSize(u, bytes(script)))
  ensures implies(err != nil, ecause(err) == ulErr(u, bytes(script)))

package github.com/tokenized/txbuilder/fees
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define fUD(txin) = bytes(txin.UnlockingScript)
define fInOK(txin, script, u) = ite(len(script) != 0, ulOK(u, script), hasUD(txin.UnlockingScript))
define fInSize(txin, script, u) = ite(len(script) != 0, inSizeOf(ulSize(u, script)), 40 + varint(udSize(fUD(txin))) + wraps64(udSize(fUD(txin))))
define fInErr(txin, script, u) = ite(len(script) != 0, ulErr(u, script), MissingUnlockingData)

func EstimateInputSize(txin, lockingScript, unlocker) (r, err)
  nopanic [C21]
  requires txin != nil && unlocker != nil
  ensures [C19] "error exactly without an unlocking size" (err == nil) == fInOK(txin, bytes(lockingScript), unlocker)
  ensures [C19] "outpoint, sequence, prefix and unlocking script" implies(err == nil, r == wraps64(fInSize(txin, bytes(lockingScript), unlocker)))
  ensures [C19] "error of the unlocker or missing unlocking data" implies(err != nil, ecause(err) == fInErr(txin, bytes(lockingScript), unlocker))

define fTxin(t, k) = msgOf(t).TxIn[k]
define fSizeOK(t, u, k) = fOutOK(t, k) && fInOK(fTxin(t, k), fOutScript(t, k), u)
define fSizeErr(t, u, k) = ite(fOutOK(t, k), fInErr(fTxin(t, k), fOutScript(t, k), u), fOutErr(t, k))
define fOutSizes(t, n) = sum(fos, k, n, outSize(len(msgOf(t).TxOut[k].LockingScript)))
define fInSizes(t, u, n) = sum(fis, k, n, fInSize(fTxin(t, k), fOutScript(t, k), u))
define fBase(t) = 8 + varint(len(msgOf(t).TxIn)) + varint(len(msgOf(t).TxOut))
define fSize(t, u) = wraps64(fBase(t) + fInSizes(t, u, len(msgOf(t).TxIn)) + fOutSizes(t, len(msgOf(t).TxOut)))

func EstimateSize(tx, unlocker) (r, err)
  nopanic [C21]
  requires tx != nil && unlocker != nil
  ensures [C19] "error exactly when an input has no size" iff(err == nil, forall(k, 0, len(msgOf(tx).TxIn), fSizeOK(tx, unlocker, k)))
  ensures [C19] "overhead, count prefixes, inputs and outputs" implies(err == nil, r == fSize(tx, unlocker))
  ensures [C19] "error of an input is passed on" implies(err != nil, exists(k, 0, len(msgOf(tx).TxIn), !fSizeOK(tx, unlocker, k) && ecause(err) == fSizeErr(tx, unlocker, k)))
  loopinv (i int) forall(k, 0, i, fSizeOK(tx, unlocker, k))
  loopinv (i int, n own int) n == wraps64(fBase(tx) + fInSizes(tx, unlocker, i))
  loopinv (i int, n own int) n == wraps64(fBase(tx) + fInSizes(tx, unlocker, len(msgOf(tx).TxIn)) + fOutSizes(tx, i))

func EstimateFee(tx, unlocker, feeRate) (r, err)
  nopanic [C21]
  requires tx != nil && unlocker != nil
  ensures [C19] "error exactly when an input has no size" iff(err == nil, forall(k, 0, len(msgOf(tx).TxIn), fSizeOK(tx, unlocker, k)))
  ensures [C19] "size times rate rounded up" implies(err == nil, r == feeUp(fSize(tx, unlocker), feeRate))
  ensures [C19] "error of an input is passed on" implies(err != nil, exists(k, 0, len(msgOf(tx).TxIn), !fSizeOK(tx, unlocker, k) && ecause(err) == fSizeErr(tx, unlocker, k)))

func EstimateFeeValue(size, feeRate) (r)
  nopanic [C21]
  ensures "size times rate rounded up" r == feeUp(size, feeRate)

func EstimateUnlockingSize(lockingScript) (r, err)
  nopanic [C21]
  ensures [C19] "unknown exactly without a template" (err == nil) == unlockOK(bytes(lockingScript))
  ensures [C19] "size of the template" implies(err == nil, r == unlockSize(bytes(lockingScript)))
  ensures [C19] "wrong template error" implies(err != nil, ecause(err) == bitcoin.ErrWrongScriptTemplate)

func OutputTotalCost(lockingScript, feeRate) (outFeeV, inFeeV, err)
  nopanic [C21]
  ensures [C19] "fee of the output" outFeeV == outFee(lockingScript, feeRate)
  ensures [C19] "fee of spending it" inFeeV == ite(unlockOK(bytes(lockingScript)), feeUp(inSizeOf(unlockSize(bytes(lockingScript))), feeRate), 0)
  ensures [C19] "wrong template error" (err == nil) == unlockOK(bytes(lockingScript)) && implies(err != nil, ecause(err) == bitcoin.ErrWrongScriptTemplate)

// values
define fValOK(t, k) = fOutOK(t, k) && (fOutVal(t, k) != 0 || hasUD(fTxin(t, k).UnlockingScript))
define fVal(t, k) = ite(fOutVal(t, k) != 0, fOutVal(t, k), udValue(fUD(fTxin(t, k))))
define fValErr(t, k) = ite(fOutOK(t, k), MissingUnlockingData, fOutErr(t, k))
define fInTotal(t) = wrap64(sum(fiv, k, len(msgOf(t).TxIn), fVal(t, k)))
define fOutTotal(t) = wrap64(sum(fov, k, len(msgOf(t).TxOut), msgOf(t).TxOut[k].Value))

func InputValue(txin, inputOutput) (r, err)
  nopanic [C21]
  requires txin != nil && inputOutput != nil
  ensures [C19] "missing exactly without value and unlocking data" (err == nil) == (inputOutput.Value != 0 || hasUD(txin.UnlockingScript))
  ensures [C19] "value of the spent output" implies(err == nil, r == ite(inputOutput.Value != 0, inputOutput.Value, udValue(fUD(txin))))
  ensures [C19] "missing unlocking data" implies(err != nil, ecause(err) == MissingUnlockingData)

func InputsValue(tx) (r, err)
  nopanic [C21]
  requires tx != nil
  ensures [C19] "error exactly when an input has no value" iff(err == nil, forall(k, 0, len(msgOf(tx).TxIn), fValOK(tx, k)))
  ensures [C19] "sum of the spent values" implies(err == nil, r == fInTotal(tx))
  ensures [C19] "error of an input is passed on" implies(err != nil, exists(k, 0, len(msgOf(tx).TxIn), !fValOK(tx, k) && ecause(err) == fValErr(tx, k)))
  loopinv (i int) forall(k, 0, i, fValOK(tx, k))
  loopinv (i int, n own uint64) n == wrap64(sum(fiv, k, i, fVal(tx, k)))

func OutputsValue(tx) (r)
  nopanic [C21]
  requires tx != nil
  ensures [C19] "sum of the outputs" r == fOutTotal(tx)
  loopinv (i int, n own uint64) n == wrap64(sum(fov, k, i, msgOf(tx).TxOut[k].Value))

func Fee(tx) (r, err)
  nopanic [C21]
  requires tx != nil
  ensures [C19] "error exactly when an input has no value" iff(err == nil, forall(k, 0, len(msgOf(tx).TxIn), fValOK(tx, k)))
  ensures [C19] "signed difference" implies(err == nil, r == wraps64(fInTotal(tx) - fOutTotal(tx)))
  ensures [C19] "error of an input is passed on" implies(err != nil, exists(k, 0, len(msgOf(tx).TxIn), !fValOK(tx, k) && ecause(err) == fValErr(tx, k)))

// sizes, fees and dust of outputs
define fDust(size, rate) = ite(feq(rate, f64lit(0.0)), 1, ite(feeUp((size + 148) * 3, rate) < 1, 1, feeUp((size + 148) * 3, rate)))

func InputSizeForUnlockingScriptSize(unlockingScriptSize) (r)
  nopanic [C21]
  requires 0 <= unlockingScriptSize && unlockingScriptSize <= 1152921504606846976
  ensures [C19] "outpoint, sequence, prefix and unlocking script" r == inSizeOf(unlockingScriptSize)

func OutputSize(lockingScript) (r)
  nopanic [C21]
  ensures [C19] "value, prefix and script" r == outSize(len(lockingScript))

func OutputSizeForLockingScriptSize(lockingScriptSize) (r)
  nopanic [C21]
  requires 0 <= lockingScriptSize && lockingScriptSize <= 1152921504606846976
  ensures [C19] "value, prefix and script" r == outSize(lockingScriptSize)

func DustLimit(outputSize, dustFeeRate) (r)
  nopanic [C21]
  requires 0 <= outputSize && outputSize <= 1152921504606847000
  ensures [C19] "dust formula" r == fDust(outputSize, dustFeeRate)

func DustLimitForOutput(output, feeRate) (r)
  nopanic [C21]
  requires output != nil
  ensures [C19] "dust of the serialized output" r == fDust(outSize(len(output.LockingScript)), feeRate)

func DustLimitForLockingScript(lockingScript, feeRate) (r)
  nopanic [C21]
  ensures [C19] "dust of an output with the script" r == fDust(outSize(len(lockingScript)), feeRate)

func DustLimitForLockingScriptSize(lockingScriptSize, feeRate) (r)
  nopanic [C21]
  requires 0 <= lockingScriptSize && lockingScriptSize <= 1152921504606846976
  ensures [C19] "dust of an output with a script of the size" r == fDust(outSize(lockingScriptSize), feeRate)

func OutputFeeForLockingScript(lockingScript, feeRate) (r)
  nopanic [C21]
  ensures [C19] "fee of the output" r == outFee(lockingScript, feeRate)

func OutputFeeAndDustForLockingScript(lockingScript, dustFeeRate, feeRate) (fee, dust)
  nopanic [C21]
  ensures [C19] "fee of the output" fee == outFee(lockingScript, feeRate)
  ensures [C19] "dust of the output" dust == fDust(outSize(len(lockingScript)), dustFeeRate)

func OutputSizeAndDustForLockingScript(lockingScript, dustFeeRate) (size, dust)
  nopanic [C21]
  ensures [C19] "size of the output" size == outSize(len(lockingScript))
  ensures [C19] "dust of the output" dust == fDust(outSize(len(lockingScript)), dustFeeRate)
