package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define outsOK(tx) = len(tx.Outputs) == len(tx.MsgTx.TxOut)
  && forall(k, 0, len(tx.Outputs), tx.Outputs[k] != nil && tx.MsgTx.TxOut[k] != nil)
  && distinct(k, 0, len(tx.Outputs), tx.Outputs[k])
  && distinct(k, 0, len(tx.Outputs), tx.MsgTx.TxOut[k])

define outsSame(tx) = len(tx.Outputs) == old(len(tx.Outputs)) && len(tx.MsgTx.TxOut) == old(len(tx.MsgTx.TxOut))
  && forall(k, 0, old(len(tx.Outputs)), tx.Outputs[k] == old(tx.Outputs[k]))
  && forall(k, 0, old(len(tx.MsgTx.TxOut)), tx.MsgTx.TxOut[k] == old(tx.MsgTx.TxOut[k]))

define outsFirst(tx, n) = forall(k, 0, n, tx.Outputs[k] == old(tx.Outputs[k]) && tx.MsgTx.TxOut[k] == old(tx.MsgTx.TxOut[k]))

define isOutRecord(r, rem, dust, key) = r != nil && r.IsRemainder == rem && r.IsDust == dust && !r.addedForFee && r.KeyID == key

// value rule for a new output
define refused(tx, script, value, rem, dust) = !dust && value < outFee(script, tx.FeeRate) && !(tx.SendMax && rem) && !unspendable(script)
define newValue(tx, script, value, dust) = ite(dust, outDust(script, tx.DustFeeRate), value)

define appended(tx) = len(tx.Outputs) == old(len(tx.Outputs)) + 1 && len(tx.MsgTx.TxOut) == old(len(tx.MsgTx.TxOut)) + 1
     && outsFirst(tx, old(len(tx.Outputs)))

func (*TxBuilder).AddOutput(tx, lockScript, value, isRemainder, isDust) (err)
  nopanic [C03, C04, C21]
  requires tx != nil && tx.MsgTx != nil
  requires outsOK(tx)
  modifies tx.Outputs, tx.MsgTx.TxOut, elems(tx.Outputs), elems(tx.MsgTx.TxOut)
  ensures outsOK(tx)
  ensures [C01, C02, C03, C06, C07, C08, C09, C10, C21] "appends exactly one record and output" implies(err == nil, appended(tx))
  ensures [C03, C06, C07, C08, C09, C10] "new record and output carry the arguments" implies(err == nil,
     isOutRecord(tx.Outputs[old(len(tx.Outputs))], isRemainder, isDust, "")
     && bytes(tx.MsgTx.TxOut[old(len(tx.Outputs))].LockingScript) == bytes(lockScript) && len(tx.MsgTx.TxOut[old(len(tx.Outputs))].LockingScript) == len(lockScript))
  ensures [C01, C02, C03, C06, C07, C08, C09, C10, C21] "record and output are new objects" implies(err == nil,
     fresh(tx.Outputs[old(len(tx.Outputs))]) && fresh(tx.MsgTx.TxOut[old(len(tx.Outputs))]))
  ensures [C03, C04, C06, C07, C08, C09, C10] "an error changes nothing" implies(err != nil, outsSame(tx))
  ensures [C04, C06, C07, C08, C09, C10] "dust outputs get the dust limit, others the requested value" implies(err == nil,
     tx.MsgTx.TxOut[old(len(tx.Outputs))].Value == newValue(tx, lockScript, value, isDust))
  ensures [C04, C06, C07, C08, C09, C10] "refused exactly when below the fee of the output" iff(err != nil, refused(tx, lockScript, value, isRemainder, isDust))
  reveal [C08] estSize
  ensures [C08] "the estimate rises by the output" implies(err == nil, estFee(tx) == feeUp(wrap64(old(estSize(tx)) + old(addedSize(tx, outSize(len(lockScript))))), tx.FeeRate))
  ensures [C08] "the estimate stays on an error" implies(err != nil, estFee(tx) == old(estFee(tx)))
  ensures [C08] "the value rises by the output" outSum(tx) == old(outSum(tx)) + ite(err == nil, newValue(tx, lockScript, value, isDust), 0)
  ensures [C04] "below dust error" implies(err != nil, ecause(err) == ErrBelowDustValue)

func (*TxBuilder).InsertOutput(tx, index, lockScript, value, isRemainder, isDust) (err)
  nopanic [C03, C04, C21]
  requires tx != nil && tx.MsgTx != nil && index >= 0
  requires outsOK(tx)
  modifies tx.Outputs, tx.MsgTx.TxOut, elems(tx.Outputs), elems(tx.MsgTx.TxOut)
  ensures outsOK(tx)
  ensures [C03] "index beyond the list is an error" implies(index > old(len(tx.Outputs)), err != nil)
  ensures [C03] "inserts exactly one record and output" implies(err == nil,
     len(tx.Outputs) == old(len(tx.Outputs)) + 1 && len(tx.MsgTx.TxOut) == old(len(tx.MsgTx.TxOut)) + 1
     && outsFirst(tx, index)
     && forall(k, index, old(len(tx.Outputs)), tx.Outputs[k+1] == old(tx.Outputs[k]) && tx.MsgTx.TxOut[k+1] == old(tx.MsgTx.TxOut[k])))
  ensures [C03] "new record and output carry the arguments" implies(err == nil,
     isOutRecord(tx.Outputs[index], isRemainder, isDust, "")
     && bytes(tx.MsgTx.TxOut[index].LockingScript) == bytes(lockScript))
  ensures [C03, C04] "an error changes nothing" implies(err != nil, outsSame(tx))
  ensures [C04] "dust outputs get the dust limit, others the requested value" implies(err == nil,
     tx.MsgTx.TxOut[index].Value == newValue(tx, lockScript, value, isDust))
  ensures [C04] "refused exactly when below the fee of the output" implies(index <= old(len(tx.Outputs)), iff(err != nil, refused(tx, lockScript, value, isRemainder, isDust)))
  ensures [C04] "below dust error" implies(err != nil && index <= old(len(tx.Outputs)), ecause(err) == ErrBelowDustValue)

func (*TxBuilder).RemoveOutput(tx, index) (err)
  nopanic [C03, C21]
  requires tx != nil && tx.MsgTx != nil && index >= 0
  requires outsOK(tx)
  modifies tx.Outputs, tx.MsgTx.TxOut, elems(tx.Outputs), elems(tx.MsgTx.TxOut)
  ensures outsOK(tx)
  ensures [C03] "error exactly for an index beyond the list" iff(err != nil, index >= old(len(tx.Outputs)))
  ensures [C03] "removes exactly the record and output at the index" implies(err == nil,
     len(tx.Outputs) == old(len(tx.Outputs)) - 1 && len(tx.MsgTx.TxOut) == old(len(tx.MsgTx.TxOut)) - 1
     && outsFirst(tx, index)
     && forall(k, index, len(tx.Outputs), tx.Outputs[k] == old(tx.Outputs[k+1]) && tx.MsgTx.TxOut[k] == old(tx.MsgTx.TxOut[k+1])))
  ensures [C03] "an error changes nothing" implies(err != nil, outsSame(tx))

func (*TxBuilder).AddValueToOutput(tx, index, value) (err)
  nopanic [C04, C21]
  requires tx != nil && tx.MsgTx != nil
  requires outsOK(tx)
  modifies tx.Outputs[index].IsDust, tx.MsgTx.TxOut[index].Value
  ensures outsOK(tx)
  ensures [C04] "error exactly beyond the list or below dust" iff(err != nil, index >= len(tx.Outputs) ||
     (old(tx.Outputs[index].IsDust) && value < old(outDust(tx.MsgTx.TxOut[index].LockingScript, tx.DustFeeRate))))
  ensures [C04] "below dust error" implies(err != nil && index < len(tx.Outputs), ecause(err) == ErrBelowDustValue)
  ensures [C04] "an error changes nothing" implies(err != nil, tx.Outputs[index].IsDust == old(tx.Outputs[index].IsDust) && tx.MsgTx.TxOut[index].Value == old(tx.MsgTx.TxOut[index].Value))
  ensures [C04] "dust is replaced, other values are increased" implies(err == nil,
     ite(old(tx.Outputs[index].IsDust), tx.MsgTx.TxOut[index].Value == value, tx.MsgTx.TxOut[index].Value == wrap64(old(tx.MsgTx.TxOut[index].Value) + value))
     && !tx.Outputs[index].IsDust)

func (*TxBuilder).SubtractValueFromOutput(tx, index, value) (err)
  nopanic [C04, C21]
  requires tx != nil && tx.MsgTx != nil
  requires outsOK(tx)
  modifies tx.MsgTx.TxOut[index].Value
  ensures outsOK(tx)
  ensures [C04] "refused exactly when it would fall below dust" iff(err != nil, index >= len(tx.Outputs) ||
     old(tx.MsgTx.TxOut[index].Value) < value + outDust(tx.MsgTx.TxOut[index].LockingScript, tx.DustFeeRate))
  ensures [C04] "an error changes nothing" implies(err != nil, tx.MsgTx.TxOut[index].Value == old(tx.MsgTx.TxOut[index].Value))
  ensures [C04] "decreases by exactly the value" implies(err == nil, tx.MsgTx.TxOut[index].Value == old(tx.MsgTx.TxOut[index].Value) - value)

func (*TxBuilder).SetOutputToDust(tx, index) (err)
  nopanic [C04, C21]
  requires tx != nil && tx.MsgTx != nil
  requires outsOK(tx)
  modifies tx.Outputs[index].IsDust, tx.MsgTx.TxOut[index].Value
  ensures outsOK(tx)
  ensures [C04] "error exactly beyond the list" iff(err != nil, index >= len(tx.Outputs))
  ensures [C04] "an error changes nothing" implies(err != nil, tx.Outputs[index].IsDust == old(tx.Outputs[index].IsDust) && tx.MsgTx.TxOut[index].Value == old(tx.MsgTx.TxOut[index].Value))
  ensures [C04] "set to exactly its dust limit" implies(err == nil, tx.Outputs[index].IsDust
     && tx.MsgTx.TxOut[index].Value == outDust(tx.MsgTx.TxOut[index].LockingScript, tx.DustFeeRate))

func (*TxBuilder).UpdateOutput(tx, index, lockingScript) (err)
  nopanic [C03, C21]
  requires tx != nil && tx.MsgTx != nil
  requires outsOK(tx)
  modifies tx.MsgTx.TxOut[index].LockingScript
  ensures outsOK(tx)
  ensures [C03] "error exactly beyond the list" iff(err != nil, index >= len(tx.Outputs))
  ensures [C03] "an error changes nothing" implies(err != nil, tx.MsgTx.TxOut[index].LockingScript == old(tx.MsgTx.TxOut[index].LockingScript))
  ensures [C03] "script replaced" implies(err == nil, bytes(tx.MsgTx.TxOut[index].LockingScript) == bytes(lockingScript))

func (*TxBuilder).SetChangeLockingScript(tx, lockingScript, keyID) (err)
  nopanic [C03, C21]
  requires tx != nil && tx.MsgTx != nil
  requires outsOK(tx)
  modifies tx.ChangeScript, tx.ChangeKeyID, each(k, 0, len(tx.Outputs), tx.Outputs[k].IsRemainder), each(k, 0, len(tx.Outputs), tx.Outputs[k].KeyID)
  ensures outsOK(tx)
  ensures err == nil
  ensures [C03, C09] "change script and key set" bytes(tx.ChangeScript) == bytes(lockingScript) && len(tx.ChangeScript) == len(lockingScript) && tx.ChangeKeyID == keyID
  ensures [C03] "outputs paying the script are marked" forall(k, 0, len(tx.Outputs), ite(bytes(tx.MsgTx.TxOut[k].LockingScript) == bytes(lockingScript),
      tx.Outputs[k].IsRemainder && tx.Outputs[k].KeyID == keyID,
      tx.Outputs[k].IsRemainder == old(tx.Outputs[k].IsRemainder) && tx.Outputs[k].KeyID == old(tx.Outputs[k].KeyID)))
  loopinv [C03] (i int) forall(k, 0, i, ite(bytes(tx.MsgTx.TxOut[k].LockingScript) == bytes(lockingScript),
      tx.Outputs[k].IsRemainder && tx.Outputs[k].KeyID == keyID,
      tx.Outputs[k].IsRemainder == old(tx.Outputs[k].IsRemainder) && tx.Outputs[k].KeyID == old(tx.Outputs[k].KeyID)))
  loopinv [C03] (i int) forall(k, i, len(tx.Outputs), tx.Outputs[k].IsRemainder == old(tx.Outputs[k].IsRemainder) && tx.Outputs[k].KeyID == old(tx.Outputs[k].KeyID))
