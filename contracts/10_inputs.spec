package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

// Data structure invariant: one non-nil record per input, no record or input object shared.
define insOK(tx) = len(tx.Inputs) == len(tx.MsgTx.TxIn)
  && forall(k, 0, len(tx.Inputs), tx.Inputs[k] != nil && tx.MsgTx.TxIn[k] != nil)
  && distinct(k, 0, len(tx.Inputs), tx.Inputs[k])
  && distinct(k, 0, len(tx.Inputs), tx.MsgTx.TxIn[k])

define insSame(tx) = len(tx.Inputs) == old(len(tx.Inputs)) && len(tx.MsgTx.TxIn) == old(len(tx.MsgTx.TxIn))
  && forall(k, 0, old(len(tx.Inputs)), tx.Inputs[k] == old(tx.Inputs[k]))
  && forall(k, 0, old(len(tx.MsgTx.TxIn)), tx.MsgTx.TxIn[k] == old(tx.MsgTx.TxIn[k]))

define insFirst(tx, n) = forall(k, 0, n, tx.Inputs[k] == old(tx.Inputs[k]) && tx.MsgTx.TxIn[k] == old(tx.MsgTx.TxIn[k]))

define isRecord(r, script, value, key) = r != nil && r.LockingScript == script && r.Value == value && r.KeyID == key
define isNewIn(t, hash, index) = t != nil && t.PreviousOutPoint.Hash == hash && t.PreviousOutPoint.Index == index
  && t.Sequence == wire.MaxTxInSequenceNum && len(t.UnlockingScript) == 0

define uses(tx, k, hash, index) = tx.MsgTx.TxIn[k].PreviousOutPoint.Hash == hash && tx.MsgTx.TxIn[k].PreviousOutPoint.Index == index
define inUnique(tx) = distinct(k, 0, len(tx.MsgTx.TxIn), tx.MsgTx.TxIn[k].PreviousOutPoint.Hash, tx.MsgTx.TxIn[k].PreviousOutPoint.Index)
define spent(tx, hash, index) = exists(k, 0, len(tx.MsgTx.TxIn), uses(tx, k, hash, index))

func (*TxBuilder).AddInputUTXO(tx, utxo) (err)
  nopanic [C01, C21]
  requires tx != nil && tx.MsgTx != nil
  requires insOK(tx)
  modifies tx.Inputs, tx.MsgTx.TxIn, elems(tx.Inputs), elems(tx.MsgTx.TxIn)
  ensures insOK(tx)
  ensures [C01, C08] "appends exactly one record and input" implies(err == nil,
     len(tx.Inputs) == old(len(tx.Inputs)) + 1 && len(tx.MsgTx.TxIn) == old(len(tx.MsgTx.TxIn)) + 1
     && insFirst(tx, old(len(tx.Inputs))))
  ensures [C01, C08] "new record and input carry the utxo" implies(err == nil,
     isRecord(tx.Inputs[old(len(tx.Inputs))], utxo.LockingScript, utxo.Value, utxo.KeyID)
     && isNewIn(tx.MsgTx.TxIn[old(len(tx.Inputs))], utxo.Hash, utxo.Index))
  ensures [C01, C08] "an error changes nothing" implies(err != nil, insSame(tx))
  reveal [C08] inTotal
  ensures [C08] "the value rises by the utxo's" inTotal(tx) == old(inTotal(tx)) + ite(err == nil, utxo.Value, 0)
  // the outputs that exist are never worth more than 2^61 (all bitcoin there will be is below 2^51)
  assumes [C08] inTotal(tx) <= 2305843009213693952
  ensures [C02] "stays free of duplicates" implies(old(inUnique(tx)), inUnique(tx))
  ensures [C02] "duplicate exactly when already used" iff(old(spent(tx, utxo.Hash, utxo.Index)), err != nil)
  ensures [C02, C08] "duplicate error" implies(err != nil, ecause(err) == ErrDuplicateInput)
  loopinv [C02] (i int) forall(k, 0, i, !old(uses(tx, k, utxo.Hash, utxo.Index)))

func (*TxBuilder).UpdateInputUTXO(tx, index, utxo) (err)
  nopanic [C01, C21]
  requires tx != nil && tx.MsgTx != nil && index >= 0
  requires insOK(tx)
  modifies *tx.Inputs[index], *tx.MsgTx.TxIn[index]
  ensures insOK(tx)
  ensures [C01] "index beyond the list is an error" implies(index >= old(len(tx.Inputs)), err != nil)
  ensures [C01] "only the input at the index is redirected" implies(err == nil,
     isRecord(tx.Inputs[index], utxo.LockingScript, utxo.Value, utxo.KeyID)
     && uses(tx, index, utxo.Hash, utxo.Index)
     && tx.MsgTx.TxIn[index].Sequence == old(tx.MsgTx.TxIn[index].Sequence)
     && tx.MsgTx.TxIn[index].UnlockingScript == old(tx.MsgTx.TxIn[index].UnlockingScript))
  ensures [C01] "keeps the lists" insSame(tx)
  ensures [C01] "an error changes nothing" implies(err != nil, *tx.Inputs[index] == old(*tx.Inputs[index]) && *tx.MsgTx.TxIn[index] == old(*tx.MsgTx.TxIn[index]))
  ensures [C02] "stays free of duplicates" implies(old(inUnique(tx)), inUnique(tx))
  ensures [C02] "duplicate exactly when another input uses it" iff(err == nil, index < old(len(tx.MsgTx.TxIn)) && old(forall(k, 0, len(tx.MsgTx.TxIn), k == index || !uses(tx, k, utxo.Hash, utxo.Index))))
  ensures [C02] "duplicate error" implies(err != nil && index < len(tx.MsgTx.TxIn), ecause(err) == ErrDuplicateInput)
  loopinv [C02] (i int) forall(k, 0, i, k == index || !old(uses(tx, k, utxo.Hash, utxo.Index)))

func (*TxBuilder).InsertInput(tx, index, utxo) (err)
  nopanic [C01, C21]
  requires tx != nil && tx.MsgTx != nil && index >= 0
  requires insOK(tx)
  modifies tx.Inputs, tx.MsgTx.TxIn, elems(tx.Inputs), elems(tx.MsgTx.TxIn)
  ensures insOK(tx)
  ensures [C01] "index beyond the list is an error" implies(index > old(len(tx.Inputs)), err != nil)
  ensures [C01] "inserts exactly one record and input" implies(err == nil,
     len(tx.Inputs) == old(len(tx.Inputs)) + 1 && len(tx.MsgTx.TxIn) == old(len(tx.MsgTx.TxIn)) + 1
     && insFirst(tx, index)
     && forall(k, index, old(len(tx.Inputs)), tx.Inputs[k+1] == old(tx.Inputs[k]) && tx.MsgTx.TxIn[k+1] == old(tx.MsgTx.TxIn[k])))
  ensures [C01] "new record and input carry the utxo" implies(err == nil,
     isRecord(tx.Inputs[index], utxo.LockingScript, utxo.Value, utxo.KeyID)
     && isNewIn(tx.MsgTx.TxIn[index], utxo.Hash, utxo.Index))
  ensures [C01] "an error changes nothing" implies(err != nil, insSame(tx))
  ensures [C02] "stays free of duplicates" implies(old(inUnique(tx)), inUnique(tx))
  ensures [C02] "duplicate exactly when already used" implies(index <= old(len(tx.MsgTx.TxIn)), iff(old(spent(tx, utxo.Hash, utxo.Index)), err != nil))
  ensures [C02] "duplicate error" implies(err != nil && index <= old(len(tx.MsgTx.TxIn)), ecause(err) == ErrDuplicateInput)
  loopinv [C02] (i int) forall(k, 0, i, !old(uses(tx, k, utxo.Hash, utxo.Index)))

func (*TxBuilder).AddInput(tx, outpoint, lockingScript, value) (err)
  nopanic [C01, C21]
  requires tx != nil && tx.MsgTx != nil
  requires insOK(tx)
  modifies tx.Inputs, tx.MsgTx.TxIn, elems(tx.Inputs), elems(tx.MsgTx.TxIn)
  ensures insOK(tx)
  ensures [C01] "appends exactly one record and input" implies(err == nil,
     len(tx.Inputs) == old(len(tx.Inputs)) + 1 && len(tx.MsgTx.TxIn) == old(len(tx.MsgTx.TxIn)) + 1
     && insFirst(tx, old(len(tx.Inputs))))
  ensures [C01] "new record and input carry the outpoint, script and value" implies(err == nil,
     isRecord(tx.Inputs[old(len(tx.Inputs))], lockingScript, value, "")
     && isNewIn(tx.MsgTx.TxIn[old(len(tx.Inputs))], outpoint.Hash, outpoint.Index))
  ensures [C01] "an error changes nothing" implies(err != nil, insSame(tx))
  ensures [C02] "stays free of duplicates" implies(old(inUnique(tx)), inUnique(tx))
  ensures [C02] "duplicate exactly when already used" iff(old(spent(tx, outpoint.Hash, outpoint.Index)), err != nil)
  ensures [C02] "duplicate error" implies(err != nil, ecause(err) == ErrDuplicateInput)
  loopinv [C02] (i int) forall(k, 0, i, !old(uses(tx, k, outpoint.Hash, outpoint.Index)))

func (*TxBuilder).RemoveInput(tx, index) (err)
  nopanic [C01, C21]
  requires tx != nil && tx.MsgTx != nil && index >= 0
  requires insOK(tx)
  modifies tx.Inputs, tx.MsgTx.TxIn, elems(tx.Inputs), elems(tx.MsgTx.TxIn)
  ensures insOK(tx)
  ensures [C01] "error exactly for an index beyond the list" iff(err != nil, index >= old(len(tx.Inputs)))
  ensures [C01] "removes exactly the record and input at the index" implies(err == nil,
     len(tx.Inputs) == old(len(tx.Inputs)) - 1 && len(tx.MsgTx.TxIn) == old(len(tx.MsgTx.TxIn)) - 1
     && insFirst(tx, index)
     && forall(k, index, len(tx.Inputs), tx.Inputs[k] == old(tx.Inputs[k+1]) && tx.MsgTx.TxIn[k] == old(tx.MsgTx.TxIn[k+1])))
  ensures [C01] "an error changes nothing" implies(err != nil, insSame(tx))
  ensures [C02] "stays free of duplicates" implies(old(inUnique(tx)), inUnique(tx))
