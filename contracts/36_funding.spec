// C08: funding.  C01, C02: funding keeps inputs paired and free of duplicates.
package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define knownScripts(u) = forall(k, 0, len(u), unlockOK(bytes(u[k].LockingScript)))

func (*TxBuilder).addedOutputFee(tx, n) (r)
  optional
  nopanic [C21]
  requires txOK(tx)
  ensures [C06, C07, C08] "what the estimated fee rises by" r == wrap64(feeUp(wrap64(estSize(tx) + addedSize(tx, n)), tx.FeeRate) - estFee(tx))
  reveal [C08] rateFine
  ensures [C08] "the fee is small" implies(rateFine(tx.FeeRate) && n < 274877906944, estFee(tx) + r <= 2305843009213693952 && estFee(tx) + r == feeUp(wrap64(estSize(tx) + addedSize(tx, n)), tx.FeeRate))

func (*TxBuilder).AddFunding(tx, utxos) (err)
  lightinv
  nopanic [C21]
  requires txOK(tx) && len(tx.Outputs) < 4294967295
  requires [C08] smallValues(tx) && inTotal(tx) >= 0 && outSum(tx) <= 2305843009213693952 && inTotal(tx) <= 2305843009213693952
  requires [C08] rateFine(tx.FeeRate) && dustFine(tx.DustFeeRate) && outSize(len(tx.ChangeScript)) < 274877906944
  modifies tx.Inputs, tx.MsgTx.TxIn, any(elems(tx.Inputs)), any(elems(tx.MsgTx.TxIn)), tx.Outputs, tx.MsgTx.TxOut, any(elems(tx.Outputs)), any(elems(tx.MsgTx.TxOut)), any(tx.MsgTx.TxOut[0].Value)
  ensures insOK(tx) && outsOK(tx)
  ensures [C08] "existing inputs stay" len(tx.Inputs) >= old(len(tx.Inputs)) && insFirst(tx, old(len(tx.Inputs)))
  ensures [C02] "stays free of duplicates" implies(old(inUnique(tx)), inUnique(tx))
  ensures [C08] "inputs cover the outputs and the estimated fee" implies(err == nil, left(tx) >= estFee(tx))
  ensures [C08] "too little value is an insufficient value" implies(err != nil && knownScripts(utxos) && left(tx) < estFee(tx), ecause(err) == ErrInsufficientValue)
  loopinv () insOK(tx)
  loopinv () len(tx.Inputs) >= old(len(tx.Inputs))
  loopinv [C08] () insFirst(tx, old(len(tx.Inputs)))
  loopinv [C02] () implies(old(inUnique(tx)), inUnique(tx))
  loopinv [C08] (n own uint64) n == inTotal(tx)
  loopinv [C08] () 0 <= inTotal(tx) && inTotal(tx) <= 2305843009213693952
