// C10: signing with fee adjustment.
package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define serIn(t, k) = 40 + varint(len(t.TxIn[k].UnlockingScript)) + len(t.TxIn[k].UnlockingScript)
define serOut(t, k) = outSize(len(t.TxOut[k].LockingScript))
// size of the serialized transaction
opaque define serSize(t) = 8 + varint(len(t.TxIn)) + varint(len(t.TxOut)) + sum(serIn, k, len(t.TxIn), serIn(t, k)) + sum(serOut, k, len(t.TxOut), serOut(t, k))

package github.com/tokenized/pkg/wire
// transactions serialize to no more than 2^40 bytes
trusted func (*MsgTx).SerializeSize(msg) (r)
  ensures r == serSize(msg) && 0 <= r && r <= 1099511627776

package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin
// no transaction of up to 2^40 bytes costs more than 2^61 at the rate
define rateOK(rate) = forall(n, 0, 1099511627777, feeUp(n, rate) <= 2305843009213693952)

// the outputs that are not change, in order
define kept(tx, k) = ite(tx.Outputs[k].IsRemainder, emptyb(), outBytes(tx.MsgTx.TxOut[k]))
define keptOuts(tx) = catall(kept, k, len(tx.MsgTx.TxOut), kept(tx, k))
define finalFee(tx) = feeUp(serSize(tx.MsgTx), tx.FeeRate)

func (*TxBuilder).Sign(tx, keys) (r, err)
  lightinv
  requires txOK(tx) && len(tx.Outputs) < 4294967294
  requires keysOK(keys)
  requires smallValues(tx) && recorded(tx) && recSum(tx) <= 2305843009213693952 && outSum(tx) <= 2305843009213693952 && estFee(tx) <= 2305843009213693952 && rateOK(tx.FeeRate)
  modifies tx.Outputs, tx.MsgTx.TxOut, any(elems(tx.Outputs)), any(elems(tx.MsgTx.TxOut)), any(tx.MsgTx.TxOut[0].Value), each(k, 0, len(tx.Inputs), tx.MsgTx.TxIn[k].UnlockingScript)
  ensures outsOK(tx)
  ensures [C10] "the fee rate is paid on the final size" implies(err == nil, recSum(tx) - outSum(tx) >= finalFee(tx))
  ensures [C10] "every input is signed over the final transaction" implies(err == nil, forall(k, 0, len(tx.Inputs), implies(single(inScript(tx, k)), signedOK(tx, k))))
  ensures [C10] "the outputs that are not change stay, in order" keptOuts(tx) == old(keptOuts(tx))
  ensures [C10] "the keys used are supplied ones" forall(k, 0, len(r), isKey(r[k]))
  loopinv (s own []bitcoin.Key) forall(k, 0, len(s), isKey(s[k]))
  loopinv (s own []bitcoin.Key) freshornil(s)
  loopinv (c *SigHashCache) c.hashPrevOuts == nil && c.hashSequence == nil && c.hashOutputs == nil
  loopinv () outsOK(tx)
  loopinv () len(tx.Outputs) <= old(len(tx.Outputs)) || !changeless(tx) && len(tx.Outputs) <= old(len(tx.Outputs)) + 1
  loopinv () outSum(tx) <= recSum(tx)
  loopinv () keptOuts(tx) == old(keptOuts(tx))
  loopinv [C10] (i own int, m own bool) implies(!m, forall(k, 0, i, implies(single(inScript(tx, k)), signedOK(tx, k))))
