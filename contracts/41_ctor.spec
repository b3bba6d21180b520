package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define plainOutputs(r) = len(r.Outputs) == len(r.MsgTx.TxOut) && forall(k, 0, len(r.Outputs), r.Outputs[k] != nil && !r.Outputs[k].IsRemainder && !r.Outputs[k].IsDust && !r.Outputs[k].addedForFee && len(r.Outputs[k].KeyID) == 0)
define ratesAre(r, feeRate, dustFeeRate) = r.FeeRate == feeRate && r.DustFeeRate == dustFeeRate && !r.SendMax && len(r.ChangeScript) == 0 && len(r.ChangeKeyID) == 0

func NewTxBuilder(feeRate, dustFeeRate) (r)
  nopanic [C21]
  ensures [C20] "empty builder" r != nil && fresh(r) && r.MsgTx != nil && fresh(r.MsgTx) && len(r.MsgTx.TxIn) == 0 && len(r.MsgTx.TxOut) == 0 && len(r.Inputs) == 0 && len(r.Outputs) == 0 && r.MsgTx.LockTime == 0
  ensures [C20] "rates" ratesAre(r, feeRate, dustFeeRate)

// the outpoint of input k of t refers to an output of p
define refersTo(t, k, p) = dsha(txBytes(p)) == t.TxIn[k].PreviousOutPoint.Hash && t.TxIn[k].PreviousOutPoint.Index < len(p.TxOut)
define hasParent(t, k, ps) = exists(m, 0, len(ps), refersTo(t, k, ps[m]))
define fromParent(r, t, k, ps) = exists(m, 0, len(ps), refersTo(t, k, ps[m]) && r != nil && r.Value == ps[m].TxOut[t.TxIn[k].PreviousOutPoint.Index].Value
    && bytes(r.LockingScript) == bytes(ps[m].TxOut[t.TxIn[k].PreviousOutPoint.Index].LockingScript)
    && len(r.LockingScript) == len(ps[m].TxOut[t.TxIn[k].PreviousOutPoint.Index].LockingScript) && len(r.KeyID) == 0)

func NewTxBuilderFromWire(feeRate, dustFeeRate, tx, inputs) (r, err)
  nopanic [C21]
  requires msgOK(tx) && forall(m, 0, len(inputs), msgOK(inputs[m]))
  ensures [C20] "the transaction as it is" r != nil && fresh(r) && r.MsgTx == tx
  ensures [C20] "rates" ratesAre(r, feeRate, dustFeeRate)
  ensures [C20] "output records without flags" plainOutputs(r)
  ensures [C20] "one record per input" len(r.Inputs) == len(tx.TxIn)
  ensures [C20] "record of the spent output" forall(k, 0, len(tx.TxIn), implies(hasParent(tx, k, inputs), fromParent(r.Inputs[k], tx, k, inputs)))
  ensures [C20] "missing exactly when some spent output is not supplied" iff(err != nil, exists(k, 0, len(tx.TxIn), !hasParent(tx, k, inputs)))
  ensures [C20] "missing input data error" implies(err != nil, ecause(err) == ErrMissingInputData)
  loopinv (i int, p *TxBuilder) forall(k, 0, i, implies(hasParent(tx, k, inputs), fromParent(p.Inputs[k], tx, k, inputs)))
  loopinv (i int, s []*InputSupplement) forall(k, 0, i, implies(hasParent(tx, k, inputs), fromParent(s[k], tx, k, inputs)))
  loopinv (i int, e any error) iff(e != nil, exists(k, 0, i, !hasParent(tx, k, inputs)))
  loopinv (e any error) implies(e != nil, ecause(e) == ErrMissingInputData)
  loopinv (i int, j int) forall(m, 0, j, !refersTo(tx, i, inputs[m]))
  loopinv (i int, p *TxBuilder) forall(k, 0, i, p.Outputs[k] != nil && !p.Outputs[k].IsRemainder && !p.Outputs[k].IsDust && !p.Outputs[k].addedForFee && len(p.Outputs[k].KeyID) == 0)
  loopinv (i int, s []*OutputSupplement) forall(k, 0, i, s[k] != nil && !s[k].IsRemainder && !s[k].IsDust && !s[k].addedForFee && len(s[k].KeyID) == 0)

define paidBy(t, k, u) = u.Hash == t.TxIn[k].PreviousOutPoint.Hash && u.Index == t.TxIn[k].PreviousOutPoint.Index
define hasUTXO(t, k, us) = exists(m, 0, len(us), paidBy(t, k, us[m]))
define fromUTXO(r, t, k, us) = exists(m, 0, len(us), paidBy(t, k, us[m]) && r != nil && r.Value == us[m].Value && bytes(r.LockingScript) == bytes(us[m].LockingScript) && len(r.LockingScript) == len(us[m].LockingScript) && r.KeyID == us[m].KeyID)

func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate, tx, utxos) (r, err)
  nopanic [C21]
  requires msgOK(tx)
  ensures [C20] "the transaction as it is" r != nil && fresh(r) && r.MsgTx == tx
  ensures [C20] "rates" ratesAre(r, feeRate, dustFeeRate)
  ensures [C20] "output records without flags" plainOutputs(r)
  ensures [C20] "one record per input" len(r.Inputs) == len(tx.TxIn)
  ensures [C20] "record of the spent output" forall(k, 0, len(tx.TxIn), implies(hasUTXO(tx, k, utxos), fromUTXO(r.Inputs[k], tx, k, utxos)))
  ensures [C20] "missing exactly when some spent output is not supplied" iff(err != nil, exists(k, 0, len(tx.TxIn), !hasUTXO(tx, k, utxos)))
  ensures [C20] "missing input data error" implies(err != nil, ecause(err) == ErrMissingInputData)
  loopinv (i int, p *TxBuilder) forall(k, 0, i, implies(hasUTXO(tx, k, utxos), fromUTXO(p.Inputs[k], tx, k, utxos)))
  loopinv (i int, s []*InputSupplement) forall(k, 0, i, implies(hasUTXO(tx, k, utxos), fromUTXO(s[k], tx, k, utxos)))
  loopinv (i int, e any error) iff(e != nil, exists(k, 0, i, !hasUTXO(tx, k, utxos)))
  loopinv (e any error) implies(e != nil, ecause(e) == ErrMissingInputData)
  loopinv (i int, j int) forall(m, 0, j, !paidBy(tx, i, utxos[m]))
  loopinv (i int, p *TxBuilder) forall(k, 0, i, p.Outputs[k] != nil && !p.Outputs[k].IsRemainder && !p.Outputs[k].IsDust && !p.Outputs[k].addedForFee && len(p.Outputs[k].KeyID) == 0)
  loopinv (i int, s []*OutputSupplement) forall(k, 0, i, s[k] != nil && !s[k].IsRemainder && !s[k].IsDust && !s[k].addedForFee && len(s[k].KeyID) == 0)

// any implementation of the interface is a function of the index (assumed)
ufun twMsg(loc) loc
ufun twCount(loc) int 0 1125899906842624
ufun twIn(loc, int) loc
ufun twInHash(loc, int) hash
ufun twOutOK(loc, int) bool
ufun twOutVal(loc, int) int 0 18446744073709551615
ufun twOutScript(loc, int) bytes
trusted func (TransactionWithOutputs).GetMsgTx(t) (r)
  ensures r == twMsg(t) && r != nil && allocated(r) && len(r.TxIn) == twCount(t) && forall(k, 0, len(r.TxOut), r.TxOut[k] != nil)
trusted func (TransactionWithOutputs).InputCount(t) (r)
  ensures r == twCount(t)
trusted func (TransactionWithOutputs).Input(t, index) (r)
  requires 0 <= index && index < twCount(t)
  ensures r != nil && r.PreviousOutPoint.Hash == twInHash(t, index)
trusted func (TransactionWithOutputs).InputOutput(t, index) (r, err)
  requires 0 <= index && index < twCount(t)
  ensures (err == nil) == twOutOK(t, index)
  ensures implies(err == nil, r != nil && r.Value == twOutVal(t, index) && bytes(r.LockingScript) == twOutScript(t, index) && len(r.LockingScript) == len(twOutScript(t, index)))

define fromTW(r, t, k) = r != nil && len(r.KeyID) == 0 && implies(twInHash(t, k) == zerohash(), len(r.LockingScript) == 0 && r.Value == 0)
   && implies(twInHash(t, k) != zerohash(), r.Value == twOutVal(t, k) && bytes(r.LockingScript) == twOutScript(t, k))

func NewTxBuilderFromTransactionWithOutputs(feeRate, dustFeeRate, tx) (r, err)
  nopanic [C21]
  requires tx != nil
  ensures [C20] "error exactly when a spent output is missing" iff(err != nil, exists(k, 0, twCount(tx), twInHash(tx, k) != zerohash() && !twOutOK(tx, k)))
  ensures [C20] "the transaction as it is" implies(err == nil, r != nil && fresh(r) && r.MsgTx == twMsg(tx))
  ensures [C20] "rates" implies(err == nil, ratesAre(r, feeRate, dustFeeRate))
  ensures [C20] "output records without flags" implies(err == nil, plainOutputs(r))
  ensures [C20] "one record per input" implies(err == nil, len(r.Inputs) == twCount(tx))
  ensures [C20] "record of the spent output" implies(err == nil, forall(k, 0, twCount(tx), fromTW(r.Inputs[k], tx, k)))
  loopinv (i int, p *TxBuilder) forall(k, 0, i, fromTW(p.Inputs[k], tx, k))
  loopinv (i int, s []*InputSupplement) forall(k, 0, i, fromTW(s[k], tx, k))
  loopinv (i int) forall(k, 0, i, twInHash(tx, k) == zerohash() || twOutOK(tx, k))
  loopinv (i int, p *TxBuilder) forall(k, 0, i, p.Outputs[k] != nil && !p.Outputs[k].IsRemainder && !p.Outputs[k].IsDust && !p.Outputs[k].addedForFee && len(p.Outputs[k].KeyID) == 0)
  loopinv (i int, s []*OutputSupplement) forall(k, 0, i, s[k] != nil && !s[k].IsRemainder && !s[k].IsDust && !s[k].addedForFee && len(s[k].KeyID) == 0)
