package github.com/tokenized/pkg/bitcoin

trusted func (Hash32).Copy(h) (r)
  ensures r == h
  pure

func (Script).Copy(s) (r)
  nopanic [C21]
  ensures "same bytes in its own memory" len(r) == len(s) && bytes(r) == bytes(s) && fresh(r)

define sameIn(a, b) = a.PreviousOutPoint.Hash == b.PreviousOutPoint.Hash && a.PreviousOutPoint.Index == b.PreviousOutPoint.Index && a.Sequence == b.Sequence && len(a.UnlockingScript) == len(b.UnlockingScript) && bytes(a.UnlockingScript) == bytes(b.UnlockingScript)
define sameOut(a, b) = a.Value == b.Value && len(a.LockingScript) == len(b.LockingScript) && bytes(a.LockingScript) == bytes(b.LockingScript)
define sameRec(a, b) = a.Value == b.Value && len(a.LockingScript) == len(b.LockingScript) && bytes(a.LockingScript) == bytes(b.LockingScript) && a.KeyID == b.KeyID
define sameFlags(a, b) = a.IsRemainder == b.IsRemainder && a.IsDust == b.IsDust && a.addedForFee == b.addedForFee && a.KeyID == b.KeyID
define ownIn(a) = a != nil && fresh(a) && freshornil(a.UnlockingScript)
define ownOut(a) = a != nil && fresh(a) && freshornil(a.LockingScript)
define ownFlags(a) = a != nil && fresh(a)

package github.com/tokenized/pkg/wire

func (MsgTx).Copy(msg) (r)
  nopanic [C21]
  requires forall(k, 0, len(msg.TxIn), msg.TxIn[k] != nil) && forall(k, 0, len(msg.TxOut), msg.TxOut[k] != nil)
  ensures [C16] "same transaction" r.Version == msg.Version && r.LockTime == msg.LockTime && len(r.TxIn) == len(msg.TxIn) && len(r.TxOut) == len(msg.TxOut)
  ensures [C16] "same inputs" forall(k, 0, len(msg.TxIn), sameIn(r.TxIn[k], msg.TxIn[k]))
  ensures [C16] "same outputs" forall(k, 0, len(msg.TxOut), sameOut(r.TxOut[k], msg.TxOut[k]))
  ensures [C16] "its own inputs" freshornil(r.TxIn) && forall(k, 0, len(msg.TxIn), ownIn(r.TxIn[k])) && distinct(k, 0, len(msg.TxIn), r.TxIn[k])
  ensures [C16] "its own outputs" freshornil(r.TxOut) && forall(k, 0, len(msg.TxOut), ownOut(r.TxOut[k])) && distinct(k, 0, len(msg.TxOut), r.TxOut[k])
  loopinv (i int, p *MsgTx) forall(k, 0, i, sameIn(p.TxIn[k], msg.TxIn[k]))
  loopinv (i int, p *MsgTx) forall(k, 0, i, ownIn(p.TxIn[k])) && distinct(k, 0, i, p.TxIn[k])
  loopinv (i int, p *MsgTx) forall(k, 0, i, sameOut(p.TxOut[k], msg.TxOut[k]))
  loopinv (i int, p *MsgTx) forall(k, 0, i, ownOut(p.TxOut[k])) && distinct(k, 0, i, p.TxOut[k])

package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

func CopyString(s) (r)
  nopanic [C21]
  ensures [C16] "same string" r == s

func (InputSupplement).Copy(input) (r)
  nopanic [C21]
  ensures [C16] "same record" sameRec(r, input) && freshornil(r.LockingScript)

func (OutputSupplement).Copy(output) (r)
  nopanic [C21]
  ensures [C16] "same record" sameFlags(r, output)

func (TxBuilder).Copy(tx) (r)
  nopanic [C21]
  requires tx.MsgTx != nil && forall(k, 0, len(tx.MsgTx.TxIn), tx.MsgTx.TxIn[k] != nil) && forall(k, 0, len(tx.MsgTx.TxOut), tx.MsgTx.TxOut[k] != nil)
  requires forall(k, 0, len(tx.Inputs), tx.Inputs[k] != nil) && forall(k, 0, len(tx.Outputs), tx.Outputs[k] != nil)
  ensures [C16] "same settings" r.FeeRate == tx.FeeRate && r.DustFeeRate == tx.DustFeeRate && r.SendMax == tx.SendMax && r.ChangeKeyID == tx.ChangeKeyID
  ensures [C16] "same change script" len(r.ChangeScript) == len(tx.ChangeScript) && bytes(r.ChangeScript) == bytes(tx.ChangeScript) && freshornil(r.ChangeScript)
  ensures [C16] "same transaction" r.MsgTx != nil && fresh(r.MsgTx) && r.MsgTx.Version == tx.MsgTx.Version && r.MsgTx.LockTime == tx.MsgTx.LockTime && len(r.MsgTx.TxIn) == len(tx.MsgTx.TxIn) && len(r.MsgTx.TxOut) == len(tx.MsgTx.TxOut)
  ensures [C16] "same inputs" forall(k, 0, len(tx.MsgTx.TxIn), sameIn(r.MsgTx.TxIn[k], tx.MsgTx.TxIn[k]))
  ensures [C16] "same outputs" forall(k, 0, len(tx.MsgTx.TxOut), sameOut(r.MsgTx.TxOut[k], tx.MsgTx.TxOut[k]))
  ensures [C16] "its own inputs" freshornil(r.MsgTx.TxIn) && forall(k, 0, len(tx.MsgTx.TxIn), ownIn(r.MsgTx.TxIn[k])) && distinct(k, 0, len(tx.MsgTx.TxIn), r.MsgTx.TxIn[k])
  ensures [C16] "its own outputs" freshornil(r.MsgTx.TxOut) && forall(k, 0, len(tx.MsgTx.TxOut), ownOut(r.MsgTx.TxOut[k])) && distinct(k, 0, len(tx.MsgTx.TxOut), r.MsgTx.TxOut[k])
  ensures [C16] "same input records" len(r.Inputs) == len(tx.Inputs) && forall(k, 0, len(tx.Inputs), sameRec(r.Inputs[k], tx.Inputs[k]))
  ensures [C16] "same output records" len(r.Outputs) == len(tx.Outputs) && forall(k, 0, len(tx.Outputs), sameFlags(r.Outputs[k], tx.Outputs[k]))
  ensures [C16] "its own input records" freshornil(r.Inputs) && forall(k, 0, len(tx.Inputs), ownOut(r.Inputs[k])) && distinct(k, 0, len(tx.Inputs), r.Inputs[k])
  ensures [C16] "its own output records" freshornil(r.Outputs) && forall(k, 0, len(tx.Outputs), ownFlags(r.Outputs[k])) && distinct(k, 0, len(tx.Outputs), r.Outputs[k])
  loopinv (i int, p *TxBuilder) forall(k, 0, i, sameRec(p.Inputs[k], tx.Inputs[k]))
  loopinv (i int, p *TxBuilder) forall(k, 0, i, ownOut(p.Inputs[k])) && distinct(k, 0, i, p.Inputs[k])
  loopinv (i int, p *TxBuilder) forall(k, 0, i, sameFlags(p.Outputs[k], tx.Outputs[k]))
  loopinv (i int, p *TxBuilder) forall(k, 0, i, ownFlags(p.Outputs[k])) && distinct(k, 0, i, p.Outputs[k])
  loopinv (i int, s []*InputSupplement) forall(k, 0, i, sameRec(s[k], tx.Inputs[k]))
  loopinv (i int, s []*InputSupplement) forall(k, 0, i, ownOut(s[k])) && distinct(k, 0, i, s[k])
  loopinv (i int, s []*OutputSupplement) forall(k, 0, i, sameFlags(s[k], tx.Outputs[k]))
  loopinv (i int, s []*OutputSupplement) forall(k, 0, i, ownFlags(s[k])) && distinct(k, 0, i, s[k])
