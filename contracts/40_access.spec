package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define msgOK(t) = t != nil && forall(k, 0, len(t.TxIn), t.TxIn[k] != nil) && forall(k, 0, len(t.TxOut), t.TxOut[k] != nil)

func (*TxBuilder).TxID(tx) (r)
  nopanic [C21]
  requires tx != nil && msgOK(tx.MsgTx)
  ensures [C23] "double hash of the serialized tx" r == dsha(txBytes(tx.MsgTx))
func (*TxBuilder).Serialize(tx) (r, err)
  nopanic [C21]
  requires tx != nil && msgOK(tx.MsgTx)
  ensures [C23] "the serialized tx" err == nil && bytes(r) == txBytes(tx.MsgTx)
func (*TxBuilder).GetMsgTx(tx) (r)
  nopanic [C21]
  requires tx != nil
  ensures [C23] "the tx itself" r == tx.MsgTx
func (*TxBuilder).InputCount(tx) (r)
  nopanic [C21]
  requires tx != nil && tx.MsgTx != nil
  ensures [C23] "number of inputs" r == len(tx.MsgTx.TxIn)
func (*TxBuilder).OutputCount(tx) (r)
  nopanic [C21]
  requires tx != nil && tx.MsgTx != nil
  ensures [C23] "number of outputs" r == len(tx.MsgTx.TxOut)
func (*TxBuilder).Input(tx, index) (r)
  nopanic [C21]
  requires tx != nil && tx.MsgTx != nil && index >= 0 && index < len(tx.MsgTx.TxIn)
  ensures [C23] "the input at the index" r == tx.MsgTx.TxIn[index]
func (*TxBuilder).Output(tx, index) (r)
  nopanic [C21]
  requires tx != nil && tx.MsgTx != nil && index >= 0 && index < len(tx.MsgTx.TxOut)
  ensures [C23] "the output at the index" r == tx.MsgTx.TxOut[index]
func (*TxBuilder).InputOutput(tx, index) (r, err)
  nopanic [C21, C23]
  requires tx != nil && index >= 0 && forall(k, 0, len(tx.Inputs), tx.Inputs[k] != nil)
  ensures [C23] "error exactly without spent output data" iff(err != nil, index >= len(tx.Inputs) || (len(tx.Inputs[index].LockingScript) == 0 && tx.Inputs[index].Value == 0))
  ensures [C23] "script and value of the record" implies(err == nil, r != nil && r.Value == tx.Inputs[index].Value
     && bytes(r.LockingScript) == bytes(tx.Inputs[index].LockingScript) && len(r.LockingScript) == len(tx.Inputs[index].LockingScript))
  ensures [C23] "a new output" implies(err == nil, fresh(r))
func (*TxBuilder).InputIsSigned(tx, index) (r)
  nopanic [C21, C23]
  requires tx != nil && index >= 0 && msgOK(tx.MsgTx)
  ensures [C23] "signed exactly with an unlocking script" r == (index < len(tx.MsgTx.TxIn) && len(tx.MsgTx.TxIn[index].UnlockingScript) > 0)
func (*TxBuilder).AllInputsAreSigned(tx) (r)
  nopanic [C21, C23]
  requires tx != nil && msgOK(tx.MsgTx)
  ensures [C23] "every input has an unlocking script" r == forall(k, 0, len(tx.MsgTx.TxIn), len(tx.MsgTx.TxIn[k].UnlockingScript) > 0)
  loopinv [C23] (i int) forall(k, 0, i, len(tx.MsgTx.TxIn[k].UnlockingScript) > 0)
  loopinv [C23] (i int) forall(k, i + 1, len(tx.MsgTx.TxIn), len(tx.MsgTx.TxIn[k].UnlockingScript) > 0)
  loopinv [C23] (i int, b any bool) b == forall(k, 0, i, len(tx.MsgTx.TxIn[k].UnlockingScript) > 0)
func (*TxBuilder).InputAddress(tx, index) (r, err)
  nopanic [C21, C23]
  requires tx != nil && index >= 0 && forall(k, 0, len(tx.Inputs), tx.Inputs[k] != nil)
  ensures [C23] "error beyond the list or without address" iff(err != nil, index >= len(tx.Inputs) || !scriptAddrOK(bytes(tx.Inputs[index].LockingScript)))
  ensures [C23] "address of the record's script" implies(err == nil, r == scriptAddr(bytes(tx.Inputs[index].LockingScript)))
func (*TxBuilder).OutputAddress(tx, index) (r, err)
  nopanic [C21, C23]
  requires tx != nil && index >= 0 && msgOK(tx.MsgTx)
  ensures [C23] "error beyond the list or without address" iff(err != nil, index >= len(tx.MsgTx.TxOut) || !scriptAddrOK(bytes(tx.MsgTx.TxOut[index].LockingScript)))
  ensures [C23] "address of the output's script" implies(err == nil, r == scriptAddr(bytes(tx.MsgTx.TxOut[index].LockingScript)))
