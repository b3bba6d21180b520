HDR = '''
package txbuilder

import (
	"bytes"
	"testing"

	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

var _ = bytes.Equal
var _ = channels.Wrap
var _ = unlocking_data.NewProtocol
var _ = wire.MaxTxInSequenceNum
var _ bitcoin.Script
'''
SEEDS = [
 dict(id='C05-embedded-value-breaks', property='C05',
  needs='two inputs in a row whose values come from embedded unlocking data',
  what='InputValue stops at an input with embedded unlocking data when the next record has no value either, so that next embedded value is not counted',
  edits=[('fees.go', '''					if ok {
						inputValue += unlockData.Value
						continue
''', '''					if ok {
						inputValue += unlockData.Value
						if i+1 < len(tx.Inputs) && tx.Inputs[i+1].Value != 0 {
							input = tx.Inputs[i]
						} else {
							break
						}
						continue
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	s, err := channels.Wrap(&unlocking_data.UnlockingData{Size: 10, Value: 700})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		tx.MsgTx.TxIn = append(tx.MsgTx.TxIn, &wire.TxIn{PreviousOutPoint: wire.OutPoint{Index: uint32(i)}})
		tx.Inputs = append(tx.Inputs, &InputSupplement{})
	}
	tx.MsgTx.TxIn[0].UnlockingScript = s
	tx.MsgTx.TxIn[1].UnlockingScript = s
	tx.Inputs[2].Value = 5
	if got := tx.InputValue(); got != 1405 {
		t.Errorf("input value %d, want 1405", got)
	}
}
'''),
 dict(id='C17-multi-sig-true-op', property='C17',
  needs='a multi-PKH locking script where fewer signatures are required than there are signers',
  what='the estimated unlocking size counts the true opcode only once per script and the false opcode for every signer, so it is wrong unless the counts happen to cancel out',
  edits=[('fees.go', '''		scriptSize := int(total - required) // OP_FALSE for all signatures not included

		// Signature, public key and OP_TRUE for each required signature
		scriptSize += int(required) * (MaxSignaturesPushDataSize + PublicKeyPushDataSize + 1)
''', '''		scriptSize := int(total) // OP_FALSE for all signatures not included

		// Signature, public key and OP_TRUE for each required signature
		scriptSize += int(required) * (MaxSignaturesPushDataSize + PublicKeyPushDataSize + 1)
		if total == required {
			scriptSize -= int(required)
		}
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	pkhs := [][]byte{bytes.Repeat([]byte{1}, 20), bytes.Repeat([]byte{2}, 20), bytes.Repeat([]byte{3}, 20)}
	ra, err := bitcoin.NewRawAddressMultiPKH(2, pkhs)
	if err != nil {
		t.Fatal(err)
	}
	s, err := ra.LockingScript()
	if err != nil {
		t.Fatal(err)
	}
	n, err := UnlockingScriptSize(s)
	if err != nil || n != 2*109+1 {
		t.Errorf("size %d %v, want %d", n, err, 2*109+1)
	}
}
'''),
 dict(id='C17-size-outputs-varint', property='C17',
  needs='a transaction with more than 252 outputs and fewer inputs',
  what='EstimatedSize takes the input count for both count prefixes, two bytes short for 253 or more outputs',
  edits=[('fees.go', '''		wire.VarIntSerializeSize(uint64(len(tx.MsgTx.TxOut)))

	for i, input := range tx.Inputs {''', '''		wire.VarIntSerializeSize(uint64(len(tx.MsgTx.TxIn)))

	for i, input := range tx.Inputs {''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	for i := 0; i < 253; i++ {
		tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &wire.TxOut{Value: 1000})
		tx.Outputs = append(tx.Outputs, &OutputSupplement{})
	}
	if got := tx.EstimatedSize(); got != 8+1+3+253*9 {
		t.Errorf("estimated %d", got)
	}
}
'''),
 dict(id='C23-spent-output-zero-value', property='C23',
  needs='an input whose record has a locking script but a value of zero (for instance an OP_RETURN style or token output)',
  what='InputOutput treats a record with a zero value as missing even when its locking script is known',
  edits=[('txbuilder.go', '''	if len(input.LockingScript) == 0 && input.Value == 0 {''', '''	if len(input.LockingScript) == 0 || input.Value == 0 {''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	tx.MsgTx.TxIn = append(tx.MsgTx.TxIn, &wire.TxIn{})
	tx.Inputs = append(tx.Inputs, &InputSupplement{LockingScript: bitcoin.Script{0x51}})
	o, err := tx.InputOutput(0)
	if err != nil || o.Value != 0 || len(o.LockingScript) != 1 {
		t.Errorf("got %v %v", o, err)
	}
}
'''),
]
