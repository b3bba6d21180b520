HDR = '''
package txbuilder

import (
	"testing"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

var _ = errors.Cause
var _ = wire.MaxTxInSequenceNum

func demoUTXO(b byte, index uint32, value uint64) bitcoin.UTXO {
	var h bitcoin.Hash32
	h[0], h[31] = b, b
	return bitcoin.UTXO{Hash: h, Index: index, Value: value, LockingScript: bitcoin.Script{0x51, b}, KeyID: "k"}
}
'''
SEEDS = [
 dict(id='C01-insert-shares-tail', property='C01',
  needs='an insert in the middle of the inputs when the record slice has spare capacity, so that the shifted tail is written over itself',
  what='InsertInput no longer copies the tail of the input records before appending into the same array, so the records after the insertion point are overwritten',
  edits=[('inputs.go', '''	afterInputs := make([]*InputSupplement, len(tx.Inputs)-index)
	copy(afterInputs, tx.Inputs[index:])
''', '''	afterInputs := tx.Inputs[index:]
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	for i := 0; i < 3; i++ {
		if err := tx.AddInputUTXO(demoUTXO(byte(i+1), 0, uint64(100*(i+1)))); err != nil {
			t.Fatal(err)
		}
	}
	if err := tx.InsertInput(1, demoUTXO(9, 0, 900)); err != nil {
		t.Fatal(err)
	}
	want := []uint64{100, 900, 200, 300}
	for i, w := range want {
		if tx.Inputs[i].Value != w {
			t.Errorf("record %d value %d, want %d", i, tx.Inputs[i].Value, w)
		}
	}
}
'''),
 dict(id='C02-update-skips-rest', property='C02',
  needs='updating an input to an outpoint that is used by an input after the updated one',
  what='UpdateInputUTXO stops its duplicate scan at the updated input, so duplicates of later inputs are accepted',
  edits=[('inputs.go', '''		if i == index {
			continue
		}''', '''		if i == index {
			break
		}''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	for i := 0; i < 3; i++ {
		if err := tx.AddInputUTXO(demoUTXO(byte(i+1), 0, 100)); err != nil {
			t.Fatal(err)
		}
	}
	if err := tx.UpdateInputUTXO(0, demoUTXO(3, 0, 100)); errors.Cause(err) != ErrDuplicateInput {
		t.Errorf("got %v", err)
	}
}
'''),
 dict(id='C02-funding-adjacent-only', property='C02',
  needs='sending everything from a UTXO list in which a UTXO occurs twice with another one between',
  what='AddFunding with SendMax only compares a UTXO with the last input before appending it, so a repeated UTXO further back is spent twice',
  edits=[('inputs.go', '''	for _, utxo := range utxos {
		if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		if _, err := UTXOFee(''', '''	for _, utxo := range utxos {
		last := len(tx.MsgTx.TxIn) - 1
		if tx.SendMax && last >= 0 {
			previous := tx.MsgTx.TxIn[last].PreviousOutPoint
			if previous.Index == utxo.Index && previous.Hash.Equal(&utxo.Hash) {
				duplicateValue += utxo.Value
				continue
			}
			tx.Inputs = append(tx.Inputs, &InputSupplement{
				LockingScript: utxo.LockingScript,
				Value:         utxo.Value,
				KeyID:         utxo.KeyID,
			})
			tx.MsgTx.AddTxIn(&wire.TxIn{
				PreviousOutPoint: wire.OutPoint{Hash: utxo.Hash, Index: utxo.Index},
				Sequence:         wire.MaxTxInSequenceNum,
			})
		} else if err := tx.AddInputUTXO(utxo); err != nil {
			if errors.Cause(err) == ErrDuplicateInput {
				duplicateValue += utxo.Value
				continue
			}
			return errors.Wrap(err, "adding input")
		}

		if _, err := UTXOFee(''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	tx.SendMax = true
	if err := tx.AddOutput(bitcoin.Script{0x51}, 0, true, false); err != nil {
		t.Fatal(err)
	}
	script := append(append(bitcoin.Script{0x76, 0xa9, 0x14}, make([]byte, 20)...), 0x88, 0xac)
	var utxos []bitcoin.UTXO
	for _, b := range []byte{1, 2, 1} {
		u := demoUTXO(b, 0, 5000)
		u.LockingScript = script
		utxos = append(utxos, u)
	}
	tx.AddFunding(utxos)
	if len(tx.MsgTx.TxIn) != 2 {
		t.Errorf("%d inputs from two distinct outputs", len(tx.MsgTx.TxIn))
	}
}
'''),
 dict(id='C04-add-value-not-dust', property='C04',
  needs='adding a value below the dust limit to an output that is still at dust, twice',
  what='AddValueToOutput clears the dust flag before checking the value, so a refused call still changes the builder and the next call is added on top of dust',
  edits=[('outputs.go', '''		if value < DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate) {
			return ErrBelowDustValue
		}
		tx.Outputs[index].IsDust = false
''', '''		tx.Outputs[index].IsDust = false
		if value < DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate) {
			return ErrBelowDustValue
		}
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	if err := tx.AddOutput(make(bitcoin.Script, 25), 0, false, true); err != nil {
		t.Fatal(err)
	}
	if err := tx.AddValueToOutput(0, 1); errors.Cause(err) != ErrBelowDustValue {
		t.Fatalf("got %v", err)
	}
	if err := tx.AddValueToOutput(0, 10000); err != nil {
		t.Fatal(err)
	}
	if tx.MsgTx.TxOut[0].Value != 10000 {
		t.Errorf("value %d", tx.MsgTx.TxOut[0].Value)
	}
}
'''),
 dict(id='C03-change-break', property='C03',
  needs='a transaction with two outputs paying the new change script',
  what='SetChangeLockingScript marks only the first output paying the change script',
  edits=[('outputs.go', '''			tx.Outputs[i].KeyID = keyID
		}
	}
''', '''			tx.Outputs[i].KeyID = keyID
			break
		}
	}
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	s := make(bitcoin.Script, 25)
	for i := 0; i < 2; i++ {
		if err := tx.AddOutput(s, 5000, false, false); err != nil {
			t.Fatal(err)
		}
	}
	if err := tx.SetChangeLockingScript(s, "chg"); err != nil {
		t.Fatal(err)
	}
	for i := range tx.Outputs {
		if !tx.Outputs[i].IsRemainder || tx.Outputs[i].KeyID != "chg" {
			t.Errorf("output %d not marked", i)
		}
	}
}
'''),
 dict(id='C18-dust-round', property='C18',
  needs='a dust fee rate for which three times the size times the rate is not an integer',
  what='DustLimit multiplies by three after rounding, so the limit is lower at fractional rates',
  edits=[('outputs.go', '''	dust := float32((outputSize+DustInputSize)*3) * feeRate
	if dust < 1 {
		return uint64(1)
	}
	return uint64(dust)
''', '''	dust := float32(outputSize+DustInputSize) * feeRate
	if dust*3 < 1 {
		return uint64(1)
	}
	if feeRate < 0.3 {
		return uint64(dust * 3)
	}
	return uint64(dust*2) * 3 / 2
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	for size := 10; size < 400; size++ {
		want := uint64(float32((size+148)*3) * 0.7)
		if got := DustLimit(size, 0.7); got != want {
			t.Fatalf("size %d: %d, want %d", size, got, want)
		}
	}
}
'''),
]
