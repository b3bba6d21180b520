HDR = '''
package txbuilder

import (
	"testing"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

func demoScript(b byte) bitcoin.Script {
	s := []byte{0x76, 0xa9, 20, b}
	for i := 0; i < 19; i++ {
		s = append(s, byte(i))
	}
	return append(s, 0x88, 0xac)
}

func demoBuilder(in uint64, outs ...uint64) *TxBuilder {
	tx := NewTxBuilder(0.5, 0.25)
	tx.Inputs = append(tx.Inputs, &InputSupplement{LockingScript: demoScript(1), Value: in})
	tx.MsgTx.TxIn = append(tx.MsgTx.TxIn, &wire.TxIn{Sequence: wire.MaxTxInSequenceNum})
	for i, v := range outs {
		tx.Outputs = append(tx.Outputs, &OutputSupplement{})
		tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &wire.TxOut{Value: v, LockingScript: demoScript(byte(i + 2))})
	}
	return tx
}
'''
SEEDS = [
 dict(id='C06-last-remainder', property='C06',
  needs='a builder with two remainder outputs',
  what='the fee adjustment takes the last remainder output instead of the first',
  edits=[('fees.go', '''		if output.IsRemainder {
			changeOutputIndex = i
			break
		}
''', '''		if output.IsRemainder {
			changeOutputIndex = i
		}
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := demoBuilder(100000, 20000, 30000, 40000)
	tx.Outputs[0].IsRemainder = true
	tx.Outputs[2].IsRemainder = true
	if _, err := tx.AdjustFee(700); err != nil {
		t.Fatal(err)
	}
	if tx.MsgTx.TxOut[0].Value != 19300 || tx.MsgTx.TxOut[2].Value != 40000 {
		t.Fatalf("values %d %d", tx.MsgTx.TxOut[0].Value, tx.MsgTx.TxOut[2].Value)
	}
}
'''),
 dict(id='C06-drained-remainder-removed', property='C06',
  needs='a remainder output of the caller that is used up exactly by the fee',
  what='a remainder output that was not added by fee calculation is removed when its value reaches zero',
  edits=[('fees.go', '''			if !tx.Outputs[changeOutputIndex].addedForFee {
''', '''			if !tx.Outputs[changeOutputIndex].addedForFee && tx.MsgTx.TxOut[changeOutputIndex].Value > 0 {
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := demoBuilder(100000, 20000, 700)
	tx.Outputs[1].IsRemainder = true
	tx.AdjustFee(700)
	if len(tx.Outputs) != 2 || len(tx.MsgTx.TxOut) != 2 {
		t.Fatal("remainder output removed")
	}
}
'''),
 dict(id='C06-removed-record', property='C06',
  needs='change added by fee calculation before another output, falling below its cost',
  what='when change is removed the last record goes instead of the record of the removed output',
  edits=[('fees.go', '''			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
			done = true
''', '''			tx.Outputs = tx.Outputs[:len(tx.Outputs)-1]
			done = true
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := demoBuilder(100000, 300, 20000)
	tx.Outputs[0].IsRemainder = true
	tx.Outputs[0].addedForFee = true
	tx.Outputs[1].KeyID = "payment"
	if _, err := tx.AdjustFee(290); err != nil {
		t.Fatal(err)
	}
	if len(tx.Outputs) != 1 || tx.Outputs[0].KeyID != "payment" || tx.MsgTx.TxOut[0].Value != 20000 {
		t.Fatal("records and outputs no longer match")
	}
}
'''),
 dict(id='C06-change-fee-twice', property='C06',
  needs='change that is worth adding only when the fee of its output is not counted twice',
  what='the fee of the new output is counted twice, so change worth more than its cost is left to the fee',
  edits=[('fees.go', '''			if adjustment > outputFee+inputFee {
				if len(tx.ChangeScript) == 0 {
''', '''			if adjustment > outputFee+inputFee+changeOutputFee {
				if len(tx.ChangeScript) == 0 {
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := demoBuilder(100000, 20000)
	tx.ChangeScript = demoScript(9)
	// an output costs 17 and spending it 75
	if _, err := tx.AdjustFee(-115); err != nil {
		t.Fatal(err)
	}
	if len(tx.Outputs) != 2 || tx.MsgTx.TxOut[1].Value != 98 {
		t.Fatalf("%d outputs", len(tx.Outputs))
	}
}
'''),
 dict(id='C07-calculate-clamped-fee', property='C07',
  needs='outputs worth more than the inputs, with a remainder that can pay for it',
  what='calculating the fee starts from the fee clamped at zero, so a deficit is not made up',
  edits=[('fees.go', '''	_, err := tx.AdjustFee(int64(tx.EstimatedFee()) - tx.ActualFee())
''', '''	_, err := tx.AdjustFee(int64(tx.EstimatedFee()) - int64(tx.Fee()))
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := demoBuilder(30000, 20000, 15000)
	tx.Outputs[1].IsRemainder = true
	want := int64(tx.EstimatedFee())
	if err := tx.CalculateFee(); err != nil {
		t.Fatal(err)
	}
	if tx.ActualFee() < want {
		t.Fatalf("fee %d, needed %d", tx.ActualFee(), want)
	}
}
'''),
 dict(id='C07-zeroize-skips-deficit', property='C07',
  needs='zeroizing the fee of a transaction whose outputs are worth more than its inputs',
  what='zeroizing does nothing and succeeds when the fee is negative',
  edits=[('fees.go', '''	_, err := tx.AdjustFee(-tx.ActualFee())
''', '''	_, err := tx.AdjustFee(-int64(tx.Fee()))
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := demoBuilder(30000, 20000, 15000)
	if err := tx.ZeroizeFee(); err == nil && tx.ActualFee() < 0 {
		t.Fatalf("succeeded with fee %d", tx.ActualFee())
	}
}
'''),
]
