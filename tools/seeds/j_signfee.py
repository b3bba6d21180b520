HDR = '''
package txbuilder

import (
	"testing"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

func demoKey(n byte) bitcoin.Key {
	b := make([]byte, 32)
	b[0], b[31] = 1, n
	k, err := bitcoin.KeyFromNumber(b, bitcoin.MainNet)
	if err != nil {
		panic(err)
	}
	return k
}

func demoLock(k bitcoin.Key) bitcoin.Script {
	s, err := k.LockingScript()
	if err != nil {
		panic(err)
	}
	return s
}

func demoIn(tx *TxBuilder, k bitcoin.Key, value uint64) {
	tx.Inputs = append(tx.Inputs, &InputSupplement{LockingScript: demoLock(k), Value: value})
	in := &wire.TxIn{Sequence: wire.MaxTxInSequenceNum}
	in.PreviousOutPoint.Index = uint32(len(tx.Inputs))
	tx.MsgTx.TxIn = append(tx.MsgTx.TxIn, in)
}

func demoOut(tx *TxBuilder, k bitcoin.Key, value uint64, rem bool) {
	tx.Outputs = append(tx.Outputs, &OutputSupplement{IsRemainder: rem})
	tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &wire.TxOut{Value: value, LockingScript: demoLock(k)})
}

// demoSigned tells whether the input is signed by the key over the transaction.
func demoSigned(tx *TxBuilder, index int, k bitcoin.Key) bool {
	want, err := P2PKHUnlockingScript(k, tx.MsgTx, index, tx.Inputs[index].LockingScript, tx.Inputs[index].Value, SigHashAll+SigHashForkID, &SigHashCache{})
	if err != nil {
		panic(err)
	}
	return string(want) == string(tx.MsgTx.TxIn[index].UnlockingScript)
}

func demoFee(tx *TxBuilder) (uint64, uint64) {
	in, out := uint64(0), uint64(0)
	for _, i := range tx.Inputs {
		in += i.Value
	}
	for _, o := range tx.MsgTx.TxOut {
		out += o.Value
	}
	return in - out, EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate))
}
'''
SEEDS = [
 dict(id='C10-signed-inputs-kept', property='C10',
  needs='an input that carries an unlocking script from an earlier signing, and outputs changed since',
  what='inputs that already have an unlocking script are not signed again after the outputs changed',
  edits=[('sign.go', '''		for index, _ := range tx.Inputs {
			signKeys, err := tx.signInput(index, keys, shc)
			if err != nil {
				if errors.Cause(err) == ErrMissingPrivateKey {
					missingKey = true
''', '''		for index, _ := range tx.Inputs {
			if attempt == 3 && len(tx.MsgTx.TxIn[index].UnlockingScript) > 106 {
				continue
			}
			signKeys, err := tx.signInput(index, keys, shc)
			if err != nil {
				if errors.Cause(err) == ErrMissingPrivateKey {
					missingKey = true
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(0.5, 0.25)
	k := demoKey(1)
	for n := byte(0); n < 40; n++ {
		tx.MsgTx.LockTime = uint32(n)
		tx.Inputs, tx.MsgTx.TxIn, tx.Outputs, tx.MsgTx.TxOut = nil, nil, nil, nil
		demoIn(tx, k, 100000)
		demoOut(tx, demoKey(2), 40000, false)
		demoOut(tx, demoKey(3), 50000, true)
		for i := 0; i < 2; i++ {
			if _, err := tx.Sign([]bitcoin.Key{k}); err != nil {
				t.Fatal(err)
			}
			if !demoSigned(tx, 0, k) {
				t.Fatalf("not signed over the final transaction")
			}
			tx.MsgTx.TxOut[0].Value -= 1000
		}
	}
}
'''),
 dict(id='C10-missing-key-reset', property='C10',
  needs='two inputs of which only the second one\'s key is supplied',
  what='a missing key is forgotten when a later input is signed, so an unsigned input is reported as success',
  edits=[('sign.go', '''			signKeys, err := tx.signInput(index, keys, shc)
			if err != nil {
				if errors.Cause(err) == ErrMissingPrivateKey {
					missingKey = true
					continue
				}
				return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
			}

			result = appendKeys(result, signKeys...)
		}

		// Check fee''', '''			signKeys, err := tx.signInput(index, keys, shc)
			missingKey = err != nil
			if err != nil {
				if errors.Cause(err) == ErrMissingPrivateKey {
					continue
				}
				return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
			}

			result = appendKeys(result, signKeys...)
		}

		// Check fee''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(0.5, 0.25)
	demoIn(tx, demoKey(1), 100000)
	demoIn(tx, demoKey(2), 100000)
	demoOut(tx, demoKey(2), 40000, false)
	demoOut(tx, demoKey(3), 150000, true)
	_, err := tx.Sign([]bitcoin.Key{demoKey(2)})
	if err == nil && (!demoSigned(tx, 0, demoKey(1)) || !demoSigned(tx, 1, demoKey(2))) {
		t.Fatalf("success with an unsigned input")
	}
}
'''),
 dict(id='C10-adjust-after-signing', property='C10',
  needs='change that has room for a fee correction within five percent after signing',
  what='a fee within five percent of the target is corrected after the inputs were signed',
  edits=[('sign.go', '''				// Current fee is within 5% of target fee or within 3 satoshis
''', '''				// Current fee is within 5% of target fee or within 3 satoshis
				if feeDiff > 2 {
					tx.AdjustFee(-1)
				}
''')],
  demo=HDR + '''
func TestDemo(t *testing.T) {
	k := demoKey(1)
	for n := byte(0); n < 80; n++ {
		tx := NewTxBuilder(1.0, 0.25)
		tx.MsgTx.LockTime = uint32(n)
		for i := 0; i < 3; i++ {
			demoIn(tx, k, 100000)
		}
		demoOut(tx, demoKey(2), 40000, false)
		demoOut(tx, demoKey(3), 250000, true)
		if _, err := tx.Sign([]bitcoin.Key{k}); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 3; i++ {
			if !demoSigned(tx, i, k) {
				t.Fatalf("input %d is not signed over the final transaction", i)
			}
		}
	}
}
'''),
]
