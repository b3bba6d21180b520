HDR = '''
package txbuilder

import (
	"bytes"
	"testing"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
)

var _ = bytes.Equal
var _ = errors.Cause

func demoKey(t *testing.T) bitcoin.Key {
	k, err := bitcoin.GenerateKey(bitcoin.MainNet)
	if err != nil {
		t.Fatal(err)
	}
	return k
}

func demoScript(t *testing.T, k bitcoin.Key) bitcoin.Script {
	s, err := k.LockingScript()
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func demoBuilder(t *testing.T, keys ...bitcoin.Key) *TxBuilder {
	tx := NewTxBuilder(0.5, 0.25)
	for i, k := range keys {
		u := bitcoin.UTXO{Index: uint32(i), Value: 5000, LockingScript: demoScript(t, k)}
		u.Hash[0] = 7
		if err := tx.AddInputUTXO(u); err != nil {
			t.Fatal(err)
		}
	}
	if err := tx.AddOutput(demoScript(t, keys[0]), 1000, false, false); err != nil {
		t.Fatal(err)
	}
	return tx
}
'''
SEEDS = [
 dict(id='C12-missing-stops', property='C12',
  needs='an input without its key before one whose key is supplied',
  what='signing stops at the first input with a missing key so later inputs stay unsigned',
  edits=[('sign.go', '''		signKeys, err := tx.signInput(index, keys, shc)
		if err != nil {
			if errors.Cause(err) == ErrMissingPrivateKey {
				missingKey = true
				continue
			}
			return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
		}

		result = appendKeys(result, signKeys...)
	}

	if missingKey {
		return result, ErrMissingPrivateKey
	}
	return result, nil
}

func appendKeys''', '''		signKeys, err := tx.signInput(index, keys, shc)
		if err != nil {
			if errors.Cause(err) == ErrMissingPrivateKey {
				missingKey = true
				break
			}
			return nil, errors.Wrap(err, fmt.Sprintf("sign input %d", index))
		}

		result = appendKeys(result, signKeys...)
	}

	if missingKey {
		return result, ErrMissingPrivateKey
	}
	return result, nil
}

func appendKeys''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	a, b := demoKey(t), demoKey(t)
	tx := demoBuilder(t, a, b)
	_, err := tx.SignOnly([]bitcoin.Key{b})
	if errors.Cause(err) != ErrMissingPrivateKey {
		t.Fatal(err)
	}
	if tx.InputIsSigned(0) || !tx.InputIsSigned(1) {
		t.Fatal("the input with a key is not signed")
	}
}
'''),
 dict(id='C12-resign-short', property='C12',
  needs='an input already unlocked by a script shorter than a signature',
  what='short unlocking scripts are treated as unsigned and replaced',
  edits=[('sign.go', '''		if len(tx.MsgTx.TxIn[index].UnlockingScript) > 0 {
			continue // already signed
		}
''', '''		if len(tx.MsgTx.TxIn[index].UnlockingScript) > 70 {
			continue // already signed
		}
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	a, b := demoKey(t), demoKey(t)
	tx := demoBuilder(t, a, b)
	tx.MsgTx.TxIn[0].UnlockingScript = bitcoin.Script{1, 2}
	if _, err := tx.SignOnly([]bitcoin.Key{a, b}); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(tx.MsgTx.TxIn[0].UnlockingScript, []byte{1, 2}) {
		t.Fatal("a signed input was changed")
	}
}
'''),
 dict(id='C12-p2pk-script', property='C12',
  needs='a P2PK input that is not the first one, with another value',
  what='a P2PK input is signed over the value of the first input',
  edits=[('sign.go', '''	value := tx.Inputs[index].Value

	if lockingScript.IsP2PKH() {
''', '''	value := tx.Inputs[index].Value
	first := tx.Inputs[0].Value

	if lockingScript.IsP2PKH() {
'''), ('sign.go', '''			unlockingScript, err := P2PKUnlockingScript(key, tx.MsgTx, index, lockingScript,
				value, SigHashAll+SigHashForkID, &shc)
''', '''			unlockingScript, err := P2PKUnlockingScript(key, tx.MsgTx, index, lockingScript,
				first, SigHashAll+SigHashForkID, &shc)
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	a, b := demoKey(t), demoKey(t)
	tx := demoBuilder(t, a, b)
	pub := b.PublicKey().Bytes()
	tx.Inputs[1].LockingScript = append(append(bitcoin.Script{byte(len(pub))}, pub...), bitcoin.OP_CHECKSIG)
	tx.Inputs[1].Value = 777
	want, err := P2PKUnlockingScript(b, tx.MsgTx, 1, tx.Inputs[1].LockingScript, 777, SigHashAll+SigHashForkID, &SigHashCache{})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := tx.SignOnly([]bitcoin.Key{a, b}); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(tx.MsgTx.TxIn[1].UnlockingScript, want) {
		t.Fatal("the signature is not over the value of the input")
	}
}
'''),
]
