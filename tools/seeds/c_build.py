HDR = '''
package txbuilder

import (
	"bytes"
	"testing"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

var _ = bytes.Equal
var _ = errors.Cause
var _ = wire.MaxTxInSequenceNum
var _ bitcoin.Script
'''
SEEDS = [
 dict(id='C20-missing-forgotten', property='C20',
  needs='a wire transaction whose last input is supplied while an earlier one is not',
  what='the missing-input error of an earlier input is forgotten when a later input is found among the parents',
  edits=[('txbuilder.go', '''				found = true
				break
			}
		}
		if !found {
			missingErr = ErrMissingInputData
		}
	}

	// Setup outputs
	result.Outputs = make([]*OutputSupplement, len(result.MsgTx.TxOut))
	for i, _ := range result.Outputs {
		result.Outputs[i] = &OutputSupplement{}
	}

	return &result, missingErr
}

// NewTxBuilderFromWireUTXOs''', '''				found = true
				missingErr = nil
				break
			}
		}
		if !found {
			missingErr = ErrMissingInputData
		}
	}

	// Setup outputs
	result.Outputs = make([]*OutputSupplement, len(result.MsgTx.TxOut))
	for i, _ := range result.Outputs {
		result.Outputs[i] = &OutputSupplement{}
	}

	return &result, missingErr
}

// NewTxBuilderFromWireUTXOs''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	p := wire.NewMsgTx(1)
	p.AddTxOut(wire.NewTxOut(700, bitcoin.Script{0x51}))
	c := wire.NewMsgTx(1)
	c.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&bitcoin.Hash32{9}, 0), nil))
	c.AddTxIn(wire.NewTxIn(wire.NewOutPoint(p.TxHash(), 0), nil))
	_, err := NewTxBuilderFromWire(1, 1, c, []*wire.MsgTx{p})
	if errors.Cause(err) != ErrMissingInputData {
		t.Errorf("error %v", err)
	}
}
'''),
 dict(id='C20-utxo-first-of-tx', property='C20',
  needs='two spendable outputs of the same parent transaction in the list, spent by different inputs',
  what='the search for an input stops at the first spendable output of its parent transaction even when the index differs, so the record of the second one is missing',
  edits=[('txbuilder.go', '''				found = true
				break
			}
		}
		if !found {
			missingErr = ErrMissingInputData
		}
	}

	// Setup outputs
	result.Outputs = make([]*OutputSupplement, len(result.MsgTx.TxOut))
	for i, _ := range result.Outputs {
		result.Outputs[i] = &OutputSupplement{}
	}

	return &result, missingErr
}

// Serialize''', '''				found = true
			}
			if utxo.Hash.Equal(&input.PreviousOutPoint.Hash) {
				break
			}
		}
		if !found {
			missingErr = ErrMissingInputData
		}
	}

	// Setup outputs
	result.Outputs = make([]*OutputSupplement, len(result.MsgTx.TxOut))
	for i, _ := range result.Outputs {
		result.Outputs[i] = &OutputSupplement{}
	}

	return &result, missingErr
}

// Serialize''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	h := bitcoin.Hash32{3}
	c := wire.NewMsgTx(1)
	c.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, 0), nil))
	c.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, 1), nil))
	us := []bitcoin.UTXO{{Hash: h, Index: 0, Value: 5, LockingScript: bitcoin.Script{0x51}}, {Hash: h, Index: 1, Value: 6, LockingScript: bitcoin.Script{0x52}}}
	tx, err := NewTxBuilderFromWireUTXOs(1, 1, c, us)
	if err != nil || tx.Inputs[1] == nil || tx.Inputs[1].Value != 6 {
		t.Errorf("error %v", err)
	}
}
'''),
 dict(id='C16-copy-change-script', property='C16',
  needs='a builder with a change script whose bytes are changed in place after copying',
  what='the copy keeps using the change script memory of the original',
  edits=[('txbuilder.go', '''		ChangeScript: tx.ChangeScript.Copy(),''', '''		ChangeScript: tx.ChangeScript[:len(tx.ChangeScript):len(tx.ChangeScript)],''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	tx.ChangeScript = bitcoin.Script{0x51, 0x52}
	c := tx.Copy()
	tx.ChangeScript[0] = 0x53
	if c.ChangeScript[0] != 0x51 {
		t.Errorf("copy changed with the original")
	}
}
'''),
 dict(id='C16-copy-same-record', property='C16',
  needs='a builder with two or more outputs, one of which is edited in the copy',
  what='output records that equal the previous one are shared between the positions of the copy, so editing one edits both',
  edits=[('txbuilder.go', '''		c := output.Copy()
		result.Outputs[i] = &c
''', '''		c := output.Copy()
		result.Outputs[i] = &c
		if i > 0 && *result.Outputs[i-1] == c {
			result.Outputs[i] = result.Outputs[i-1]
		}
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := NewTxBuilder(1, 1)
	for i := 0; i < 2; i++ {
		if err := tx.AddOutput(bitcoin.Script{0x51}, 5000, false, false); err != nil {
			t.Fatal(err)
		}
	}
	c := tx.Copy()
	c.Outputs[0].KeyID = "a"
	if c.Outputs[1].KeyID != "" {
		t.Errorf("records of the copy are shared")
	}
}
'''),
]
