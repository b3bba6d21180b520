HDR = '''
package fees

import (
	"testing"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

var _ = wire.MaxTxInSequenceNum
var _ bitcoin.Script
var _ = errors.Cause
'''
SEEDS = [
 dict(id='C19-dust-of-rounded', property='C19', pkg='fees',
  needs='a dust fee rate below one that does not divide the size evenly',
  what='the dust limit multiplies the rounded up fee of a single size by three instead of rounding the fee of three sizes',
  edits=[('fees/fees.go', '''	dust := EstimateFeeValue(((outputSize + DustInputSize) * 3), dustFeeRate)
''', '''	dust := 3 * EstimateFeeValue(outputSize+DustInputSize, dustFeeRate)
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	if d := DustLimit(34, 0.05); d != 28 { // 546 * 0.05 = 27.3
		t.Fatalf("dust %d", d)
	}
}
'''),
 dict(id='C19-first-error-wins', property='C19', pkg='fees',
  needs='an input with known value after one whose spent output is not available',
  what='an unavailable spent output is treated as an output of unknown value, so its error turns into missing unlocking data',
  edits=[('fees/fees.go', '''		inputOutput, err := tx.InputOutput(inputIndex)
		if err != nil {
			return 0, errors.Wrapf(err, "input %d output", inputIndex)
		}

		inputValue, err := InputValue(txin, inputOutput)
''', '''		inputOutput, err := tx.InputOutput(inputIndex)
		if err != nil {
			inputOutput = &wire.TxOut{} // value might be in the unlocking script
		}

		inputValue, err := InputValue(txin, inputOutput)
''')],
  demo=HDR+'''
type demoTx struct{ tx *wire.MsgTx }

var errDemo = errors.New("demo")

func (d *demoTx) GetMsgTx() *wire.MsgTx                      { return d.tx }
func (d *demoTx) InputOutput(i int) (*wire.TxOut, error) { return nil, errDemo }

func TestDemo(t *testing.T) {
	d := &demoTx{tx: &wire.MsgTx{TxIn: []*wire.TxIn{{}}}}
	if _, err := InputsValue(d); errors.Cause(err) != errDemo {
		t.Fatalf("error %v", err)
	}
}
'''),
]
