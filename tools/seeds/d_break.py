HDR = '''
package txbuilder

import (
	"testing"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

var _ = wire.MaxTxInSequenceNum
var _ bitcoin.Script
'''
SCRIPT = '''
func demoScript(b byte) bitcoin.Script {
	s := bitcoin.Script{0x76, 0xa9, 0x14}
	for i := 0; i < 20; i++ {
		s = append(s, b+byte(i))
	}
	return append(s, 0x88, 0xac)
}
'''
SEEDS = [
 dict(id='C13-aborted-fee-lost', property='C13',
  needs='fees subtracted and a value that runs out between the fee of an output and the cost of spending it',
  what='the fee of an output that is not included in the end is not given back, so value disappears',
  edits=[('break_value.go', '''		outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)

		if subtractFee {
			if remaining <= outputFee {
				break // remaining amount is less than fee to include another output
			}
			remaining -= outputFee

			if remaining <= inputFee || remaining < breakValue {
				remaining += outputFee // abort adding this output, so add the fee for it back in
				break                  // remaining amount is less than dust required to include next address
			}
		} else if remaining <= inputFee || remaining < breakValue {
			break // remaining amount is less than dust required to include next address
		}

		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
		outputValue := breakValue * inc
		switch rand.Intn(exponent) {
		case 0: // *= 1
		case 1:
			outputValue *= 10
		case 2:
			outputValue *= 100
		case 3:
			outputValue *= 1000
		}

		if outputValue >= 5 && rand.Intn(2) == 1 {
			outputValue = outputValue - (outputValue / 10) +
				uint64(rand.Int63n(int64(outputValue/5)))
		}

		if outputValue > remaining {
			outputValue = remaining
		}

		remaining -= outputValue

		result = append(result, &Output{
			TxOut: wire.TxOut{
				Value:         outputValue,
				LockingScript: lockingScript,
			},
		})
''', '''		outputFee, inputFee, _ := OutputTotalCost(lockingScript, feeRate)

		if subtractFee {
			if remaining <= outputFee {
				break // remaining amount is less than fee to include another output
			}
			remaining -= outputFee

			if remaining <= inputFee {
				break // remaining amount is less than dust required to include next address
			}
			if remaining < breakValue {
				remaining += outputFee // abort adding this output, so add the fee for it back in
				break
			}
		} else if remaining <= inputFee || remaining < breakValue {
			break // remaining amount is less than dust required to include next address
		}

		inc := BreakIncrements[rand.Intn(len(BreakIncrements))]
		outputValue := breakValue * inc
		switch rand.Intn(exponent) {
		case 0: // *= 1
		case 1:
			outputValue *= 10
		case 2:
			outputValue *= 100
		case 3:
			outputValue *= 1000
		}

		if outputValue >= 5 && rand.Intn(2) == 1 {
			outputValue = outputValue - (outputValue / 10) +
				uint64(rand.Int63n(int64(outputValue/5)))
		}

		if outputValue > remaining {
			outputValue = remaining
		}

		remaining -= outputValue

		result = append(result, &Output{
			TxOut: wire.TxOut{
				Value:         outputValue,
				LockingScript: lockingScript,
			},
		})
''')],
  demo=HDR+SCRIPT+'''
func TestDemo(t *testing.T) {
	var scripts []bitcoin.Script
	for i := 0; i < 5; i++ {
		scripts = append(scripts, demoScript(byte(i)))
	}
	fee, _, _ := OutputTotalCost(scripts[0], 1.0)
	for value := uint64(200); value < 900; value++ {
		for n := 0; n < 20; n++ {
			os, err := BreakValueLockingScripts(value, 10, scripts, 1.0, 1.0, true, true)
			if err != nil {
				t.Fatal(err)
			}
			var total uint64
			for _, o := range os {
				total += o.TxOut.Value + fee
			}
			if len(os) > 0 && total != value {
				t.Fatalf("value %d became %d", value, total)
			}
		}
	}
}
'''),
 dict(id='C13-remainder-mark-kept', property='C13',
  needs='addresses, no fee subtracted, and a rest too small for another output',
  what='when the rest is added to the last output the remainder request is ignored and the output stays unmarked',
  edits=[('break_value.go', '''		} else if len(result) > 0 {
			// Add to last output
			result[len(result)-1].Supplement.IsRemainder = lastIsRemainder
			result[len(result)-1].TxOut.Value += remaining
		}
	} else {
		_, inputFee, _ := OutputTotalCost(lockingScript, feeRate)

		if remaining >= inputFee {
''', '''		} else if len(result) > 0 {
			// Add to last output
			result[len(result)-1].Supplement.IsRemainder = lastIsRemainder
			result[len(result)-1].TxOut.Value += remaining
		}
	} else {
		_, inputFee, _ := OutputTotalCost(lockingScript, feeRate)

		if len(result) > 0 && remaining == 0 && inputFee > 0 {
			// Nothing left over
		} else if remaining >= inputFee {
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	var as []AddressKeyID
	for i := 0; i < 6; i++ {
		k, err := bitcoin.GenerateKey(bitcoin.MainNet)
		if err != nil {
			t.Fatal(err)
		}
		ra, err := k.RawAddress()
		if err != nil {
			t.Fatal(err)
		}
		as = append(as, AddressKeyID{Address: ra})
	}
	for n := 0; n < 3000; n++ {
		os, err := BreakValue(uint64(1000+n), 500, as, 1.0, 1.0, true, false)
		if err != nil {
			t.Fatal(err)
		}
		rems := 0
		for _, o := range os {
			if o.Supplement.IsRemainder {
				rems++
			}
		}
		if len(os) > 0 && rems != 1 {
			t.Fatalf("%d remainders", rems)
		}
	}
}
'''),
 dict(id='C14-quantity-rounded', property='C14',
  needs='a random draw whose part is more than what is left, with a rest that is not a multiple of the break value',
  what='a part that would exceed the rest is cut down to a multiple of the break value while the whole rest is taken off',
  edits=[('break_value.go', '''		if quantity > remaining {
			quantity = remaining
		}

		remaining -= quantity
''', '''		if quantity > remaining {
			quantity = remaining - remaining%breakValue
			remaining = quantity
		}

		remaining -= quantity
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	for n := 0; n < 2000; n++ {
		value := uint64(10007 + n)
		qs, err := BreakQuantity(value, 100, 8)
		if err != nil {
			t.Fatal(err)
		}
		var total uint64
		for _, q := range qs {
			total += q
		}
		if total != value {
			t.Fatalf("%d became %d", value, total)
		}
	}
}
'''),
 dict(id='C15-after-last-record', property='C15',
  needs='randomizing after an index with at least two outputs behind it that have different records',
  what='the outputs behind the index take the record that was in place before the shuffle',
  edits=[('break_value.go', '''	tx.MsgTx.TxOut = tx.MsgTx.TxOut[:index+1]
	tx.Outputs = tx.Outputs[:index+1]

	rand.Shuffle(randLength, func(i, j int) {
		randOutputs[i], randOutputs[j] = randOutputs[j], randOutputs[i]
	})

	for i, _ := range randOutputs {
		tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &randOutputs[i].TxOut)
		tx.Outputs = append(tx.Outputs, &randOutputs[i].Supplement)
	}
''', '''	tx.MsgTx.TxOut = tx.MsgTx.TxOut[:index+1]
	supplements := tx.Outputs[index+1:]
	tx.Outputs = tx.Outputs[:index+1]

	rand.Shuffle(randLength, func(i, j int) {
		randOutputs[i], randOutputs[j] = randOutputs[j], randOutputs[i]
	})

	for i, _ := range randOutputs {
		tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &randOutputs[i].TxOut)
		tx.Outputs = append(tx.Outputs, supplements[i])
	}
''')],
  demo=HDR+SCRIPT+'''
func TestDemo(t *testing.T) {
	for n := 0; n < 50; n++ {
		tx := NewTxBuilder(0.5, 0.5)
		for i := 0; i < 6; i++ {
			tx.MsgTx.AddTxOut(&wire.TxOut{Value: uint64(i), LockingScript: demoScript(byte(i))})
			tx.Outputs = append(tx.Outputs, &OutputSupplement{KeyID: string(rune('a' + i))})
		}
		tx.RandomizeOutputsAfter(1)
		for i, o := range tx.MsgTx.TxOut {
			if tx.Outputs[i].KeyID != string(rune('a'+int(o.Value))) {
				t.Fatalf("output of value %d has record %s", o.Value, tx.Outputs[i].KeyID)
			}
		}
	}
}
'''),
]
