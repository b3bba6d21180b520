package txbuilder

import (
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

func init() {
	vrProps["C08"] = func(v *vr) { vrFund(v, true) }
}

// vrFund adds funding.
func vrFund(v *vr, exact bool) {
	maxIn, maxOut := 4, 4
	tx := v.builder(maxIn, maxOut)
	if v.coin(0.4) {
		tx.MsgTx.TxOut, tx.Outputs = tx.MsgTx.TxOut[:v.n(len(tx.Outputs)+1)], tx.Outputs[:0:0]
		for range tx.MsgTx.TxOut {
			tx.Outputs = append(tx.Outputs, &OutputSupplement{})
		}
	}
	for i := range tx.Inputs {
		if v.coin(0.8) {
			tx.Inputs[i].Value = uint64(v.n(500))
		}
	}
	for _, o := range tx.MsgTx.TxOut {
		o.Value = uint64(v.n(5000))
	}
	p2pkh := vrP2PKH(v.key())
	many := v.coin(0.15)
	if many { // counts around those whose prefix grows
		for n := 249 + v.n(5); len(tx.Outputs) < n; {
			tx.Outputs = append(tx.Outputs, &OutputSupplement{})
			tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &wire.TxOut{Value: 1, LockingScript: p2pkh})
		}
	}
	if v.coin(0.1) {
		many = true
		for n := 249 + v.n(5); len(tx.Inputs) < n; {
			var h bitcoin.Hash32
			v.r.Read(h[:])
			tx.Inputs = append(tx.Inputs, &InputSupplement{LockingScript: p2pkh, Value: 1})
			tx.MsgTx.TxIn = append(tx.MsgTx.TxIn, wire.NewTxIn(&wire.OutPoint{Hash: h}, nil))
		}
	}
	before := vrSnap(tx)
	unique := true
	for k, x := range before.ins {
		unique = unique && !vrUsed(before, x.hash, x.index, k)
	}
	var utxos []bitcoin.UTXO
	for n := v.n(5); n > 0; n-- {
		u := v.pickUTXO(tx, before)
		if len(utxos) > 0 && v.coin(0.25) {
			u = utxos[v.n(len(utxos))]
		}
		if v.coin(0.85) {
			u.LockingScript = p2pkh
		}
		u.Value = uint64(v.n(3000))
		utxos = append(utxos, u)
	}
	if len(utxos) > 0 && v.coin(0.7) { // the last one just about completes it
		t := tx.Copy()
		for _, u := range utxos {
			t.AddInputUTXO(u)
		}
		need := vrOutTotal(before) + vrFee(vrEstSize(&t), tx.FeeRate)
		switch v.n(4) {
		case 0:
			need += vrCost(string(p2pkh), tx.FeeRate) + uint64(v.n(60))
		case 1:
			need += vrDust(34, tx.DustFeeRate) + vrFee(34, tx.FeeRate) + uint64(v.n(8))
		default:
			need += uint64(v.n(5))
			if need > 2 {
				need -= 2
			}
		}
		have := vrInValue(&t)
		last := &utxos[len(utxos)-1]
		if have < need {
			last.Value += need - have
		} else if last.Value > have-need {
			last.Value -= have - need
		}
	}
	if !many {
		v.logf("builder (send max %v):\n%s", tx.SendMax, before)
	} else {
		v.logf("builder (send max %v) with %d inputs worth %d and %d outputs worth %d", tx.SendMax, len(before.ins), vrInValue(tx), len(before.outs), vrOutTotal(before))
	}
	v.logf("fee rate %v change script %x", tx.FeeRate, []byte(tx.ChangeScript))
	known := true
	for _, u := range utxos {
		v.logf("utxo %x:%d value %d script %x", u.Hash[:], u.Index, u.Value, []byte(u.LockingScript))
		if _, err := InputSize(u.LockingScript); err != nil {
			known = false
		}
	}
	err := tx.AddFunding(utxos)
	after := vrSnap(tx)
	if !many {
		v.logf("error %v, after:\n%s", err, after)
	}
	v.check(after.nin == len(after.ins) && after.nout == len(after.outs), "records no longer paired")
	v.check(len(after.ins) >= len(before.ins), "an input was removed")
	for k, x := range before.ins {
		v.check(after.ins[k] == x, "input %d changed", k)
	}
	for k, x := range after.ins {
		v.check(!unique || !vrUsed(after, x.hash, x.index, k), "input %d is spent twice", k)
	}
	next := 0
	for k := len(before.ins); k < len(after.ins); k++ {
		found := false
		for ; next < len(utxos) && !found; next++ {
			u := utxos[next]
			found = after.ins[k] == (vrIn{hash: u.Hash, index: u.Index, seq: wire.MaxTxInSequenceNum, script: string(u.LockingScript), value: u.Value, key: u.KeyID})
		}
		v.check(found, "input %d is not the next of the utxos given", k)
	}
	if !exact {
		return
	}
	var kept []vrOut
	for _, o := range after.outs {
		if !o.rem {
			kept = append(kept, o)
		}
	}
	i := 0
	for k, o := range before.outs {
		if !o.rem {
			v.check(i < len(kept) && kept[i] == o, "output %d changed", k)
			i++
		}
	}
	v.check(i == len(kept), "an output that is not change was added")
	in, need := vrInValue(tx), vrOutTotal(after)+vrFee(vrEstSize(tx), tx.FeeRate)
	if err == nil {
		v.check(in >= need, "inputs are worth %d, outputs and estimated fee come to %d", in, need)
	} else if known && in < need {
		v.check(vrIs(err, ErrInsufficientValue), "not enough value, but it failed with %v", err)
	}
}
