package txbuilder

import (
	"bytes"

	"github.com/tokenized/pkg/bitcoin"
)

func init() {
	vrProps["C10"] = vrSign
}

// vrSign signs with fee adjustment.
func vrSign(v *vr) {
	tx := v.signable()
	for i := range tx.Inputs {
		if tx.Inputs[i].Value == 0 {
			tx.Inputs[i].Value = 1 + uint64(v.n(1000))
		}
		if v.coin(0.7) && !vrSingle(tx.Inputs[i].LockingScript) {
			tx.Inputs[i].LockingScript = vrP2PKH(v.key())
		}
	}
	in, out := vrInValue(tx), vrOutTotal(vrSnap(tx))
	if len(tx.Inputs) > 0 && v.coin(0.9) { // make the fee close to what it should be
		d := vrFee(vrEstSize(tx), tx.FeeRate)
		switch v.n(3) {
		case 0:
			d += uint64(v.n(1000))
		case 1:
			d += vrCost(string(tx.ChangeScript), tx.FeeRate) + uint64(v.n(60))
		default:
			d += uint64(v.n(9))
		}
		if in < out+d {
			tx.Inputs[0].Value += out + d - in
		} else if tx.Inputs[0].Value > in-out-d {
			tx.Inputs[0].Value -= in - out - d
		}
	}
	before := vrSnap(tx)
	v.logf("before:\n%s", before)
	var keys []bitcoin.Key
	for _, k := range v.keys {
		if v.coin(0.9) {
			keys = append(keys, k)
			v.logf("key %x", []byte(vrP2PKH(k)))
		}
	}
	used, err := tx.Sign(keys)
	after := vrSnap(tx)
	v.logf("error %v after:\n%s", err, after)
	for _, u := range used {
		ok := false
		for _, k := range keys {
			ok = ok || k.Equal(u)
		}
		v.check(ok, "a key returned was not supplied")
	}
	v.check(after.nin == len(after.ins) && after.nout == len(after.outs), "records no longer paired")
	want := before.clone()
	for i := range want.ins {
		if i < len(after.ins) {
			want.ins[i].unlock = after.ins[i].unlock
		}
	}
	v.check(want.insEqual(after) && want.rest == after.rest, "an outpoint, sequence, record or setting changed")
	kept := func(s vrTx) vrTx {
		var r vrTx
		for _, o := range s.outs {
			if !o.rem {
				r.outs = append(r.outs, o)
			}
		}
		return r
	}
	v.check(kept(before).outsEqual(kept(after)), "an output that is not change changed")
	if err != nil {
		return
	}
	var b bytes.Buffer
	tx.MsgTx.Serialize(&b)
	need := vrFee(uint64(b.Len()), tx.FeeRate)
	fee := int64(vrInValue(tx)) - int64(vrOutTotal(after))
	v.check(fee >= int64(need), "fee of %d for %d bytes, %d needed", fee, b.Len(), need)
	for i := range after.ins {
		script := []byte(after.ins[i].script)
		if !vrSingle(script) {
			continue
		}
		ok := false
		for _, k := range keys {
			ok = ok || vrMatch(k, script) && after.ins[i].unlock == string(vrUnlockBy(k, tx.MsgTx, i, script, before.ins[i].value))
		}
		v.check(ok, "input %d is not signed over the final transaction", i)
	}
}
