package txbuilder

import (
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

func init() {
	vrProps["C01"] = func(v *vr) { vrInputs(v, true) }
	vrProps["C02"] = func(v *vr) { vrInputs(v, false) }
	vrProps["C03"] = func(v *vr) { vrOutputs(v, true) }
	vrProps["C04"] = func(v *vr) { vrOutputs(v, false) }
}

func (v *vr) pickUTXO(tx *TxBuilder, s vrTx) bitcoin.UTXO {
	u := v.utxo()
	if len(s.ins) > 0 && v.coin(0.3) {
		x := s.ins[v.n(len(s.ins))]
		u.Hash, u.Index = x.hash, x.index
		switch v.n(5) {
		case 0:
			u.Index++
		case 1:
			u.Hash[v.n(32)] ^= 1
		}
	}
	return u
}

func vrUsed(s vrTx, h bitcoin.Hash32, i uint32, except int) bool {
	for k, x := range s.ins {
		if k != except && x.hash == h && x.index == i {
			return true
		}
	}
	return false
}

func vrInputs(v *vr, exact bool) {
	if v.coin(0.25) {
		vrFund(v, false)
		return
	}
	tx := v.builder(6, 3)
	v.logf("start:\n%s", vrSnap(tx))
	ops := 1 + v.n(8)
	for o := 0; o < ops; o++ {
		before := vrSnap(tx)
		want := before.clone()
		u := v.pickUTXO(tx, before)
		in := vrIn{hash: u.Hash, index: u.Index, seq: wire.MaxTxInSequenceNum, script: string(u.LockingScript), value: u.Value, key: u.KeyID}
		var err error
		dup := vrUsed(before, u.Hash, u.Index, -1)
		expErr, expDup := dup, dup
		idx := v.n(len(before.ins) + 3)
		op := v.n(6)
		switch op {
		case 0:
			v.logf("AddInputUTXO(%x:%d value %d key %q script %x)", u.Hash[:], u.Index, u.Value, u.KeyID, []byte(u.LockingScript))
			err = tx.AddInputUTXO(u)
			want.ins = append(want.ins, in)
			want.nin++
		case 1:
			v.logf("AddInput(%x:%d value %d script %x)", u.Hash[:], u.Index, u.Value, []byte(u.LockingScript))
			err = tx.AddInput(wire.OutPoint{Hash: u.Hash, Index: u.Index}, u.LockingScript, u.Value)
			in.key = ""
			want.ins = append(want.ins, in)
			want.nin++
		case 2:
			v.logf("InsertInput(%d, %x:%d value %d key %q)", idx, u.Hash[:], u.Index, u.Value, u.KeyID)
			err = tx.InsertInput(idx, u)
			if idx > len(before.ins) {
				expErr, expDup = true, false
			} else {
				want.ins = append(append(append([]vrIn{}, before.ins[:idx]...), in), before.ins[idx:]...)
				want.nin++
			}
		case 3:
			v.logf("UpdateInputUTXO(%d, %x:%d value %d key %q)", idx, u.Hash[:], u.Index, u.Value, u.KeyID)
			err = tx.UpdateInputUTXO(idx, u)
			if idx >= len(before.ins) {
				expErr, expDup = true, false
			} else {
				expDup = vrUsed(before, u.Hash, u.Index, idx)
				expErr = expDup
				in.seq, in.unlock = before.ins[idx].seq, before.ins[idx].unlock
				want.ins[idx] = in
			}
		case 4:
			v.logf("RemoveInput(%d)", idx)
			err = tx.RemoveInput(idx)
			expErr, expDup = idx >= len(before.ins), false
			if !expErr {
				want.ins = append(append([]vrIn{}, before.ins[:idx]...), before.ins[idx+1:]...)
				want.nin--
			}
		case 5:
			if exact {
				continue
			}
			var us []bitcoin.UTXO
			for k := v.n(6); k > 0; k-- {
				us = append(us, v.pickUTXO(tx, before))
			}
			if len(us) > 1 && v.coin(0.5) {
				us = append(us, us[v.n(len(us))])
			}
			v.logf("funding with %d utxos", len(us))
			if v.coin(0.5) {
				tx.AddFunding(us)
			} else {
				ra, _ := v.key().RawAddress()
				tx.AddFundingBreakChange(us, 1000+uint64(v.n(5000)), []AddressKeyID{{Address: ra}})
			}
			after := vrSnap(tx)
			v.check(!vrHasDup(after), "funding made a duplicate input")
			continue
		}
		after := vrSnap(tx)
		if exact {
			v.check((err != nil) == expErr, "operation returned error %v", err)
			if expErr {
				want = before
			}
			v.same(want, after, "input edit")
		} else {
			v.check(!vrHasDup(after), "two inputs spend the same outpoint")
			v.check((err != nil) == expErr, "operation returned error %v", err)
			if expDup {
				v.check(vrIs(err, ErrDuplicateInput), "wrong error for duplicate: %v", err)
			}
		}
	}
}

func vrHasDup(s vrTx) bool {
	for i := range s.ins {
		if vrUsed(s, s.ins[i].hash, s.ins[i].index, i) {
			return true
		}
	}
	return false
}

func vrUnspendable(s bitcoin.Script) bool {
	return (len(s) > 0 && s[0] == bitcoin.OP_RETURN) || (len(s) > 1 && s[0] == bitcoin.OP_FALSE && s[1] == bitcoin.OP_RETURN)
}

func vrOutputs(v *vr, exact bool) {
	tx := v.builder(3, 6)
	v.logf("start:\n%s", vrSnap(tx))
	ops := 1 + v.n(8)
	for o := 0; o < ops; o++ {
		before := vrSnap(tx)
		want := before.clone()
		script := v.script()
		if v.coin(0.1) {
			script = v.bytes(240 + v.n(30))
		}
		value := v.value()
		size := vrOutSize(string(script))
		fee, dust := vrFee(size, tx.FeeRate), vrDust(size, tx.DustFeeRate)
		switch v.n(5) {
		case 0:
			value = fee
		case 1:
			if fee > 0 {
				value = fee - 1
			}
		}
		rem, isDust := v.coin(0.4), v.coin(0.3)
		out := vrOut{value: value, script: string(script), rem: rem, dust: isDust}
		if isDust {
			out.value = dust
		}
		below := !isDust && value < fee && !(tx.SendMax && rem) && !vrUnspendable(script)
		idx := v.n(len(before.outs) + 3)
		var err error
		expErr := false
		var expIs error
		insert := func(i int) {
			if i > len(before.outs) {
				expErr = true
				return
			}
			if below {
				expErr, expIs = true, ErrBelowDustValue
				return
			}
			want.outs = append(append(append([]vrOut{}, before.outs[:i]...), out), before.outs[i:]...)
			want.nout++
		}
		curDust := uint64(0)
		if idx < len(before.outs) {
			curDust = vrDust(vrOutSize(before.outs[idx].script), tx.DustFeeRate)
		} else {
			expErr = true
		}
		if v.coin(0.3) && curDust > 0 {
			value = curDust - uint64(v.n(2))
			out.value = value
			if isDust {
				out.value = dust
			}
			below = !isDust && value < fee && !(tx.SendMax && rem) && !vrUnspendable(script)
		}
		switch v.n(12) {
		case 0, 1:
			expErr = false
			v.logf("AddOutput(%x, %d, %v, %v)", []byte(script), value, rem, isDust)
			err = tx.AddOutput(script, value, rem, isDust)
			insert(len(before.outs))
		case 2:
			expErr = false
			v.logf("InsertOutput(%d, %x, %d, %v, %v)", idx, []byte(script), value, rem, isDust)
			err = tx.InsertOutput(idx, script, value, rem, isDust)
			insert(idx)
		case 3:
			v.logf("RemoveOutput(%d)", idx)
			err = tx.RemoveOutput(idx)
			if !expErr {
				want.outs = append(append([]vrOut{}, before.outs[:idx]...), before.outs[idx+1:]...)
				want.nout--
			}
		case 4:
			v.logf("AddValueToOutput(%d, %d)", idx, value)
			err = tx.AddValueToOutput(uint32(idx), value)
			if !expErr {
				if want.outs[idx].dust {
					if value < curDust {
						expErr, expIs = true, ErrBelowDustValue
					} else {
						want.outs[idx].dust, want.outs[idx].value = false, value
					}
				} else {
					want.outs[idx].value += value
				}
			}
		case 5:
			if idx < len(before.outs) && v.coin(0.6) {
				value = before.outs[idx].value - curDust + uint64(v.n(3)) - 1
			}
			v.logf("SubtractValueFromOutput(%d, %d) dust %d", idx, value, curDust)
			err = tx.SubtractValueFromOutput(uint32(idx), value)
			if !expErr {
				b := before.outs[idx].value
				if b < curDust || b-curDust < value {
					expErr = true
				} else {
					want.outs[idx].value -= value
				}
			}
		case 6:
			v.logf("SetOutputToDust(%d)", idx)
			err = tx.SetOutputToDust(uint32(idx))
			if !expErr {
				want.outs[idx].dust, want.outs[idx].value = true, curDust
			}
		case 7:
			v.logf("UpdateOutput(%d, %x)", idx, []byte(script))
			err = tx.UpdateOutput(uint32(idx), script)
			if !expErr {
				want.outs[idx].script = string(script)
			}
		case 8:
			if len(before.outs) > 0 && v.coin(0.7) {
				script = bitcoin.Script(before.outs[v.n(len(before.outs))].script)
			}
			id := v.keyID()
			v.logf("SetChangeLockingScript(%x, %q)", []byte(script), id)
			err = tx.SetChangeLockingScript(script, id)
			expErr = false
			for i := range want.outs {
				if want.outs[i].script == string(script) {
					want.outs[i].rem, want.outs[i].key = true, id
				}
			}
			v.check(string(tx.ChangeScript) == string(script) && tx.ChangeKeyID == id, "change script not set")
			want.rest = vrSnap(tx).rest
		case 9:
			var outs []*Output
			expErr = false
			for k := v.n(4); k > 0; k-- {
				x := &Output{TxOut: wire.TxOut{Value: v.value(), LockingScript: v.script()}, Supplement: OutputSupplement{IsRemainder: v.coin(0.5), IsDust: v.coin(0.5), addedForFee: v.coin(0.5), KeyID: v.keyID()}}
				outs = append(outs, x)
				want.outs = append(want.outs, vrOut{x.TxOut.Value, string(x.TxOut.LockingScript), x.Supplement.IsRemainder, x.Supplement.IsDust, x.Supplement.addedForFee, x.Supplement.KeyID})
				want.nout++
			}
			v.logf("AddOutputs(%d outputs)", len(outs))
			tx.AddOutputs(outs)
		case 10:
			expErr = false
			k := v.key()
			ra, _ := k.RawAddress()
			script = vrP2PKH(k)
			fee, dust = vrFee(vrOutSize(string(script)), tx.FeeRate), vrDust(vrOutSize(string(script)), tx.DustFeeRate)
			out.script = string(script)
			switch v.n(3) {
			case 0:
				v.logf("AddPaymentOutput(%d, %v)", value, rem)
				err = tx.AddPaymentOutput(ra, value, rem)
				out.value, out.dust = value, false
				below = value < fee && !(tx.SendMax && rem)
			case 1:
				v.logf("AddDustOutput(%v)", rem)
				err = tx.AddDustOutput(ra, rem)
				out.value, out.dust = dust, true
				below = false
			case 2:
				v.logf("AddMaxOutput")
				err = tx.AddMaxOutput(ra)
				out.value, out.dust, out.rem = 0, false, true
				below = false
				want.rest = vrSnap(tx).rest
				v.check(tx.SendMax, "AddMaxOutput does not set SendMax")
			}
			insert(len(before.outs))
		case 11:
			expErr = false
			v.logf("AddMaxScriptOutput(%x)", []byte(script))
			err = tx.AddMaxScriptOutput(script)
			v.check(tx.SendMax, "AddMaxScriptOutput does not set SendMax")
			want.rest = vrSnap(tx).rest
			out.value, out.dust, out.rem = 0, false, true
			below = false
			insert(len(before.outs))
		}
		if err != nil {
			v.logf("  -> error %v", err)
		}
		v.check((err != nil) == expErr, "operation returned error %v, expected error: %v", err, expErr)
		if expIs != nil {
			v.check(vrIs(err, expIs), "wrong error %v", err)
		}
		if expErr {
			want = before
		}
		v.same(want, vrSnap(tx), "output edit")
	}
}
