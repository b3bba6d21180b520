package txbuilder

import "math"

func init() {
	vrProps["C06"] = vrAdjust
	vrProps["C07"] = vrCalc
}

func vrOutTotal(s vrTx) uint64 {
	n := uint64(0)
	for _, o := range s.outs {
		n += o.value
	}
	return n
}

func vrFirstRem(s vrTx) int {
	for i, o := range s.outs {
		if o.rem {
			return i
		}
	}
	return -1
}

// vrCost is the fee of an output and of spending it.
func vrCost(script string, rate float32) uint64 {
	n := vrFee(vrOutSize(script), rate)
	if s, ok := vrUnlock([]byte(script)); ok {
		n += vrFee(vrInSize(s), rate)
	}
	return n
}

// adjusted checks the state after the fee was to rise by amount.
func (v *vr) adjusted(tx *TxBuilder, before vrTx, est uint64, amount int64, err error) {
	after := vrSnap(tx)
	v.logf("after (error %v):\n%s", err, after)
	v.check(after.nin == len(after.ins) && after.nout == len(after.outs), "records no longer paired")
	v.check(before.insEqual(after) && before.rest == after.rest, "an input or a setting changed")
	c := vrFirstRem(before)
	want := before.clone()
	if err != nil {
		if c >= 0 && !want.outsEqual(after) {
			want.outs[c].value -= uint64(amount)
		}
		v.check(want.outsEqual(after), "outputs changed although it failed")
		if amount > 0 {
			v.check(vrIs(err, ErrInsufficientValue), "raising the fee failed with %v", err)
			v.check(c < 0 || before.outs[c].value < uint64(amount)+vrCost(before.outs[c].script, tx.FeeRate), "enough change, but it failed with %v", err)
		} else {
			v.check(c < 0 && amount < 0, "failed with %v", err)
			v.check(len(tx.ChangeScript) > 0 || vrIs(err, ErrChangeAddressNeeded), "no change address, but it failed with %v", err)
		}
		return
	}
	v.check(int64(vrOutTotal(after)) <= int64(vrOutTotal(before))-amount, "the fee went up by %d instead of %d", int64(vrOutTotal(before)-vrOutTotal(after)), amount)
	switch {
	case amount == 0:
	case c >= 0 && len(after.outs) == len(before.outs)-1:
		v.check(amount > 0 && before.outs[c].fee, "change output removed")
		v.check(before.outs[c].value-uint64(amount) < vrCost(before.outs[c].script, tx.FeeRate), "change worth more than its cost removed")
		want.outs = append(want.outs[:c], want.outs[c+1:]...)
		want.nout--
	case c >= 0:
		want.outs[c].value -= uint64(amount)
	case amount > 0:
		v.fail("the fee was raised without change to take it from")
	case len(after.outs) == len(before.outs)+1:
		fee := vrFee(est+vrOutSize(string(tx.ChangeScript))+vrVarInt(uint64(len(before.outs)+1))-vrVarInt(uint64(len(before.outs))), tx.FeeRate) - vrFee(est, tx.FeeRate)
		want.outs = append(want.outs, vrOut{value: uint64(-amount) - fee, script: string(tx.ChangeScript), rem: true, fee: true, key: tx.ChangeKeyID})
		want.nout++
		v.check(len(tx.ChangeScript) > 0 && uint64(-amount) > fee, "change output added")
	case len(tx.ChangeScript) > 0:
		fee := vrFee(est+vrOutSize(string(tx.ChangeScript))+vrVarInt(uint64(len(before.outs)+1))-vrVarInt(uint64(len(before.outs))), tx.FeeRate) - vrFee(est, tx.FeeRate)
		v.check(uint64(-amount) <= fee+vrCost(string(tx.ChangeScript), tx.FeeRate), "%d left to the fee, enough for change", -amount)
	}
	if !want.outsEqual(after) {
		v.logf("expected:\n%s", want)
		v.fail("wrong outputs")
	}
}

func vrAdjust(v *vr) {
	tx := v.builder(3, 5)
	if v.coin(0.3) {
		v.specials(tx)
	}
	if v.coin(0.2) && len(tx.ChangeScript) > 0 {
		tx.ChangeScript = v.script()
	}
	before := vrSnap(tx)
	amount := int64(v.value())
	if c := vrFirstRem(before); c >= 0 && v.coin(0.6) {
		switch v.n(3) {
		case 0:
			amount = int64(before.outs[c].value)
		case 1:
			amount = int64(before.outs[c].value) - int64(vrCost(before.outs[c].script, tx.FeeRate))
		case 2:
			amount = int64(v.r.Int63n(int64(before.outs[c].value) + 2))
		}
		amount += int64(v.n(5)) - 2
	} else if v.coin(0.5) {
		amount = int64(vrCost(string(tx.ChangeScript), tx.FeeRate)+vrFee(vrOutSize(string(tx.ChangeScript)), tx.FeeRate)) + int64(v.n(7)) - 3
	}
	if v.coin(0.5) {
		amount = -amount
	}
	v.logf("builder:\n%s\nAdjustFee(%d)", before, amount)
	est := vrEstSize(tx)
	_, err := tx.AdjustFee(amount)
	v.adjusted(tx, before, est, amount, err)
}

func vrCalc(v *vr) {
	tx := v.builder(4, 4)
	if v.coin(0.3) {
		v.specials(tx)
	}
	before := vrSnap(tx)
	est := vrEstSize(tx)
	in, out := vrInValue(tx), vrOutTotal(before)
	if len(tx.Inputs) > 0 && v.coin(0.8) { // make the fee close to what it should be
		d := vrFee(est, tx.FeeRate) + uint64(v.n(800))
		if v.coin(0.3) {
			d = uint64(math.Max(0, float64(vrFee(est, tx.FeeRate))+float64(v.n(7))-3))
		}
		for i := range tx.Inputs {
			if tx.Inputs[i].Value > 0 && in < out+d {
				tx.Inputs[i].Value += out + d - in
				break
			}
			if tx.Inputs[i].Value > in-out-d && in > out+d {
				tx.Inputs[i].Value -= in - out - d
				break
			}
		}
		before = vrSnap(tx)
		in = vrInValue(tx)
	}
	target := int64(vrFee(est, tx.FeeRate))
	zero := v.coin(0.3)
	var err error
	if zero {
		target = 0
		v.logf("builder:\n%s\nZeroizeFee()", before)
		err = tx.ZeroizeFee()
	} else {
		v.logf("builder:\n%s\nCalculateFee()", before)
		err = tx.CalculateFee()
	}
	v.adjusted(tx, before, est, target-int64(in-out), err)
	if err == nil {
		fee := int64(in - vrOutTotal(vrSnap(tx)))
		v.check(fee >= target, "fee is %d and should be at least %d", fee, target)
	}
}
