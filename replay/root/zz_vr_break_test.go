package txbuilder

import (
	"fmt"
	"sort"

	"github.com/tokenized/pkg/bitcoin"
)

func init() {
	vrProps["C13"] = vrBreakValue
	vrProps["C14"] = vrBreakQuantity
	vrProps["C15"] = vrRandomize
}

func (v *vr) breakAmounts() (uint64, uint64) {
	value, bv := v.value(), v.value()
	switch v.n(4) {
	case 0:
		value = bv*uint64(v.n(20)) + uint64(v.n(3))
	case 1:
		bv = uint64(v.n(2000))
		value = bv * uint64(v.n(3000))
	case 2:
		value = v.r.Uint64()
		bv = value / uint64(1+v.n(40))
	}
	if bv == 0 && v.coin(0.9) {
		bv = 1 + uint64(v.n(100))
	}
	if v.coin(0.1) {
		value = v.r.Uint64() | 1<<63
	}
	return value, bv
}

func (v *vr) address() bitcoin.RawAddress {
	for {
		k := v.key()
		ra, err := k.RawAddress()
		if v.coin(0.3) {
			ra, err = bitcoin.RawAddressFromLockingScript(v.script())
		}
		if err == nil {
			return ra
		}
	}
}

func vrBreakValue(v *vr) {
	value, bv := v.breakAmounts()
	rate := v.rate()
	rem, sub := v.coin(0.5), v.coin(0.6)
	n := v.n(7)
	var as []AddressKeyID
	var scripts []bitcoin.Script
	useScripts := v.coin(0.5)
	for i := 0; i < n; i++ {
		if useScripts {
			scripts = append(scripts, v.script())
			continue
		}
		a := AddressKeyID{Address: v.address(), KeyID: v.keyID()}
		s, err := a.Address.LockingScript()
		if err != nil {
			return
		}
		as, scripts = append(as, a), append(scripts, s)
	}
	if n > 0 && v.coin(0.3) { // near the edge of what the first destinations cost
		of, inf, _ := OutputTotalCost(scripts[0], rate)
		value = of*uint64(1+v.n(n)) + inf*uint64(v.n(3)) + uint64(v.n(3)) + bv*uint64(v.n(3))
		if value > 0 && v.coin(0.3) {
			value--
		}
	}
	v.logf("value %d break value %d fee rate %v last is remainder %v subtract fee %v", value, bv, rate, rem, sub)
	for i, s := range scripts {
		v.logf("destination %d %x", i, []byte(s))
	}
	var os []*Output
	var err error
	if useScripts {
		os, err = BreakValueLockingScripts(value, bv, scripts, 0, rate, rem, sub)
	} else {
		os, err = BreakValue(value, bv, as, 0, rate, rem, sub)
	}
	if bv == 0 || n == 0 {
		v.check(err != nil, "no error for a zero break value or no destination")
		return
	}
	v.check(err == nil, "error %v", err)
	if len(os) == 0 {
		of, inf, _ := vrOutSize(string(scripts[0])), uint64(0), 0
		cost := inf
		if sz, e := UnlockingScriptSize(scripts[0]); e == nil {
			cost = vrFee(40+vrVarInt(uint64(sz))+uint64(sz), rate)
		}
		if sub {
			cost += vrFee(of, rate)
		}
		v.check(value <= cost, "no outputs for a value of %d when an output costs %d", value, cost)
		return
	}
	v.check(len(os) <= n, "%d outputs for %d destinations", len(os), n)
	var want, got []string
	var total uint64
	rems := 0
	for i, o := range os {
		v.check(o != nil, "nil output")
		v.logf("output %d value %d %x", i, o.TxOut.Value, []byte(o.TxOut.LockingScript))
		total += o.TxOut.Value
		if sub {
			total += vrFee(vrOutSize(string(o.TxOut.LockingScript)), rate)
		}
		if o.Supplement.IsRemainder {
			rems++
		}
		v.check(!o.Supplement.IsDust && !o.Supplement.addedForFee, "output marked as dust or change")
		got = append(got, fmt.Sprintf("%x %q", []byte(o.TxOut.LockingScript), o.Supplement.KeyID))
		w := ""
		if !useScripts {
			w = as[i].KeyID
		}
		want = append(want, fmt.Sprintf("%x %q", []byte(scripts[i]), w))
		for _, p := range os[:i] {
			v.check(p != o, "the same output twice")
		}
	}
	v.check(total == value, "outputs and fees add up to %d instead of %d", total, value)
	sort.Strings(got)
	sort.Strings(want)
	v.check(fmt.Sprint(got) == fmt.Sprint(want), "outputs pay\n%v\ninstead of\n%v", got, want)
	if rem {
		v.check(rems == 1, "%d remainder outputs", rems)
	} else {
		v.check(rems == 0, "%d remainder outputs not asked for", rems)
	}
}

func vrBreakQuantity(v *vr) {
	value, bv := v.breakAmounts()
	count := v.n(12)
	v.logf("value %d break value %d count %d", value, bv, count)
	qs, err := BreakQuantity(value, bv, count)
	if bv == 0 {
		v.check(vrIs(err, ErrInvalidBreakValue), "error %v for a zero break value", err)
		return
	}
	v.check(err == nil, "error %v", err)
	var total, left uint64 = 0, value
	for _, q := range qs {
		v.check(q <= left, "parts %v exceed the value", qs)
		total += q
		left -= q
	}
	v.check(total == value, "parts %v add up to %d", qs, total)
	v.check(len(qs) <= count+1, "%d parts", len(qs))
}

func vrRandomize(v *vr) {
	tx := v.builder(3, 9)
	before := vrSnap(tx)
	v.logf("before:\n%s", before)
	keep := 0
	if v.coin(0.5) {
		tx.RandomizeOutputs()
		v.logf("RandomizeOutputs")
	} else {
		index := v.n(len(before.outs)+3) - 1
		v.logf("RandomizeOutputsAfter(%d)", index)
		tx.RandomizeOutputsAfter(index)
		keep = index + 1
	}
	after := vrSnap(tx)
	v.logf("after:\n%s", after)
	v.check(before.insEqual(after) && before.rest == after.rest, "something else than the outputs changed")
	v.check(before.nout == after.nout && len(before.outs) == len(after.outs), "number of outputs changed")
	var a, b []string
	for i := range before.outs {
		v.check(tx.MsgTx.TxOut[i] != nil && tx.Outputs[i] != nil, "nil output")
		if i < keep {
			v.check(before.outs[i] == after.outs[i], "output %d moved", i)
		}
		a = append(a, fmt.Sprintf("%+v", before.outs[i]))
		b = append(b, fmt.Sprintf("%+v", after.outs[i]))
		for j := 0; j < i; j++ {
			v.check(tx.MsgTx.TxOut[i] != tx.MsgTx.TxOut[j] && tx.Outputs[i] != tx.Outputs[j], "outputs %d and %d are the same record", j, i)
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	v.check(fmt.Sprint(a) == fmt.Sprint(b), "outputs are not a permutation of the outputs before")
}
