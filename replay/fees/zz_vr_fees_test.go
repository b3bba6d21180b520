package fees

import (
	"context"
	"errors"
	"fmt"
	"math"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"

	pkgerrors "github.com/pkg/errors"
)

func init() { vrProps["C19"] = vrFees }

// vrTW is a transaction whose spent outputs are listed; nil is an error.
type vrTW struct {
	tx   *wire.MsgTx
	outs []*wire.TxOut
	errs []error
}

func (t *vrTW) GetMsgTx() *wire.MsgTx { return t.tx }
func (t *vrTW) InputOutput(i int) (*wire.TxOut, error) {
	if t.outs[i] == nil {
		return nil, t.errs[i]
	}
	return t.outs[i], nil
}

type vrUnlocker struct {
	max int
	err error
}

func (u *vrUnlocker) Unlock(ctx context.Context, tx bitcoin_interpreter.TransactionWithOutputs, i int) (bitcoin.Script, error) {
	return nil, u.err
}
func (u *vrUnlocker) SubUnlock(ctx context.Context, tx bitcoin_interpreter.TransactionWithOutputs, i, o int) (bitcoin.Script, error) {
	return nil, u.err
}
func (u *vrUnlocker) UnlockingSize(s bitcoin.Script) (int, error) {
	if len(s)%7 == 3 || len(s) > u.max {
		return 0, u.err
	}
	return len(s)*11 + 3, nil
}
func (u *vrUnlocker) CanUnlock(s bitcoin.Script) bool          { return true }
func (u *vrUnlocker) CanPartiallyUnlock(s bitcoin.Script) bool { return true }
func (u *vrUnlocker) Copy() bitcoin_interpreter.Unlocker       { c := *u; return &c }

func vrFeeUp(size int, rate float64) uint64 { return uint64(math.Ceil(float64(size) * rate)) }

func vrDust(size int, rate float64) uint64 {
	if rate == 0 {
		return 1
	}
	if d := vrFeeUp((size+148)*3, rate); d >= 1 {
		return d
	}
	return 1
}

func (v *vr) outcome(what string, err error, want []error) bool {
	if len(want) == 0 {
		v.check(err == nil, "%s: error %v", what, err)
		return true
	}
	v.check(err != nil, "%s: no error", what)
	for _, w := range want {
		if pkgerrors.Cause(err) == w {
			return false
		}
	}
	v.fail("%s: error %v is none of %v", what, err, want)
	return false
}

func vrFees(v *vr) {
	rate := float64(v.rate())
	if v.coin(0.3) {
		rate = v.r.Float64() * 3
	}
	ul := &vrUnlocker{max: []int{30, 100, 1000000}[v.n(3)], err: errors.New("unlocker")}
	tw := &vrTW{tx: &wire.MsgTx{Version: 1}}
	var sizeErrs, valueErrs []error
	size := 8
	var ins, outs uint64
	good := v.coin(0.6)
	nin, nout := v.n(5), v.n(5)
	if v.coin(0.03) {
		nin += 250 + v.n(6)
	}
	if v.coin(0.03) {
		nout += 250 + v.n(6)
	}
	for i := 0; i < nin; i++ {
		in := &wire.TxIn{Sequence: v.r.Uint32()}
		var o *wire.TxOut
		e := fmt.Errorf("input %d", i)
		if good || v.coin(0.9) {
			o = &wire.TxOut{Value: v.value(), LockingScript: v.script()}
			if v.coin(0.2) {
				o.LockingScript = nil
			}
			if v.coin(0.2) {
				o.Value = 0
			}
			if good && len(o.LockingScript) > 0 && (len(o.LockingScript)%7 == 3 || len(o.LockingScript) > ul.max) {
				o.LockingScript = nil
			}
		}
		switch v.n(4) {
		case 0:
			in.UnlockingScript = v.udScript([]uint64{0, 1, 108, 252, 253, 70000, uint64(v.n(400))}[v.n(7)], v.value())
		case 1:
			in.UnlockingScript = v.opReturn()
		case 2:
			in.UnlockingScript = v.bytes(v.n(120))
		}
		if good && o != nil && (len(o.LockingScript) == 0 || o.Value == 0) {
			in.UnlockingScript = v.udScript([]uint64{0, 1, 108, 252, 253, 70000, uint64(v.n(400))}[v.n(7)], v.value())
		}
		tw.tx.TxIn, tw.outs, tw.errs = append(tw.tx.TxIn, in), append(tw.outs, o), append(tw.errs, e)
		if o == nil {
			v.logf("input %d spends an unavailable output", i)
			sizeErrs, valueErrs = append(sizeErrs, e), append(valueErrs, e)
			continue
		}
		if nin < 20 {
			v.logf("input %d spends value %d script %x with unlocking script %x", i, o.Value, []byte(o.LockingScript), []byte(in.UnlockingScript))
		}
		ud, isUD := vrUD(in.UnlockingScript)
		if len(o.LockingScript) > 0 {
			n, err := ul.UnlockingSize(o.LockingScript)
			if err != nil {
				sizeErrs = append(sizeErrs, err)
			} else {
				size += int(vrInSize(uint64(n)))
			}
			is, err2 := EstimateInputSize(in, o.LockingScript, ul)
			v.check((err2 == nil) == (err == nil) && pkgerrors.Cause(err2) == err, "EstimateInputSize error %v instead of %v", err2, err)
			v.check(err != nil || is == int(vrInSize(uint64(n))), "EstimateInputSize %d", is)
		} else if isUD {
			size += int(vrInSize(ud.Size))
			is, err := EstimateInputSize(in, o.LockingScript, ul)
			v.check(err == nil && is == int(vrInSize(ud.Size)), "EstimateInputSize %d %v", is, err)
		} else {
			sizeErrs = append(sizeErrs, MissingUnlockingData)
			_, err := EstimateInputSize(in, o.LockingScript, ul)
			v.check(pkgerrors.Cause(err) == MissingUnlockingData, "EstimateInputSize error %v", err)
		}
		iv, err := InputValue(in, o)
		switch {
		case o.Value != 0:
			ins += o.Value
			v.check(err == nil && iv == o.Value, "InputValue %d %v", iv, err)
		case isUD:
			ins += ud.Value
			v.check(err == nil && iv == ud.Value, "InputValue %d %v instead of %d", iv, err, ud.Value)
		default:
			valueErrs = append(valueErrs, MissingUnlockingData)
			v.check(pkgerrors.Cause(err) == MissingUnlockingData, "InputValue error %v", err)
		}
	}
	for i := 0; i < nout; i++ {
		o := &wire.TxOut{Value: v.value(), LockingScript: v.script()}
		if v.coin(0.05) {
			o.LockingScript = v.bytes([]int{252, 253, 254, 65535, 65536}[v.n(5)])
		}
		tw.tx.TxOut = append(tw.tx.TxOut, o)
		outs += o.Value
		size += int(vrOutSize(string(o.LockingScript)))
		v.script1(o.LockingScript, rate)
	}
	size += int(vrVarInt(uint64(nin)) + vrVarInt(uint64(nout)))

	s, err := EstimateSize(tw, ul)
	if v.outcome("EstimateSize", err, sizeErrs) {
		v.check(s == size, "EstimateSize %d instead of %d", s, size)
	}
	f, err := EstimateFee(tw, ul, rate)
	if v.outcome("EstimateFee", err, sizeErrs) {
		v.check(f == vrFeeUp(size, rate), "EstimateFee %d instead of %d", f, vrFeeUp(size, rate))
	}
	iv, err := InputsValue(tw)
	if v.outcome("InputsValue", err, valueErrs) {
		v.check(iv == ins, "InputsValue %d instead of %d", iv, ins)
	}
	ov := OutputsValue(tw)
	v.check(ov == outs, "OutputsValue %d instead of %d", ov, outs)
	fee, err := Fee(tw)
	if v.outcome("Fee", err, valueErrs) {
		v.check(fee == int64(ins)-int64(outs), "Fee %d instead of %d", fee, int64(ins)-int64(outs))
	}
	if v.coin(0.2) {
		v.script1(v.agentScript(), rate)
	}
	n := []int{0, 1, 107, 108, 252, 253, 65535, 65536, v.n(100000)}[v.n(9)]
	v.check(InputSizeForUnlockingScriptSize(n) == int(vrInSize(uint64(n))), "InputSizeForUnlockingScriptSize(%d) = %d", n, InputSizeForUnlockingScriptSize(n))
	os := int(8 + vrVarInt(uint64(n)) + uint64(n))
	v.check(OutputSizeForLockingScriptSize(n) == os, "OutputSizeForLockingScriptSize(%d)", n)
	v.check(DustLimit(n, rate) == vrDust(n, rate), "DustLimit(%d, %v) = %d", n, rate, DustLimit(n, rate))
	v.check(DustLimitForLockingScriptSize(n, rate) == vrDust(os, rate), "DustLimitForLockingScriptSize(%d, %v)", n, rate)
	v.check(EstimateFeeValue(n, rate) == vrFeeUp(n, rate), "EstimateFeeValue(%d, %v) = %d", n, rate, EstimateFeeValue(n, rate))
}

// script1 checks the functions of one locking script.
func (v *vr) script1(s bitcoin.Script, rate float64) {
	v.logf("script %x rate %v", []byte(s), rate)
	os := int(vrOutSize(string(s)))
	of := vrFeeUp(os, rate)
	un, ok := vrUnlock(s)
	n, err := EstimateUnlockingSize(s)
	if ok {
		v.check(err == nil && n == int(un), "EstimateUnlockingSize %d %v instead of %d", n, err, un)
	} else {
		v.check(pkgerrors.Cause(err) == bitcoin.ErrWrongScriptTemplate, "EstimateUnlockingSize error %v", err)
	}
	a, b, err := OutputTotalCost(s, rate)
	v.check(a == of && (err == nil) == ok, "OutputTotalCost %d %v", a, err)
	if ok {
		v.check(b == vrFeeUp(int(vrInSize(un)), rate), "OutputTotalCost input fee %d", b)
	} else {
		v.check(b == 0 && pkgerrors.Cause(err) == bitcoin.ErrWrongScriptTemplate, "OutputTotalCost input fee %d error %v", b, err)
	}
	v.check(OutputSize(s) == os, "OutputSize %d", OutputSize(s))
	d := vrDust(os, rate)
	v.check(DustLimitForLockingScript(s, rate) == d, "DustLimitForLockingScript")
	v.check(DustLimitForOutput(&wire.TxOut{LockingScript: s, Value: v.value()}, rate) == d, "DustLimitForOutput")
	v.check(OutputFeeForLockingScript(s, rate) == of, "OutputFeeForLockingScript")
	dr := float64(v.rate())
	f, x := OutputFeeAndDustForLockingScript(s, dr, rate)
	v.check(f == of && x == vrDust(os, dr), "OutputFeeAndDustForLockingScript %d %d", f, x)
	z, y := OutputSizeAndDustForLockingScript(s, dr)
	v.check(z == os && y == vrDust(os, dr), "OutputSizeAndDustForLockingScript %d %d", z, y)
}
