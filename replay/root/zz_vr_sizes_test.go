package txbuilder

import (
	"bytes"
	"encoding/binary"
	"math"

	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

func init() {
	vrProps["C05"] = vrTotals
	vrProps["C17"] = vrSizes
	vrProps["C18"] = vrDusts
	vrProps["C23"] = vrAccess
}

func (v *vr) agentScript() bitcoin.Script {
	ag := vrP2PKH(v.key())
	switch v.n(4) {
	case 0:
		ag = vrP2PK(v.key())
	case 1:
		ag = v.multiPKH()
	case 2:
		if s, err := agent_bitcoin_transfer.CreateScript(vrP2PKH(v.key()), vrP2PKH(v.key()), vrP2PKH(v.key()), 1000, vrP2PKH(v.key()), 5); err == nil && v.coin(0.1) {
			ag = s
		}
	}
	s, err := agent_bitcoin_transfer.CreateScript(ag, vrP2PKH(v.key()), vrP2PKH(v.key()), v.value(), vrP2PKH(v.key()), uint32(v.n(100000)))
	if err != nil {
		return vrP2PKH(v.key())
	}
	return s
}

func (v *vr) udScript(size, value uint64) bitcoin.Script {
	s, err := channels.Wrap(&unlocking_data.UnlockingData{Size: size, Value: value, Party: unlocking_data.Party(v.n(3))})
	if err != nil {
		panic(err)
	}
	return s
}

func vrVarSize(n uint64) uint64 {
	return vrVarInt(n)
}

// vrUnlock: size of the unlocking script by template, and whether there is one.
func vrUnlock(s bitcoin.Script) (uint64, bool) {
	if s.IsP2PK() {
		return 74, true
	}
	if s.IsP2PKH() {
		return 108, true
	}
	if req, total, err := s.MultiPKHCounts(); err == nil {
		return uint64(total-req) + 109*uint64(req), true
	}
	if info, err := agent_bitcoin_transfer.MatchScript(s); err == nil && info != nil {
		c := append(bitcoin.Script{}, info.AgentLockingScript...)
		c.RemoveHardVerify()
		n, ok := vrUnlock(c)
		return uint64(agent_bitcoin_transfer.ApproveUnlockingSize(int(n))), ok
	}
	return 0, false
}

func vrInSize(n uint64) uint64 { return 40 + vrVarInt(n) + n }

func vrUD(s bitcoin.Script) (*unlocking_data.UnlockingData, bool) {
	if len(s) < 2 || s[0] != bitcoin.OP_FALSE || s[1] != bitcoin.OP_RETURN {
		return nil, false
	}
	msg, _, err := channels.NewProtocols(unlocking_data.NewProtocol()).Parse(s)
	if err != nil {
		return nil, false
	}
	u, ok := msg.(*unlocking_data.UnlockingData)
	return u, ok
}

func vrEstSize(tx *TxBuilder) uint64 {
	n := 8 + vrVarInt(uint64(len(tx.MsgTx.TxIn))) + vrVarInt(uint64(len(tx.MsgTx.TxOut)))
	for i, in := range tx.Inputs {
		if len(in.LockingScript) == 0 {
			if u, ok := vrUD(tx.MsgTx.TxIn[i].UnlockingScript); ok {
				n += vrInSize(u.Size)
				continue
			}
		}
		if s, ok := vrUnlock(in.LockingScript); ok {
			n += vrInSize(s)
		} else {
			n += 149
		}
	}
	for _, o := range tx.MsgTx.TxOut {
		n += vrOutSize(string(o.LockingScript))
	}
	return n
}

func vrInValue(tx *TxBuilder) uint64 {
	n := uint64(0)
	for i, in := range tx.Inputs {
		if in.Value == 0 {
			if u, ok := vrUD(tx.MsgTx.TxIn[i].UnlockingScript); ok {
				n += u.Value
				continue
			}
		}
		n += in.Value
	}
	return n
}

// specials turns some inputs into ones described by embedded unlocking data.
func (v *vr) specials(tx *TxBuilder) {
	for i := range tx.Inputs {
		switch v.n(8) {
		case 0:
			tx.Inputs[i].LockingScript = v.agentScript()
		case 1:
			tx.MsgTx.TxIn[i].UnlockingScript = v.udScript([]uint64{0, 1, 108, 252, 253, 70000, uint64(v.n(400))}[v.n(7)], v.value())
			if v.coin(0.8) {
				tx.Inputs[i].LockingScript = nil
			}
			if v.coin(0.8) {
				tx.Inputs[i].Value = 0
			}
		case 2:
			if v.coin(0.3) {
				tx.Inputs[i].Value = 0
			}
			if v.coin(0.3) {
				tx.Inputs[i].LockingScript = nil
			}
			if v.coin(0.5) {
				tx.MsgTx.TxIn[i].UnlockingScript = v.opReturn()
			}
		}
	}
	for i := range tx.MsgTx.TxOut {
		if v.coin(0.1) {
			tx.MsgTx.TxOut[i].LockingScript = v.bytes([]int{0, 1, 252, 253, 254, 65535, 65536, v.n(1000)}[v.n(8)])
		}
	}
	if v.coin(0.05) {
		for n := 245 + v.n(15); len(tx.MsgTx.TxOut) < n; {
			tx.MsgTx.TxOut = append(tx.MsgTx.TxOut, &wire.TxOut{Value: 1000, LockingScript: vrP2PKH(v.keys[0])})
			tx.Outputs = append(tx.Outputs, &OutputSupplement{})
		}
	}
	if v.coin(0.05) {
		for n := 245 + v.n(15); len(tx.MsgTx.TxIn) < n; {
			var h bitcoin.Hash32
			h[5] = 7
			tx.MsgTx.TxIn = append(tx.MsgTx.TxIn, &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: h, Index: uint32(len(tx.MsgTx.TxIn))}})
			tx.Inputs = append(tx.Inputs, &InputSupplement{LockingScript: vrP2PKH(v.keys[0]), Value: 5})
		}
	}
}

func vrTotals(v *vr) {
	tx := v.builder(5, 5)
	v.specials(tx)
	before := vrSnap(tx)
	v.logf("builder:\n%s", before)
	in := vrInValue(tx)
	all, some, rem, chg := uint64(0), uint64(0), uint64(0), uint64(0)
	for i, o := range tx.MsgTx.TxOut {
		all += o.Value
		if tx.Outputs[i].IsRemainder {
			chg += o.Value
			rem += o.Value + uint64(math.Floor(float64(vrOutSize(string(o.LockingScript)))*float64(tx.FeeRate)))
		} else {
			some += o.Value
		}
	}
	v.check(tx.InputValue() == in, "InputValue() = %d, inputs sum to %d", tx.InputValue(), in)
	v.check(tx.OutputValue(true) == all, "OutputValue(true) = %d, outputs sum to %d", tx.OutputValue(true), all)
	v.check(tx.OutputValue(false) == some, "OutputValue(false) = %d, outputs without change sum to %d", tx.OutputValue(false), some)
	v.check(tx.Remainder() == rem, "Remainder() = %d, want %d", tx.Remainder(), rem)
	fee := uint64(0)
	if in > all {
		fee = in - all
	}
	v.check(tx.Fee() == fee, "Fee() = %d, want %d", tx.Fee(), fee)
	v.check(tx.ActualFee() == int64(in-all), "ActualFee() = %d, want %d", tx.ActualFee(), int64(in-all))
	v.same(before, vrSnap(tx), "queries")
}

func vrSizes(v *vr) {
	tx := v.builder(5, 5)
	v.specials(tx)
	before := vrSnap(tx)
	v.logf("builder:\n%s", before)
	want := vrEstSize(tx)
	v.check(uint64(tx.EstimatedSize()) == want, "EstimatedSize() = %d, want %d", tx.EstimatedSize(), want)
	v.check(tx.EstimatedFee() == vrFee(want, tx.FeeRate), "EstimatedFee() = %d, want %d", tx.EstimatedFee(), vrFee(want, tx.FeeRate))
	s := v.script()
	if v.coin(0.2) {
		s = v.agentScript()
	}
	if v.coin(0.1) {
		s = v.bytes([]int{0, 1, 252, 253, 65535, 65536}[v.n(6)])
	}
	rate := v.rate()
	v.logf("script %x rate %v", []byte(s), rate)
	un, ok := vrUnlock(s)
	n, err := UnlockingScriptSize(s)
	v.check((err == nil) == ok && (!ok || uint64(n) == un), "UnlockingScriptSize = %d %v, want %d %v", n, err, un, ok)
	n, err = InputSize(s)
	v.check((err == nil) == ok && (!ok || uint64(n) == vrInSize(un)), "InputSize = %d %v, want %d", n, err, vrInSize(un))
	os := vrOutSize(string(s))
	b := &bytes.Buffer{}
	(&wire.TxOut{LockingScript: s}).Serialize(b, 0, 0)
	v.check(b.Len() == int(os) && OutputSize(s) == int(os), "OutputSize = %d, serialized %d", OutputSize(s), b.Len())
	inFee := uint64(0)
	if ok {
		inFee = vrFee(vrInSize(un), rate)
	}
	of, inf, err := OutputTotalCost(s, rate)
	v.check((err == nil) == ok && of == vrFee(os, rate) && inf == inFee, "OutputTotalCost = %d %d %v, want %d %d", of, inf, err, vrFee(os, rate), inFee)
	u := bitcoin.UTXO{LockingScript: s, Value: v.value()}
	f, err := UTXOFee(u, rate)
	v.check((err == nil) == ok && (!ok || f == inFee), "UTXOFee = %d %v, want %d", f, err, inFee)
	sz, f, err := UTXOInputSizeAndFee(u, rate)
	v.check((err == nil) == ok && (!ok || f == inFee && uint64(sz) == vrInSize(un)), "UTXOInputSizeAndFee = %d %d %v, want %d", sz, f, err, inFee)
	f, err = LockingScriptInputFee(s, rate)
	v.check((err == nil) == ok && (!ok || f == inFee), "LockingScriptInputFee = %d %v, want %d", f, err, inFee)
	f = LockingScriptOutputFee(s, rate)
	v.check(f == vrFee(os, rate), "LockingScriptOutputFee = %d, want %d", f, vrFee(os, rate))
	dr := v.rate()
	f, _ = OutputFeeAndDustForLockingScript(s, dr, rate)
	v.check(f == vrFee(os, rate), "OutputFeeAndDustForLockingScript fee = %d, want %d", f, vrFee(os, rate))
	if ra, err := bitcoin.RawAddressFromLockingScript(s); err == nil {
		if as, err := ra.LockingScript(); err == nil {
			as := vrOutSize(string(as))
			f, err := AddressOutputFee(ra, rate)
			v.check(err == nil && f == vrFee(as, rate), "AddressOutputFee = %d %v, want %d", f, err, vrFee(as, rate))
			f, _, err = OutputFeeAndDustForAddress(ra, dr, rate)
			v.check(err == nil && f == vrFee(as, rate), "OutputFeeAndDustForAddress fee = %d %v, want %d", f, err, vrFee(as, rate))
		}
	}
	size := uint64(v.n(100000))
	v.check(EstimatedFeeValue(size, float64(rate)) == vrFee(size, rate), "EstimatedFeeValue(%d,%v) = %d", size, rate, EstimatedFeeValue(size, float64(rate)))
	v.check(EstimatedFeeValueDown(size, float64(rate)) == uint64(math.Floor(float64(size)*float64(rate))), "EstimatedFeeValueDown(%d,%v) = %d", size, rate, EstimatedFeeValueDown(size, float64(rate)))
	val := []uint64{0, 252, 253, 65535, 65536, math.MaxUint32, math.MaxUint32 + 1, math.MaxUint64, v.value()}[v.n(9)]
	v.check(uint64(VarIntSerializeSize(val)) == vrVarInt(val), "VarIntSerializeSize(%d) = %d", val, VarIntSerializeSize(val))
	v.same(before, vrSnap(tx), "queries")
}

func vrDusts(v *vr) {
	rate := v.rate()
	if v.coin(0.3) {
		rate = float32(v.r.Float64()) * []float32{0.001, 0.01, 1, 10}[v.n(4)]
	}
	s := v.script()
	if v.coin(0.3) {
		s = v.bytes([]int{0, 1, 25, 252, 253, 65535, 65536, v.n(3000)}[v.n(8)])
	}
	v.logf("rate %v script of %d bytes %x", rate, len(s), []byte(s))
	size := v.small(3000)
	v.check(DustLimit(size, rate) == vrDust(uint64(size), rate), "DustLimit(%d, %v) = %d, want %d", size, rate, DustLimit(size, rate), vrDust(uint64(size), rate))
	want := vrDust(vrOutSize(string(s)), rate)
	got := DustLimitForOutput(&wire.TxOut{Value: v.value(), LockingScript: s}, rate)
	v.check(got == want, "DustLimitForOutput = %d, want %d", got, want)
	got = DustLimitForLockingScript(s, rate)
	v.check(got == want, "DustLimitForLockingScript = %d, want %d", got, want)
	_, got = OutputFeeAndDustForLockingScript(s, rate, v.rate())
	v.check(got == want, "OutputFeeAndDustForLockingScript dust = %d, want %d", got, want)
	if ra, err := bitcoin.RawAddressFromLockingScript(s); err == nil {
		if as, err := ra.LockingScript(); err == nil {
			want = vrDust(vrOutSize(string(as)), rate)
			got, err := DustLimitForAddress(ra, rate)
			v.check(err == nil && got == want, "DustLimitForAddress = %d %v, want %d", got, err, want)
			_, got, err = OutputFeeAndDustForAddress(ra, rate, v.rate())
			v.check(err == nil && got == want, "OutputFeeAndDustForAddress dust = %d %v, want %d", got, err, want)
		}
	}
}

func vrSerialize(t *wire.MsgTx) []byte {
	b := &bytes.Buffer{}
	vi := func(n uint64) {
		switch {
		case n < 0xfd:
			b.WriteByte(byte(n))
		case n <= 0xffff:
			b.WriteByte(0xfd)
			binary.Write(b, binary.LittleEndian, uint16(n))
		default:
			b.WriteByte(0xfe)
			binary.Write(b, binary.LittleEndian, uint32(n))
		}
	}
	binary.Write(b, binary.LittleEndian, t.Version)
	vi(uint64(len(t.TxIn)))
	for _, in := range t.TxIn {
		b.Write(in.PreviousOutPoint.Hash[:])
		binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
		vi(uint64(len(in.UnlockingScript)))
		b.Write(in.UnlockingScript)
		binary.Write(b, binary.LittleEndian, in.Sequence)
	}
	vi(uint64(len(t.TxOut)))
	for _, o := range t.TxOut {
		binary.Write(b, binary.LittleEndian, o.Value)
		vi(uint64(len(o.LockingScript)))
		b.Write(o.LockingScript)
	}
	binary.Write(b, binary.LittleEndian, t.LockTime)
	return b.Bytes()
}

func vrAccess(v *vr) {
	tx := v.builder(4, 4)
	v.specials(tx)
	for i := range tx.MsgTx.TxIn {
		if v.coin(0.4) {
			tx.MsgTx.TxIn[i].UnlockingScript = []bitcoin.Script{nil, {}, {0}, v.bytes(50)}[v.n(4)]
		}
	}
	before := vrSnap(tx)
	v.logf("builder:\n%s", before)
	ser := vrSerialize(tx.MsgTx)
	b, err := tx.Serialize()
	v.check(err == nil && bytes.Equal(b, ser), "Serialize = %x %v, want %x", b, err, ser)
	id := tx.TxID()
	v.check(bytes.Equal(id[:], bitcoin.DoubleSha256(ser)), "TxID = %s", id)
	v.check(tx.GetMsgTx() == tx.MsgTx, "GetMsgTx is another transaction")
	v.check(tx.InputCount() == len(tx.MsgTx.TxIn) && tx.OutputCount() == len(tx.MsgTx.TxOut), "counts %d %d", tx.InputCount(), tx.OutputCount())
	all := true
	for i := 0; i < len(tx.Inputs)+2; i++ {
		o, err := tx.InputOutput(i)
		a, aerr := tx.InputAddress(i)
		sgn := tx.InputIsSigned(i)
		if i >= len(tx.Inputs) {
			v.check(err != nil && aerr != nil && !sgn, "input %d beyond the list: %v %v %v", i, err, aerr, sgn)
			continue
		}
		v.check(tx.Input(i) == tx.MsgTx.TxIn[i], "Input(%d)", i)
		in := tx.Inputs[i]
		missing := len(in.LockingScript) == 0 && in.Value == 0
		v.check((err != nil) == missing, "InputOutput(%d) error %v", i, err)
		if err == nil {
			v.check(o.Value == in.Value && bytes.Equal(o.LockingScript, in.LockingScript), "InputOutput(%d) = %d %x", i, o.Value, []byte(o.LockingScript))
		}
		wa, werr := bitcoin.RawAddressFromLockingScript(in.LockingScript)
		v.check((aerr != nil) == (werr != nil) && (werr != nil || a.Equal(wa)), "InputAddress(%d)", i)
		ws := len(tx.MsgTx.TxIn[i].UnlockingScript) > 0
		v.check(sgn == ws, "InputIsSigned(%d) = %v", i, sgn)
		all = all && ws
	}
	v.check(tx.AllInputsAreSigned() == all, "AllInputsAreSigned = %v", tx.AllInputsAreSigned())
	for i := 0; i < len(tx.Outputs)+2; i++ {
		a, err := tx.OutputAddress(i)
		if i >= len(tx.Outputs) {
			v.check(err != nil, "OutputAddress(%d) beyond the list", i)
			continue
		}
		v.check(tx.Output(i) == tx.MsgTx.TxOut[i], "Output(%d)", i)
		wa, werr := bitcoin.RawAddressFromLockingScript(tx.MsgTx.TxOut[i].LockingScript)
		v.check((err != nil) == (werr != nil) && (werr != nil || a.Equal(wa)), "OutputAddress(%d)", i)
	}
	v.same(before, vrSnap(tx), "accessors")
}
