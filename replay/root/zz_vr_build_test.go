package txbuilder

import (
	"crypto/sha256"
	"fmt"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

func init() {
	vrProps["C20"] = vrConstructors
	vrProps["C16"] = vrCopies
}

func vrTxHash(t *wire.MsgTx) bitcoin.Hash32 {
	a := sha256.Sum256(vrSerialize(t))
	return bitcoin.Hash32(sha256.Sum256(a[:]))
}

type vrTW struct {
	tx   *wire.MsgTx
	outs []*wire.TxOut
}

func (t *vrTW) TxID() bitcoin.Hash32     { return vrTxHash(t.tx) }
func (t *vrTW) GetMsgTx() *wire.MsgTx    { return t.tx }
func (t *vrTW) InputCount() int          { return len(t.tx.TxIn) }
func (t *vrTW) Input(i int) *wire.TxIn   { return t.tx.TxIn[i] }
func (t *vrTW) OutputCount() int         { return len(t.tx.TxOut) }
func (t *vrTW) Output(i int) *wire.TxOut { return t.tx.TxOut[i] }
func (t *vrTW) InputOutput(i int) (*wire.TxOut, error) {
	if t.outs[i] == nil {
		return nil, errors.New("missing output")
	}
	return t.outs[i], nil
}

func (v *vr) plain(tx *TxBuilder, fr, dr float32, m *wire.MsgTx, what string) {
	v.check(tx != nil, "%s: no builder", what)
	v.check(tx.MsgTx == m, "%s: not the transaction given", what)
	v.check(tx.FeeRate == fr && tx.DustFeeRate == dr && !tx.SendMax && len(tx.ChangeScript) == 0 && tx.ChangeKeyID == "", "%s: settings", what)
	v.check(len(tx.Inputs) == len(m.TxIn) && len(tx.Outputs) == len(m.TxOut), "%s: records %d/%d for %d/%d", what, len(tx.Inputs), len(tx.Outputs), len(m.TxIn), len(m.TxOut))
	for i, o := range tx.Outputs {
		v.check(o != nil && !o.IsRemainder && !o.IsDust && !o.addedForFee && o.KeyID == "", "%s: output record %d", what, i)
	}
}

func vrConstructors(v *vr) {
	fr, dr := v.rate(), v.rate()
	e := NewTxBuilder(fr, dr)
	v.check(e != nil && e.MsgTx != nil && len(e.MsgTx.TxIn)+len(e.MsgTx.TxOut)+len(e.Inputs)+len(e.Outputs) == 0 && e.MsgTx.LockTime == 0, "NewTxBuilder not empty")
	v.plain(e, fr, dr, e.MsgTx, "NewTxBuilder")

	// parents and a child
	var ps []*wire.MsgTx
	for i, n := 0, v.n(4); i < n; i++ {
		p := v.builder(2, 4).MsgTx
		if v.coin(0.3) && len(ps) > 0 {
			c := ps[v.n(len(ps))].Copy()
			p = &c
		}
		ps = append(ps, p)
	}
	child := v.builder(0, 3).MsgTx
	var us []bitcoin.UTXO
	tw := &vrTW{tx: child}
	for i, n := 0, v.n(5); i < n; i++ {
		var op wire.OutPoint
		if len(ps) > 0 && v.coin(0.85) {
			p := ps[v.n(len(ps))]
			op.Hash = vrTxHash(p)
			op.Index = uint32(v.n(len(p.TxOut) + 1))
			if v.coin(0.08) {
				op.Index = v.index32()
			}
		} else {
			op.Hash, op.Index = v.hash(), v.index32()
		}
		if v.coin(0.1) {
			op.Hash = bitcoin.Hash32{}
		}
		child.TxIn = append(child.TxIn, &wire.TxIn{PreviousOutPoint: op, Sequence: v.r.Uint32()})
		if v.coin(0.9) {
			u := v.utxo()
			u.Hash, u.Index = op.Hash, op.Index
			us = append(us, u)
		}
		if v.coin(0.3) {
			u := v.utxo()
			u.Hash, u.Index = op.Hash, op.Index
			if v.coin(0.5) {
				u.Index++
			} else {
				u.Hash[v.n(32)] ^= 1
			}
			us = append(us, u)
		}
		var o *wire.TxOut
		if v.coin(0.93) {
			o = &wire.TxOut{Value: v.value(), LockingScript: v.script()}
		}
		tw.outs = append(tw.outs, o)
	}
	v.r.Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
	for i, in := range child.TxIn {
		v.logf("input %d spends %x:%d", i, in.PreviousOutPoint.Hash[:], in.PreviousOutPoint.Index)
	}
	for i, p := range ps {
		h := vrTxHash(p)
		v.logf("parent %d %x with %d outputs", i, h[:], len(p.TxOut))
	}
	for i, u := range us {
		v.logf("utxo %d %x:%d value %d script %x key %s", i, u.Hash[:], u.Index, u.Value, []byte(u.LockingScript), u.KeyID)
	}
	before := string(vrSerialize(child))

	tx, err := NewTxBuilderFromWire(fr, dr, child, ps)
	v.plain(tx, fr, dr, child, "NewTxBuilderFromWire")
	missing := false
	for i, in := range child.TxIn {
		found, ok := false, false
		for _, p := range ps {
			if vrTxHash(p) == in.PreviousOutPoint.Hash && uint64(in.PreviousOutPoint.Index) < uint64(len(p.TxOut)) {
				found = true
				o := p.TxOut[in.PreviousOutPoint.Index]
				r := tx.Inputs[i]
				ok = ok || r != nil && r.Value == o.Value && string(r.LockingScript) == string(o.LockingScript) && r.KeyID == ""
			}
		}
		missing = missing || !found
		v.check(!found || ok, "NewTxBuilderFromWire: input %d does not carry the spent output", i)
	}
	v.check((err != nil) == missing && (err == nil || vrIs(err, ErrMissingInputData)), "NewTxBuilderFromWire: error %v, missing %v", err, missing)

	tx, err = NewTxBuilderFromWireUTXOs(fr, dr, child, us)
	v.plain(tx, fr, dr, child, "NewTxBuilderFromWireUTXOs")
	missing = false
	for i, in := range child.TxIn {
		found, ok := false, false
		for _, u := range us {
			if u.Hash == in.PreviousOutPoint.Hash && u.Index == in.PreviousOutPoint.Index {
				found = true
				r := tx.Inputs[i]
				ok = ok || r != nil && r.Value == u.Value && string(r.LockingScript) == string(u.LockingScript) && r.KeyID == u.KeyID
			}
		}
		missing = missing || !found
		v.check(!found || ok, "NewTxBuilderFromWireUTXOs: input %d does not carry the spent output", i)
	}
	v.check((err != nil) == missing && (err == nil || vrIs(err, ErrMissingInputData)), "NewTxBuilderFromWireUTXOs: error %v, missing %v", err, missing)

	tx, err = NewTxBuilderFromTransactionWithOutputs(fr, dr, tw)
	missing = false
	for i, in := range child.TxIn {
		missing = missing || tw.outs[i] == nil && in.PreviousOutPoint.Hash != (bitcoin.Hash32{})
	}
	v.check((err != nil) == missing, "NewTxBuilderFromTransactionWithOutputs: error %v, missing %v", err, missing)
	if err == nil {
		v.plain(tx, fr, dr, child, "NewTxBuilderFromTransactionWithOutputs")
		for i, in := range child.TxIn {
			want := wire.TxOut{}
			if in.PreviousOutPoint.Hash != (bitcoin.Hash32{}) {
				want = *tw.outs[i]
			}
			r := tx.Inputs[i]
			v.check(r != nil && r.Value == want.Value && string(r.LockingScript) == string(want.LockingScript) && r.KeyID == "", "NewTxBuilderFromTransactionWithOutputs: input %d does not carry the spent output", i)
		}
	}
	v.check(before == string(vrSerialize(child)), "a constructor changed the transaction")
}

// scribble changes everything reachable from a builder.
func (v *vr) scribble(tx *TxBuilder) {
	flip := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	flip(tx.ChangeScript)
	tx.FeeRate, tx.DustFeeRate, tx.SendMax, tx.ChangeKeyID = tx.FeeRate+1, tx.DustFeeRate+2, !tx.SendMax, tx.ChangeKeyID+"x"
	tx.MsgTx.Version++
	tx.MsgTx.LockTime += 7
	for _, in := range tx.MsgTx.TxIn {
		in.PreviousOutPoint.Hash[3] ^= 1
		in.PreviousOutPoint.Index++
		in.Sequence++
		flip(in.UnlockingScript)
	}
	for _, o := range tx.MsgTx.TxOut {
		o.Value++
		flip(o.LockingScript)
	}
	for _, i := range tx.Inputs {
		i.Value++
		i.KeyID += "y"
		flip(i.LockingScript)
	}
	for _, o := range tx.Outputs {
		o.IsDust, o.IsRemainder, o.addedForFee = !o.IsDust, !o.IsRemainder, !o.addedForFee
		o.KeyID += "z"
	}
	for i := range tx.Inputs[:cap(tx.Inputs)] {
		tx.Inputs[:cap(tx.Inputs)][i] = &InputSupplement{Value: 77}
	}
	for i := range tx.Outputs[:cap(tx.Outputs)] {
		tx.Outputs[:cap(tx.Outputs)][i] = &OutputSupplement{KeyID: "w"}
	}
	for i := range tx.MsgTx.TxIn[:cap(tx.MsgTx.TxIn)] {
		tx.MsgTx.TxIn[:cap(tx.MsgTx.TxIn)][i] = &wire.TxIn{Sequence: 5}
	}
	for i := range tx.MsgTx.TxOut[:cap(tx.MsgTx.TxOut)] {
		tx.MsgTx.TxOut[:cap(tx.MsgTx.TxOut)][i] = &wire.TxOut{Value: 5}
	}
}

func vrCopies(v *vr) {
	tx := v.builder(4, 4)
	before := vrSnap(tx)
	v.logf("builder:\n%s", before)
	c := tx.Copy()
	v.same(before, vrSnap(&c), "Copy")
	v.same(before, vrSnap(tx), "Copy changed the original")
	for i, o := range c.Outputs {
		key := o.KeyID
		o.KeyID = key + "'"
		for j, p := range c.Outputs {
			v.check(i == j || p.KeyID == tx.Outputs[j].KeyID, "changing record of output %d of the copy changed that of output %d", i, j)
		}
		o.KeyID = key
	}
	for i, in := range c.Inputs {
		key := in.KeyID
		in.KeyID = key + "'"
		for j, p := range c.Inputs {
			v.check(i == j || p.KeyID == tx.Inputs[j].KeyID, "changing record of input %d of the copy changed that of input %d", i, j)
		}
		in.KeyID = key
	}
	if v.coin(0.5) {
		v.scribble(&c)
		v.same(before, vrSnap(tx), "changing the copy changed the original")
	} else {
		v.scribble(tx)
		v.same(before, vrSnap(&c), "changing the original changed the copy")
	}
	for _, in := range v.builder(3, 0).Inputs {
		x := in.Copy()
		want := fmt.Sprintf("%x %d %s", []byte(in.LockingScript), in.Value, in.KeyID)
		v.check(want == fmt.Sprintf("%x %d %s", []byte(x.LockingScript), x.Value, x.KeyID), "input record copy differs")
		for i := range in.LockingScript {
			in.LockingScript[i]++
		}
		v.check(want == fmt.Sprintf("%x %d %s", []byte(x.LockingScript), x.Value, x.KeyID), "input record copy shares its script")
	}
	for _, o := range v.builder(0, 3).Outputs {
		x := o.Copy()
		v.check(x == *o, "output record copy differs")
	}
	s := string(v.bytes(v.n(20)))
	v.check(CopyString(s) == s, "CopyString(%q)", s)
}
