package txbuilder

import (
	"bytes"
	"crypto/sha256"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

func init() {
	vrProps["C11"] = vrSigHash
	vrProps["C12"] = vrSignOnly
	vrProps["C22"] = vrMultiSig
}

func vrPush(b []byte) []byte {
	n := len(b)
	switch {
	case n <= 75:
		return append([]byte{byte(n)}, b...)
	case n < 255:
		return append([]byte{0x4c, byte(n)}, b...)
	case n < 65535:
		return append([]byte{0x4d, byte(n), byte(n >> 8)}, b...)
	}
	return append([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, b...)
}

func vrMultiSig(v *vr) {
	var keys, sigs [][]byte
	n := v.n(7)
	if v.coin(0.05) {
		n = 15 + v.n(10)
	}
	for i := 0; i < n; i++ {
		keys = append(keys, v.bytes([]int{33, 33, 33, 65, 0, 80, 300}[v.n(7)]))
		switch v.n(5) {
		case 0:
			sigs = append(sigs, nil)
		case 1:
			sigs = append(sigs, []byte{})
		case 2:
			sigs = append(sigs, v.bytes(1+v.n(3)))
		default:
			sigs = append(sigs, v.bytes(70+v.n(4)))
		}
	}
	if v.coin(0.1) && n > 0 {
		keys = keys[:v.n(n)]
	} else if v.coin(0.1) && n > 0 {
		sigs = sigs[:v.n(n)]
	}
	req := uint16(v.n(n + 2))
	if v.coin(0.03) {
		req = uint16(v.n(65536))
	}
	v.logf("required %d keys %x signatures %x", req, keys, sigs)
	var ks, ss [][]byte
	for _, k := range keys {
		ks = append(ks, append([]byte(nil), k...))
	}
	for _, s := range sigs {
		ss = append(ss, append([]byte(nil), s...))
	}
	r, err := P2MultiPKHUnlockingScript(req, keys, sigs)
	if len(keys) != len(sigs) {
		v.check(err != nil, "lists of different lengths accepted")
		return
	}
	v.check(err == nil, "error %v", err)
	var want []byte
	for i := len(ks) - 1; i >= 0; i-- {
		if len(ss[i]) == 0 {
			want = append(want, 0)
			continue
		}
		want = append(want, vrPush(ss[i])...)
		want = append(want, vrPush(ks[i])...)
		want = append(want, 0x51)
	}
	v.check(bytes.Equal(r, want), "script %x instead of %x", r, want)
}

// C11
func vrLE(x uint64, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte(x>>(8*uint(i))))
	}
	return b
}

func vrCount(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return append([]byte{0xfd}, vrLE(n, 2)...)
	case n <= 0xffffffff:
		return append([]byte{0xfe}, vrLE(n, 4)...)
	}
	return append([]byte{0xff}, vrLE(n, 8)...)
}

func vrDouble(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func vrOutBytes(o *wire.TxOut) []byte {
	b := append(vrLE(o.Value, 8), vrCount(uint64(len(o.LockingScript)))...)
	return append(b, o.LockingScript...)
}

// vrAfterSep is the part of a script after its last code separator.
func vrAfterSep(s []byte) ([]byte, bool) {
	start, i := 0, 0
	for i < len(s) {
		op := s[i]
		i++
		n, w := 0, 0
		switch {
		case op >= 1 && op <= 75:
			n = int(op)
		case op == 0x4c:
			w = 1
		case op == 0x4d:
			w = 2
		case op == 0x4e:
			w = 4
		case op == 0xab:
			start = i
		}
		if i+w > len(s) {
			return nil, false
		}
		for j := 0; j < w; j++ {
			n |= int(s[i+j]) << (8 * uint(j))
		}
		i += w
		if n > len(s)-i {
			return nil, false
		}
		i += n
	}
	return s[start:], true
}

func vrPreimage(tx *wire.MsgTx, index int, script []byte, value uint64, ht uint32, zeroOuts bool) []byte {
	zero := make([]byte, 32)
	var prev, seq, outs []byte
	for _, in := range tx.TxIn {
		prev = append(prev, in.PreviousOutPoint.Hash[:]...)
		prev = append(prev, vrLE(uint64(in.PreviousOutPoint.Index), 4)...)
		seq = append(seq, vrLE(uint64(in.Sequence), 4)...)
	}
	for _, o := range tx.TxOut {
		outs = append(outs, vrOutBytes(o)...)
	}
	base := ht & 0x1f
	hp, hs, ho := zero, zero, zero
	if ht&0x80 == 0 {
		hp = vrDouble(prev)
		if base != 2 && base != 3 {
			hs = vrDouble(seq)
		}
	}
	if base != 2 && base != 3 {
		ho = vrDouble(outs)
	} else if base == 3 && index < len(tx.TxOut) {
		ho = vrDouble(vrOutBytes(tx.TxOut[index]))
	}
	if zeroOuts {
		ho = zero
	}
	in := tx.TxIn[index]
	r := vrLE(uint64(uint32(tx.Version)), 4)
	r = append(r, hp...)
	r = append(r, hs...)
	r = append(r, in.PreviousOutPoint.Hash[:]...)
	r = append(r, vrLE(uint64(in.PreviousOutPoint.Index), 4)...)
	r = append(r, vrCount(uint64(len(script)))...)
	r = append(r, script...)
	r = append(r, vrLE(value, 8)...)
	r = append(r, vrLE(uint64(in.Sequence), 4)...)
	r = append(r, ho...)
	r = append(r, vrLE(uint64(tx.LockTime), 4)...)
	return append(r, vrLE(uint64(ht|0x40), 4)...)
}

func (v *vr) rawScript() []byte {
	var s []byte
	for n := v.n(6); n > 0; n-- {
		switch v.n(5) {
		case 0:
			s = append(s, 0xab)
		case 1:
			s = append(s, []byte{0x00, 0x76, 0xa9, 0x88, 0xac, 0x51, 0x63, 0x68, 0x4f}[v.n(9)])
		case 2: // a push that is not the shortest
			d := v.bytes(1 + v.n(20))
			s = append(append(s, 0x4c, byte(len(d))), d...)
		case 3: // a push with the separator's byte in it
			s = append(s, 3, 0xab, 0xab, byte(v.n(256)))
		default:
			s = append(s, vrPush(v.bytes([]int{1, 20, 33, 75, 76, 255, 300}[v.n(7)]))...)
		}
	}
	if v.coin(0.05) {
		s = append(s, 0x4d, 0xff)
	}
	return s
}

func vrSigHash(v *vr) {
	tx := &wire.MsgTx{Version: int32(v.r.Uint32()), LockTime: v.r.Uint32()}
	if v.coin(0.5) {
		tx.Version, tx.LockTime = 1, 0
	}
	nIn, nOut := 1+v.n(5), v.n(6)
	for i := 0; i < nIn; i++ {
		in := &wire.TxIn{Sequence: v.r.Uint32(), UnlockingScript: v.bytes(v.n(3))}
		copy(in.PreviousOutPoint.Hash[:], v.bytes(32))
		in.PreviousOutPoint.Index = v.r.Uint32()
		tx.TxIn = append(tx.TxIn, in)
	}
	for i := 0; i < nOut; i++ {
		tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: v.r.Uint64(), LockingScript: v.bytes([]int{0, 25, 300}[v.n(3)])})
	}
	v.logf("tx version %d lock time %d, %d inputs, %d outputs", tx.Version, tx.LockTime, nIn, nOut)
	cache := &SigHashCache{}
	for n := 1 + v.n(6); n > 0; n-- {
		switch v.n(8) {
		case 0:
			cache.Clear()
			v.logf("clear")
		case 1:
			cache.ClearOutputs()
			if len(tx.TxOut) > 0 {
				tx.TxOut[v.n(len(tx.TxOut))].Value++
			}
			v.logf("change an output and clear the outputs hash")
		case 2:
			cache.Clear()
			tx.TxIn[v.n(nIn)].Sequence++
			v.logf("change a sequence and clear")
		}
		index := v.n(nIn + 2)
		script := v.rawScript()
		value := v.r.Uint64()
		ht := []uint32{1, 2, 3, 0x81, 0x82, 0x83}[v.n(6)] | uint32(v.n(2))<<6
		if v.coin(0.4) {
			ht = uint32(v.n(256))
		} else if v.coin(0.1) {
			ht = v.r.Uint32()
		}
		which := v.n(3)
		keep := append([]byte(nil), script...)
		before := tx.Copy()
		v.logf("function %d index %d script %x value %d hash type %x", which, index, script, value, ht)
		var got []byte
		var err error
		switch which {
		case 0:
			got, err = SignatureHashPreimageBytes(tx, index, script, value, SigHashType(ht), cache)
		case 1:
			got, err = SignaturePreimage(tx, index, script, value, SigHashType(ht), cache)
		default:
			var h *bitcoin.Hash32
			h, err = SignatureHash(tx, index, script, value, SigHashType(ht), cache)
			if h != nil {
				got = h[:]
			}
		}
		v.check(bytes.Equal(keep, script), "the script was changed")
		var b0, b1 bytes.Buffer
		before.Serialize(&b0)
		tx.Serialize(&b1)
		v.check(bytes.Equal(b0.Bytes(), b1.Bytes()), "the transaction was changed")
		after, ok := vrAfterSep(script)
		if index >= nIn || !ok {
			v.check(err != nil, "no error")
			continue
		}
		v.check(err == nil, "error %v", err)
		want := vrPreimage(tx, index, after, value, ht, false)
		alt := want
		if b := ht & 0x1f; ht&2 != 0 && b != 2 && b != 3 {
			alt = vrPreimage(tx, index, after, value, ht, true) // known finding
		}
		if which == 2 {
			want, alt = vrDouble(want), vrDouble(alt)
		}
		v.check(bytes.Equal(got, want) || bytes.Equal(got, alt), "got %x, BIP-143 gives %x", got, want)
	}
}

// C12
var vrSigCache = map[string][]byte{}

// vrUnlock is the unlocking script of the template of the locking script by the key.
func vrUnlockBy(k bitcoin.Key, tx *wire.MsgTx, index int, script []byte, value uint64) []byte {
	pre := vrDouble(vrPreimage(tx, index, script, value, 0x41, false))
	id := string(pre) + string(k.Number())
	sig := vrSigCache[id]
	if sig == nil {
		var h bitcoin.Hash32
		copy(h[:], pre)
		s, err := k.Sign(h)
		if err != nil {
			panic(err)
		}
		sig = append(s.Bytes(), 0x41)
		vrSigCache[id] = sig
	}
	r := vrPush(sig)
	if bytes.Equal(script, vrP2PK(k)) {
		return r
	}
	return append(r, vrPush(k.PublicKey().Bytes())...)
}

func vrMatch(k bitcoin.Key, script []byte) bool {
	return bytes.Equal(script, vrP2PKH(k)) || bytes.Equal(script, vrP2PK(k))
}

func vrSingle(script []byte) bool {
	s := bitcoin.Script(script)
	return s.IsP2PKH() || s.IsP2PK()
}

func (v *vr) signable() *TxBuilder {
	tx := v.builder(4, 3)
	for i := range tx.Inputs {
		if v.coin(0.8) {
			if v.coin(0.3) {
				tx.Inputs[i].LockingScript = vrP2PK(v.key())
			} else {
				tx.Inputs[i].LockingScript = vrP2PKH(v.key())
			}
		}
		if v.coin(0.7) {
			tx.MsgTx.TxIn[i].UnlockingScript = nil
		}
		tx.MsgTx.TxIn[i].Sequence = v.r.Uint32()
	}
	return tx
}

func vrSignOnly(v *vr) {
	tx := v.signable()
	before := vrSnap(tx)
	v.logf("before:\n%s", before)
	if v.coin(0.2) {
		vrSignOne(v, tx, before)
		return
	}
	var keys []bitcoin.Key
	for _, k := range v.keys {
		if v.coin(0.6) {
			keys = append(keys, k)
		}
	}
	if v.coin(0.2) && len(keys) > 0 {
		keys = append(keys, keys[0])
	}
	v.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		v.logf("key %x", []byte(vrP2PKH(k)))
	}
	used, err := tx.SignOnly(keys)
	after := vrSnap(tx)
	v.logf("error %v after:\n%s", err, after)
	for _, u := range used {
		ok := false
		for _, k := range keys {
			ok = ok || k.Equal(u)
		}
		v.check(ok, "a key returned was not supplied")
	}
	want := before.clone()
	for i := range want.ins {
		if len(before.ins[i].unlock) == 0 && i < len(after.ins) {
			want.ins[i].unlock = after.ins[i].unlock
		}
	}
	v.same(want, after, "SignOnly")
	missing := vrIs(err, ErrMissingPrivateKey)
	lacks, other := false, false
	for i := range before.ins {
		if len(before.ins[i].unlock) > 0 {
			continue
		}
		script := []byte(before.ins[i].script)
		if !vrSingle(script) {
			other = true
			continue
		}
		matching, ok := false, false
		for _, k := range keys {
			if !vrMatch(k, script) {
				continue
			}
			matching = true
			ok = ok || after.ins[i].unlock == string(vrUnlockBy(k, tx.MsgTx, i, script, before.ins[i].value))
		}
		lacks = lacks || !matching
		if !matching {
			v.check(after.ins[i].unlock == "", "input %d was signed without its key", i)
		} else if err == nil || missing {
			v.check(ok, "input %d is not signed by its key over the transaction", i)
		}
	}
	if !other {
		v.check(err == nil || missing, "error %v", err)
		v.check(missing == lacks, "missing key reported %v, lacking %v", missing, lacks)
	}
	v.check(err != nil || !lacks, "a missing key was not reported")
}

func vrSignOne(v *vr, tx *TxBuilder, before vrTx) {
	index, key := v.n(len(tx.Inputs)+2), v.key()
	if v.coin(0.6) && index < len(tx.Inputs) {
		for _, k := range v.keys {
			if bytes.Equal(tx.Inputs[index].LockingScript, vrP2PKH(k)) {
				key = k
			}
		}
	}
	v.logf("SignP2PKHInput %d with the key of %x", index, []byte(vrP2PKH(key)))
	err := tx.SignP2PKHInput(index, key, &SigHashCache{})
	after := vrSnap(tx)
	match := index < len(tx.Inputs) && bytes.Equal(tx.Inputs[index].LockingScript, vrP2PKH(key))
	v.check((err == nil) == match, "error %v, matching %v", err, match)
	want := before.clone()
	if match {
		want.ins[index].unlock = string(vrUnlockBy(key, tx.MsgTx, index, []byte(before.ins[index].script), before.ins[index].value))
	}
	v.same(want, after, "SignP2PKHInput")
}
