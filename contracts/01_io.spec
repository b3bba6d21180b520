// Byte buffers, serialisation and hashing of dependencies (assumed).
// The content of a writer is the sequence of bytes written to it.
package bytes

trusted func (*Buffer).Write(b, p) (n, err)
  requires b != nil
  effect content(b) := cat(content(b), bytes(p))
  ensures err == nil && n == len(p)
trusted func (*Buffer).WriteByte(b, c) (err)
  requires b != nil
  effect content(b) := cat(content(b), bunit(c))
  ensures err == nil
trusted func (*Buffer).Bytes(b) (r)
  requires b != nil
  ensures bytes(r) == content(b) && len(r) == len(content(b)) && freshornil(r)
trusted func (*Buffer).Len(b) (r)
  requires b != nil
  ensures r == len(content(b))
trusted func NewBuffer(buf) (r)
  ensures r != nil && fresh(r)
  effect content(r) := bytes(buf)

package github.com/tokenized/pkg/bitcoin
trusted func DoubleSha256(b) (r)
  ensures bytes(r) == hbytes(sha256(hbytes(sha256(bytes(b))))) && len(r) == 32 && fresh(r)
ufun scriptAddrOK(bytes) bool
ufun scriptAddr(bytes) u
trusted func RawAddressFromLockingScript(s) (ra, err)
  ensures (err == nil) == scriptAddrOK(bytes(s))
  ensures implies(err == nil, ra == scriptAddr(bytes(s)))
trusted func (Hash32).IsZero(h) (r)
  ensures r == (h == zerohash())

package github.com/tokenized/pkg/wire
import bytes bytes
// variable length integer encoding
ufun vint(int) bytes
define opBytes(o) = cat(hbytes(o.Hash), le(o.Index, 4))
define inBytes(i) = cat(hbytes(i.PreviousOutPoint.Hash), le(i.PreviousOutPoint.Index, 4), vint(len(i.UnlockingScript)), bytes(i.UnlockingScript), le(i.Sequence, 4))
define outBytes(o) = cat(le(o.Value, 8), vint(len(o.LockingScript)), bytes(o.LockingScript))
define txBytes(t) = cat(le(wrap32(t.Version), 4), vint(len(t.TxIn)), catall(txIn, k, len(t.TxIn), inBytes(t.TxIn[k])),
   vint(len(t.TxOut)), catall(txOut, k, len(t.TxOut), outBytes(t.TxOut[k])), le(t.LockTime, 4))
define dsha(b) = sha256(hbytes(sha256(b)))

trusted func (*MsgTx).Serialize(t, w) (err)
  requires t != nil && forall(k, 0, len(t.TxIn), t.TxIn[k] != nil) && forall(k, 0, len(t.TxOut), t.TxOut[k] != nil)
  effect content(w) := cat(content(w), txBytes(t))
  ensures implies(typeis(w, *bytes.Buffer), err == nil)
trusted func (*MsgTx).TxHash(t) (r)
  requires t != nil && forall(k, 0, len(t.TxIn), t.TxIn[k] != nil) && forall(k, 0, len(t.TxOut), t.TxOut[k] != nil)
  ensures r != nil && fresh(r) && *r == dsha(txBytes(t))
