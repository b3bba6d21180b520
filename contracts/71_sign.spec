// C12: signing fills in unlocking scripts of unsigned inputs with matching keys.

package github.com/tokenized/pkg/bitcoin
import bytes bytes
import txb github.com/tokenized/txbuilder
// keys, public keys, signatures and addresses (deterministic, RFC 6979)
ufun keyPub(u) u
ufun pubBytes(u) bytes
ufun keyScriptOK(u) bool
ufun keyScript(u) bytes
ufun sigOf(u, hash) u
ufun sigBytes(u) bytes
ufun hash160(bytes) bytes
ufun addrType(u) int
ufun addrHash(u) u
ufun hash20Bytes(u) bytes
ufun keyEqual(u, u) bool
trusted func (Key).PublicKey(k) (r)
  ensures r == keyPub(k)
trusted func (PublicKey).Bytes(k) (r)
  ensures bytes(r) == pubBytes(k) && fresh(r)
trusted func (Key).LockingScript(k) (r, err)
  ensures (err == nil) == keyScriptOK(k)
  ensures implies(err == nil, bytes(r) == keyScript(k) && fresh(r))
  ensures implies(err != nil, ecause(err) != txb.ErrMissingPrivateKey)
trusted func (Key).Equal(k, other) (r)
  ensures implies(k == other, r)
trusted func (Key).Sign(k, hash) (r, err)
  ensures implies(err == nil, r == sigOf(k, hash))
  ensures implies(err != nil, ecause(err) != txb.ErrMissingPrivateKey)
trusted func (Signature).Bytes(s) (r)
  ensures bytes(r) == sigBytes(s) && fresh(r)
trusted func (Script).Equal(s, r) (eq)
  ensures eq == (bytes(s) == bytes(r))
trusted func Hash160(b) (r)
  ensures bytes(r) == hash160(bytes(b)) && fresh(r)
trusted func (RawAddress).Type(ra) (r)
  ensures r == addrType(ra)
trusted func (*RawAddress).Hash(ra) (r, err)
  requires ra != nil
  ensures implies(err == nil, r != nil && *r == addrHash(*ra))
trusted func (Hash20).Bytes(h) (r)
  ensures bytes(r) == hash20Bytes(h)
trusted func (*Hash20).Bytes(h) (r)
  requires h != nil
  ensures bytes(r) == hash20Bytes(*h)
// first item of a script
ufun firstData(bytes) bytes
trusted func ParseScriptItems(buf, count) (r, err)
  requires buf != nil
  effect content(buf) := emptyb()
  ensures implies(err == nil, forall(k, 0, len(r), r[k] != nil) && freshornil(r))
  ensures implies(err == nil && len(r) > 0 && r[0].Type == ScriptItemTypePushData, bytes(r[0].Data) == firstData(old(content(buf))))
  ensures implies(err != nil, ecause(err) != txb.ErrMissingPrivateKey)

package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin
import bytes bytes

define cacheHolds(c, tx) =
   implies(c.hashPrevOuts != nil, bytes(c.hashPrevOuts) == prevOutsHash(tx)) &&
   implies(c.hashSequence != nil, bytes(c.hashSequence) == sequencesHash(tx)) &&
   implies(c.hashOutputs != nil, bytes(c.hashOutputs) == outputsHash(tx))

define sigPush(key, hash, t) = pushData(cat(sigBytes(sigOf(key, hash)), bunit(t & 255)))
define pkhUnlock(key, hash, t) = cat(sigPush(key, hash, t), pushData(pubBytes(keyPub(key))))
define sigHash(tx, index, script, value, t) = dsha(bip143(tx, index, script, value, t))

// isKey: the keys supplied. unlocks(script, unlocking, hash): the unlocking
// script holds a signature over the hash by a supplied key the locking script
// asks for.
ufun isKey(u) bool
ufun unlocks(bytes, bytes, hash) bool
axiom {isKey(k), unlocks(s, b, h)} implies(isKey(k) && isP2PKH(s) && keyScript(k) == s && b == pkhUnlock(k, h, 65), unlocks(s, b, h))
axiom {isKey(k), unlocks(s, b, h)} implies(isKey(k) && !isP2PKH(s) && isP2PK(s) && pubBytes(keyPub(k)) == firstData(s) && b == sigPush(k, h, 65), unlocks(s, b, h))
axiom {isKey(k), unlocks(s, b, h)} implies(isKey(k) && scriptAddrOK(s) && addrType(scriptAddr(s)) == bitcoin.ScriptTypePKH && hash20Bytes(addrHash(scriptAddr(s))) == hash160(pubBytes(keyPub(k))) && b == pkhUnlock(k, h, 65), unlocks(s, b, h))
define keysOK(keys) = forall(k, 0, len(keys), isKey(keys[k]))
define single(s) = isP2PKH(s) || isP2PK(s)
define lacksKey(s, keys) = ite(isP2PKH(s), forall(j, 0, len(keys), keyScript(keys[j]) != s), forall(j, 0, len(keys), pubBytes(keyPub(keys[j])) != firstData(s)))

func InputSignature(key, tx, index, lockScript, value, hashType, hashCache) (r, err)
  requires msgOK(tx) && cacheOK(hashCache, tx) && index >= 0
  modifies hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures cacheOK(hashCache, tx)
  ensures [C10, C12] "signature of the hash followed by its type" implies(err == nil && !oddType(hashType), bytes(r) == cat(sigBytes(sigOf(key, sigHash(tx, index, lockScript, value, hashType))), bunit(hashType & 255)))
  ensures [C10, C12] "an error is not a missing key" implies(err != nil, ecause(err) != ErrMissingPrivateKey)
func P2PKHUnlockingScript(key, tx, index, lockScript, value, hashType, hashCache) (r, err)
  requires msgOK(tx) && cacheOK(hashCache, tx) && index >= 0
  modifies hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures cacheOK(hashCache, tx)
  ensures freshornil(r)
  ensures implies(r != nil, !samearr(r, hashCache.hashPrevOuts) && !samearr(r, hashCache.hashSequence) && !samearr(r, hashCache.hashOutputs))
  ensures [C10, C12] "pushes signature and public key" implies(err == nil && !oddType(hashType), bytes(r) == pkhUnlock(key, sigHash(tx, index, lockScript, value, hashType), hashType))
  ensures [C10, C12] "an error is not a missing key" implies(err != nil, ecause(err) != ErrMissingPrivateKey)
func P2PKUnlockingScript(key, tx, index, lockScript, value, hashType, hashCache) (r, err)
  requires msgOK(tx) && cacheOK(hashCache, tx) && index >= 0
  modifies hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures cacheOK(hashCache, tx)
  ensures [C10, C12] "pushes the signature" implies(err == nil && !oddType(hashType), bytes(r) == sigPush(key, sigHash(tx, index, lockScript, value, hashType), hashType))
  ensures [C10, C12] "an error is not a missing key" implies(err != nil, ecause(err) != ErrMissingPrivateKey)

define inScript(tx, k) = bytes(tx.Inputs[k].LockingScript)
define inHash(tx, k) = sigHash(tx.MsgTx, k, tx.Inputs[k].LockingScript, tx.Inputs[k].Value, 65)
define signedOK(tx, k) = unlocks(inScript(tx, k), bytes(tx.MsgTx.TxIn[k].UnlockingScript), inHash(tx, k))

func (*TxBuilder).signInput(tx, index, keys, shc) (r, err)
  optional
  requires tx != nil && msgOK(tx.MsgTx) && insOK(tx) && index >= 0 && index < len(tx.Inputs)
  requires cacheHolds(shc, tx.MsgTx)
  requires keysOK(keys)
  modifies tx.MsgTx.TxIn[index].UnlockingScript
  ensures freshornil(r)
  ensures [C10, C12] "unlocked by a supplied key that matches" implies(err == nil && single(inScript(tx, index)), signedOK(tx, index))
  ensures [C10, C12] "an error leaves the input as it was" implies(err != nil, tx.MsgTx.TxIn[index].UnlockingScript == old(tx.MsgTx.TxIn[index].UnlockingScript))
  ensures [C10, C12] "missing key only without a matching key" implies(err != nil && ecause(err) == ErrMissingPrivateKey && single(inScript(tx, index)), lacksKey(inScript(tx, index), keys))
  ensures [C10, C12] "no matching key is reported as missing" implies(isP2PKH(inScript(tx, index)) && forall(k, 0, len(keys), keyScriptOK(keys[k])) && lacksKey(inScript(tx, index), keys), err != nil && ecause(err) == ErrMissingPrivateKey)
  ensures [C10, C12] "the keys used are supplied ones" implies(err == nil, forall(k, 0, len(r), isKey(r[k])))
  loopinv (c *SigHashCache) cacheOK(c, tx.MsgTx)
  loopinv [C10, C12] (s [][]byte, i int) forall(k, 0, i, bytes(s[k]) == pubBytes(keyPub(keys[k])))
  loopinv [C10, C12] (i int) forall(k, 0, i, keyScript(keys[k]) != inScript(tx, index))
  loopinv [C10, C12] (i int) forall(k, 0, i, pubBytes(keyPub(keys[k])) != firstData(inScript(tx, index)))
  loopinv [C10, C12] (s own []bitcoin.Key) forall(k, 0, len(s), isKey(s[k]))

func appendKeys(list, keys) (r)
  optional
  requires keysOK(list) && keysOK(keys) && (!samearr(list, keys) || len(keys) == 0)
  modifies elems(list)
  ensures [C10, C12] "keys of both lists" keysOK(r)
  ensures samearr(r, list) || freshornil(r)
  loopinv (s own []bitcoin.Key) forall(k, 0, len(s), isKey(s[k]))
  loopinv (s own []bitcoin.Key) freshornil(s)

define keyless(tx, keys) = forall(k, 0, len(keys), keyScriptOK(keys[k])) &&
     forall(k, 0, len(tx.Inputs), old(len(tx.MsgTx.TxIn[k].UnlockingScript)) == 0 && isP2PKH(inScript(tx, k)) && lacksKey(inScript(tx, k), keys))
func (*TxBuilder).SignOnly(tx, keys) (r, err)
  requires tx != nil && msgOK(tx.MsgTx) && insOK(tx)
  requires keysOK(keys)
  modifies each(k, 0, len(tx.Inputs), tx.MsgTx.TxIn[k].UnlockingScript)
  ensures [C12] "inputs already signed are left alone" forall(k, 0, len(tx.Inputs), implies(old(len(tx.MsgTx.TxIn[k].UnlockingScript)) > 0, tx.MsgTx.TxIn[k].UnlockingScript == old(tx.MsgTx.TxIn[k].UnlockingScript)))
  ensures [C12] "success signs every unsigned input with a matching key" implies(err == nil, forall(k, 0, len(tx.Inputs), implies(old(len(tx.MsgTx.TxIn[k].UnlockingScript)) == 0 && single(inScript(tx, k)), signedOK(tx, k))))
  ensures [C12] "a missing key leaves the others signed" implies(err != nil && ecause(err) == ErrMissingPrivateKey, forall(k, 0, len(tx.Inputs), implies(old(len(tx.MsgTx.TxIn[k].UnlockingScript)) == 0 && single(inScript(tx, k)),
     signedOK(tx, k) || (lacksKey(inScript(tx, k), keys) && tx.MsgTx.TxIn[k].UnlockingScript == old(tx.MsgTx.TxIn[k].UnlockingScript)))))
  ensures [C12] "without any key the missing key error is returned" implies(len(tx.Inputs) > 0 && keyless(tx, keys), err != nil && ecause(err) == ErrMissingPrivateKey)
  ensures [C12] "the keys used are supplied ones" forall(k, 0, len(r), isKey(r[k]))
  loopinv (s own []bitcoin.Key) forall(k, 0, len(s), isKey(s[k]))
  loopinv (s own []bitcoin.Key) freshornil(s)
  loopinv (i int) forall(k, i, len(tx.Inputs), tx.MsgTx.TxIn[k].UnlockingScript == old(tx.MsgTx.TxIn[k].UnlockingScript))
  loopinv [C12] (i int) forall(k, 0, i, implies(old(len(tx.MsgTx.TxIn[k].UnlockingScript)) > 0, tx.MsgTx.TxIn[k].UnlockingScript == old(tx.MsgTx.TxIn[k].UnlockingScript)))
  loopinv [C12] (i int, m own bool) implies(i > 0 && keyless(tx, keys), m)
  loopinv [C12] (i int, m own bool) implies(!m, forall(k, 0, i, implies(old(len(tx.MsgTx.TxIn[k].UnlockingScript)) == 0 && single(inScript(tx, k)), signedOK(tx, k))))
  loopinv [C12] (i int) forall(k, 0, i, implies(old(len(tx.MsgTx.TxIn[k].UnlockingScript)) == 0 && single(inScript(tx, k)),
     signedOK(tx, k) || (lacksKey(inScript(tx, k), keys) && tx.MsgTx.TxIn[k].UnlockingScript == old(tx.MsgTx.TxIn[k].UnlockingScript))))

func (*TxBuilder).SignP2PKHInput(tx, index, key, hashCache) (err)
  requires tx != nil && msgOK(tx.MsgTx) && insOK(tx) && index >= 0
  requires cacheOK(hashCache, tx.MsgTx)
  requires isKey(key)
  modifies tx.MsgTx.TxIn[index].UnlockingScript, hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures cacheOK(hashCache, tx.MsgTx)
  ensures [C12] "index beyond the list is an error" implies(index >= len(tx.Inputs), err != nil)
  ensures [C12] "unlocked by the key when it matches" implies(err == nil, signedOK(tx, index))
  ensures [C12] "another key is refused" implies(index < len(tx.Inputs) && scriptAddrOK(inScript(tx, index)) && hash20Bytes(addrHash(scriptAddr(inScript(tx, index)))) != hash160(pubBytes(keyPub(key))), err != nil && tx.MsgTx.TxIn[index].UnlockingScript == old(tx.MsgTx.TxIn[index].UnlockingScript))
