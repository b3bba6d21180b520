// C11: the signature hash is the BIP-143 digest (with fork id) of the
// transaction, whatever was cached before.

package bytes
// The content of a reader is what remains to be read from it.
trusted func NewReader(b) (r)
  ensures r != nil && fresh(r)
  effect content(r) := bytes(b)
trusted func (*Reader).Len(r) (n)
  requires r != nil
  ensures n == len(content(r))

package io
trusted func (Writer).Write(w, p) (n, err)
  effect content(w) := cat(content(w), bytes(p))

package hash
trusted func (Hash).Sum(h, b) (r)
  ensures implies(len(b) == 0, bytes(r) == hbytes(sha256(content(h))) && len(r) == 32 && freshornil(r))

package github.com/tokenized/pkg/bitcoin
// Parsing the first item of a script.
ufun itemOK(bytes) bool
ufun itemSep(bytes) bool
ufun itemRest(bytes) bytes
trusted func ParseScript(buf) (item, err)
  requires buf != nil
  effect content(buf) := itemRest(content(buf))
  ensures item != nil
  ensures (err == nil) == itemOK(old(content(buf)))
  ensures implies(err == nil, (item.Type == ScriptItemTypeOpCode && item.OpCode == OP_CODESEPARATOR) == itemSep(old(content(buf))))
axiom {itemRest(b)} implies(itemOK(b), len(itemRest(b)) < len(b) && itemRest(b) == drop(b, len(b) - len(itemRest(b))))

// Parsing a whole script: whether it parses, and what follows the last
// OP_CODESEPARATOR (d when there is none).
ufun scriptOK(bytes) bool
ufun lastSep(bytes, bytes) bytes
axiom {scriptOK(b)} scriptOK(b) == ite(len(b) == 0, true, itemOK(b) && scriptOK(itemRest(b)))
axiom {lastSep(b, d)} implies(len(b) == 0, lastSep(b, d) == d)
axiom {lastSep(b, d)} implies(len(b) > 0 && itemOK(b), lastSep(b, d) == lastSep(itemRest(b), ite(itemSep(b), itemRest(b), d)))

package github.com/tokenized/pkg/wire
trusted func (*OutPoint).Serialize(op, w) (err)
  requires op != nil
  effect content(w) := cat(content(w), opBytes(op))
trusted func (*TxOut).Serialize(t, w, pver, version) (err)
  requires t != nil
  effect content(w) := cat(content(w), outBytes(t))
trusted func WriteVarBytes(w, pver, b) (err)
  effect content(w) := cat(content(w), vint(len(b)), bytes(b))

package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bytes bytes

define msgOK(tx) = tx != nil && forall(k, 0, len(tx.TxIn), tx.TxIn[k] != nil) && forall(k, 0, len(tx.TxOut), tx.TxOut[k] != nil)
define prevOutsHash(tx) = hbytes(dsha(catall(shPrev, k, len(tx.TxIn), opBytes(&tx.TxIn[k].PreviousOutPoint))))
define sequencesHash(tx) = hbytes(dsha(catall(shSeq, k, len(tx.TxIn), le(tx.TxIn[k].Sequence, 4))))
define outputsHash(tx) = hbytes(dsha(catall(shOut, k, len(tx.TxOut), outBytes(tx.TxOut[k]))))
define cacheOK(c, tx) = c != nil &&
   implies(c.hashPrevOuts != nil, bytes(c.hashPrevOuts) == prevOutsHash(tx)) &&
   implies(c.hashSequence != nil, bytes(c.hashSequence) == sequencesHash(tx)) &&
   implies(c.hashOutputs != nil, bytes(c.hashOutputs) == outputsHash(tx))

define zero32() = hbytes(zerohash())
define shBase(t) = t & 31
define shOutputs(tx, index, t) = ite(shBase(t) != 2 && shBase(t) != 3, outputsHash(tx),
   ite(shBase(t) == 3 && index < len(tx.TxOut), hbytes(dsha(outBytes(tx.TxOut[index]))), zero32()))
define preimage(tx, index, script, value, t, outs) = cat(le(wrap32(tx.Version), 4),
   ite(t & 128 == 0, prevOutsHash(tx), zero32()),
   ite(t & 128 == 0 && shBase(t) != 2 && shBase(t) != 3, sequencesHash(tx), zero32()),
   opBytes(&tx.TxIn[index].PreviousOutPoint),
   vint(len(lastSep(bytes(script), bytes(script)))), lastSep(bytes(script), bytes(script)),
   le(value, 8), le(tx.TxIn[index].Sequence, 4), outs, le(tx.LockTime, 4), le(t | 64, 4))
define bip143(tx, index, script, value, t) = preimage(tx, index, script, value, t, shOutputs(tx, index, t))
// hash types with an undefined base that contains the bit of NONE
define oddType(t) = t & 2 == 2 && shBase(t) != 2 && shBase(t) != 3

func (*SigHashCache).Clear(shc)
  requires shc != nil
  modifies *shc
  ensures [C10, C11, C12] "no cached hash remains" shc.hashPrevOuts == nil && shc.hashSequence == nil && shc.hashOutputs == nil
func (*SigHashCache).ClearOutputs(shc)
  requires shc != nil
  modifies shc.hashOutputs
  ensures [C10, C11, C12] "no cached outputs hash remains" shc.hashOutputs == nil

func (*SigHashCache).HashPrevOuts(shc, tx) (r)
  requires msgOK(tx) && cacheOK(shc, tx)
  modifies shc.hashPrevOuts
  loopinv [C10, C11, C12] (i int, b *bytes.Buffer) content(b) == catall(shPrev, k, i, opBytes(&tx.TxIn[k].PreviousOutPoint))
  ensures [C10, C11, C12] "hash of every outpoint in order" bytes(r) == prevOutsHash(tx)
  ensures [C10, C11, C12] "cached hash is the hash of the transaction" cacheOK(shc, tx)
func (*SigHashCache).HashSequence(shc, tx) (r)
  requires msgOK(tx) && cacheOK(shc, tx)
  modifies shc.hashSequence
  loopinv [C10, C11, C12] (i int, b *bytes.Buffer) content(b) == catall(shSeq, k, i, le(tx.TxIn[k].Sequence, 4))
  ensures [C10, C11, C12] "hash of every sequence in order" bytes(r) == sequencesHash(tx)
  ensures [C10, C11, C12] "cached hash is the hash of the transaction" cacheOK(shc, tx)
func (*SigHashCache).HashOutputs(shc, tx) (r)
  requires msgOK(tx) && cacheOK(shc, tx)
  modifies shc.hashOutputs
  loopinv [C10, C11, C12] (i int, b *bytes.Buffer) content(b) == catall(shOut, k, i, outBytes(tx.TxOut[k]))
  ensures [C10, C11, C12] "hash of every output in order" bytes(r) == outputsHash(tx)
  ensures [C10, C11, C12] "cached hash is the hash of the transaction" cacheOK(shc, tx)

func afterOpCodeSeparator(lockScript) (r, err)
  optional
  loopinv [C10, C11, C12] (start int, b *bytes.Reader) start >= 0 && start <= len(lockScript) && len(content(b)) <= len(lockScript)
  loopinv [C10, C11, C12] (b *bytes.Reader) content(b) == drop(bytes(lockScript), len(lockScript) - len(content(b)))
  loopinv [C10, C11, C12] (b *bytes.Reader) itemRest(content(b)) == itemRest(drop(bytes(lockScript), len(lockScript) - len(content(b))))
  loopinv [C10, C11, C12] (b *bytes.Reader) scriptOK(content(b)) == scriptOK(bytes(lockScript))
  loopinv [C10, C11, C12] (start int, b *bytes.Reader) implies(scriptOK(bytes(lockScript)), lastSep(content(b), drop(bytes(lockScript), start)) == lastSep(bytes(lockScript), bytes(lockScript)))
  ensures [C10, C11, C12] "fails exactly when the script does not parse" (err == nil) == scriptOK(bytes(lockScript))
  ensures [C10, C11, C12] "what follows the last OP_CODESEPARATOR" implies(err == nil, bytes(r) == lastSep(bytes(lockScript), bytes(lockScript)))

func writeSignatureHashPreimageBytes(w, tx, index, lockScript, value, hashType, hashCache) (err)
  optional
  requires msgOK(tx) && cacheOK(hashCache, tx) && index >= 0
  modifies content(w), hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures [C10, C11, C12] "fails exactly without such an input or when the script does not parse" (err == nil) == (index < len(tx.TxIn) && scriptOK(bytes(lockScript)))
  ensures [C10, C11, C12] "cached hashes stay those of the transaction" cacheOK(hashCache, tx)
  ensures [C10, C11, C12] "writes the BIP-143 preimage" implies(err == nil && !oddType(hashType), content(w) == cat(old(content(w)), bip143(tx, index, lockScript, value, hashType)))
  ensures [C10, C11, C12] "undefined base types: only the outputs hash may differ" implies(err == nil && oddType(hashType),
     content(w) == cat(old(content(w)), bip143(tx, index, lockScript, value, hashType)) ||
     content(w) == cat(old(content(w)), preimage(tx, index, lockScript, value, hashType, zero32())))

func SignatureHashPreimageBytes(tx, index, lockScript, value, hashType, hashCache) (r, err)
  requires msgOK(tx) && cacheOK(hashCache, tx) && index >= 0
  modifies hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures [C10, C11, C12] "fails exactly without such an input or when the script does not parse" (err == nil) == (index < len(tx.TxIn) && scriptOK(bytes(lockScript)))
  ensures [C10, C11, C12] "cached hashes stay those of the transaction" cacheOK(hashCache, tx)
  ensures [C10, C11, C12] "BIP-143 preimage" implies(err == nil && !oddType(hashType), bytes(r) == bip143(tx, index, lockScript, value, hashType))
  ensures [C10, C11, C12] "undefined base types: only the outputs hash may differ" implies(err == nil && oddType(hashType),
     bytes(r) == bip143(tx, index, lockScript, value, hashType) || bytes(r) == preimage(tx, index, lockScript, value, hashType, zero32()))
  ensures [C11] "undefined base types: BIP-143 preimage" implies(err == nil && oddType(hashType), bytes(r) == bip143(tx, index, lockScript, value, hashType))
func SignaturePreimage(tx, index, lockScript, value, hashType, hashCache) (r, err)
  requires msgOK(tx) && cacheOK(hashCache, tx) && index >= 0
  modifies hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures [C10, C11, C12] "fails exactly without such an input or when the script does not parse" (err == nil) == (index < len(tx.TxIn) && scriptOK(bytes(lockScript)))
  ensures [C10, C11, C12] "cached hashes stay those of the transaction" cacheOK(hashCache, tx)
  ensures [C10, C11, C12] "BIP-143 preimage" implies(err == nil && !oddType(hashType), bytes(r) == bip143(tx, index, lockScript, value, hashType))
  ensures [C10, C11, C12] "undefined base types: only the outputs hash may differ" implies(err == nil && oddType(hashType),
     bytes(r) == bip143(tx, index, lockScript, value, hashType) || bytes(r) == preimage(tx, index, lockScript, value, hashType, zero32()))
  ensures [C11] "undefined base types: BIP-143 preimage" implies(err == nil && oddType(hashType), bytes(r) == bip143(tx, index, lockScript, value, hashType))
func SignatureHash(tx, index, lockScript, value, hashType, hashCache) (r, err)
  requires msgOK(tx) && cacheOK(hashCache, tx) && index >= 0
  modifies hashCache.hashPrevOuts, hashCache.hashSequence, hashCache.hashOutputs
  ensures [C10, C11, C12] "fails exactly without such an input or when the script does not parse" (err == nil) == (index < len(tx.TxIn) && scriptOK(bytes(lockScript)))
  ensures [C10, C11, C12] "cached hashes stay those of the transaction" cacheOK(hashCache, tx)
  ensures [C10, C11, C12] "BIP-143 hash" implies(err == nil && !oddType(hashType), r != nil && fresh(r) && *r == dsha(bip143(tx, index, lockScript, value, hashType)))
  ensures [C10, C11, C12] "undefined base types: only the outputs hash may differ" implies(err == nil && oddType(hashType),
     *r == dsha(bip143(tx, index, lockScript, value, hashType)) || *r == dsha(preimage(tx, index, lockScript, value, hashType, zero32())))
  ensures [C11] "undefined base types: BIP-143 hash" implies(err == nil && oddType(hashType), *r == dsha(bip143(tx, index, lockScript, value, hashType)))
