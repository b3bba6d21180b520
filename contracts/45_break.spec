package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

// elements add up in true integers, not modulo 2^64
define total(s) = sum(part, k, len(s), s[k])

func BreakQuantity(value, breakValue, count) (r, err)
  nopanic [C21]
  requires count >= 0 && len(BreakIncrements) > 0
  ensures [C14] "parts add up to the quantity" implies(err == nil, total(r) == value)
  ensures [C14] "number of parts" implies(err == nil, len(r) <= count + 1)
  ensures [C14] "rejects only a zero break value" iff(err != nil, breakValue == 0)
  ensures [C14] "error for a zero break value" implies(err != nil, err == ErrInvalidBreakValue)
  loopinv (s own []uint64, n uint64) total(s) + n == value
  loopinv (s own []uint64) total(s) == value
  loopinv (i int, s own []uint64) len(s) <= i

// everything that makes up an output, as one number; a permutation keeps its sum and, the function being arbitrary, only a permutation does
ufun outphi(int, bytes, bool, bool, bool, bytes) int
define phiAt(tx, k) = outphi(tx.MsgTx.TxOut[k].Value, bytes(tx.MsgTx.TxOut[k].LockingScript), tx.Outputs[k].IsRemainder, tx.Outputs[k].IsDust, tx.Outputs[k].addedForFee, tx.Outputs[k].KeyID)
define phiOf(o) = outphi(o.TxOut.Value, bytes(o.TxOut.LockingScript), o.Supplement.IsRemainder, o.Supplement.IsDust, o.Supplement.addedForFee, o.Supplement.KeyID)
define builderOuts(tx) = tx != nil && tx.MsgTx != nil && outsOK(tx)

func (*TxBuilder).RandomizeOutputs(tx) ()
  nopanic [C21]
  requires builderOuts(tx)
  modifies tx.MsgTx.TxOut, tx.Outputs, elems(tx.MsgTx.TxOut), elems(tx.Outputs)
  ensures [C15] "records stay paired with outputs" builderOuts(tx) && len(tx.Outputs) == old(len(tx.Outputs))
  ensures [C15] "same collection of outputs with their records" sum(outphi, k, len(tx.Outputs), phiAt(tx, k)) == sum(outphi, k, old(len(tx.Outputs)), old(phiAt(tx, k)))
  loopinv (i int, s []*Output) sum(outphi, k, i, phiOf(s[k])) == sum(outphi, k, i, old(phiAt(tx, k)))
  loopinv (i int, s []*Output) forall(k, 0, i, s[k] != nil && fresh(s[k])) && distinct(k, 0, i, s[k])
  loopinv (s []*Output) sum(outphi, k, len(s), phiOf(s[k])) == sum(outphi, k, len(s), old(phiAt(tx, k)))
  loopinv (s []*Output) forall(k, 0, len(s), s[k] != nil && fresh(s[k])) && distinct(k, 0, len(s), s[k])
  loopinv (i int, s []*Output) forall(k, 0, i, tx.MsgTx.TxOut[k] == &s[k].TxOut && tx.Outputs[k] == &s[k].Supplement)

define inPlace(tx, n) = forall(k, 0, n, tx.MsgTx.TxOut[k].Value == old(tx.MsgTx.TxOut[k].Value) && bytes(tx.MsgTx.TxOut[k].LockingScript) == old(bytes(tx.MsgTx.TxOut[k].LockingScript))
  && tx.Outputs[k].IsRemainder == old(tx.Outputs[k].IsRemainder) && tx.Outputs[k].IsDust == old(tx.Outputs[k].IsDust) && tx.Outputs[k].addedForFee == old(tx.Outputs[k].addedForFee) && tx.Outputs[k].KeyID == old(tx.Outputs[k].KeyID))

func (*TxBuilder).RandomizeOutputsAfter(tx, index) ()
  nopanic [C21]
  requires builderOuts(tx) && index >= -1
  modifies tx.MsgTx.TxOut, tx.Outputs, elems(tx.MsgTx.TxOut), elems(tx.Outputs)
  ensures [C15] "records stay paired with outputs" builderOuts(tx) && len(tx.Outputs) == old(len(tx.Outputs))
  ensures [C15] "up to the index in place" implies(index < old(len(tx.Outputs)), inPlace(tx, index + 1)) && implies(index >= old(len(tx.Outputs)), inPlace(tx, len(tx.Outputs)))
  ensures [C15] "same collection of outputs with their records after the index" implies(index < len(tx.Outputs), sum(outphi, k, len(tx.Outputs) - index - 1, phiAt(tx, index + 1 + k)) == sum(outphi, k, old(len(tx.Outputs)) - index - 1, old(phiAt(tx, index + 1 + k))))
  loopinv (i int, s []*Output) sum(outphi, k, i, phiOf(s[k])) == sum(outphi, k, i, old(phiAt(tx, index + 1 + k)))
  loopinv (i int, s []*Output) forall(k, 0, i, s[k] != nil && fresh(s[k])) && distinct(k, 0, i, s[k])
  loopinv (s []*Output) sum(outphi, k, len(s), phiOf(s[k])) == sum(outphi, k, len(s), old(phiAt(tx, index + 1 + k)))
  loopinv (s []*Output) forall(k, 0, len(s), s[k] != nil && fresh(s[k])) && distinct(k, 0, len(s), s[k])
  loopinv (i int) len(tx.Outputs) == index + 1 + i && len(tx.MsgTx.TxOut) == index + 1 + i
  loopinv outsFirst(tx, index + 1)
  loopinv (i int, s []*Output) forall(k, 0, i, tx.MsgTx.TxOut[index + 1 + k] == &s[k].TxOut && tx.Outputs[index + 1 + k] == &s[k].Supplement)

// breaking a value over destinations
define cost(o, rate, sub) = o.TxOut.Value + ite(sub, outFee(o.TxOut.LockingScript, rate), 0)
define costs(s, rate, sub) = sum(cost, k, len(s), cost(s[k], rate, sub))
define rems(s) = sum(rems, k, len(s), ite(s[k].Supplement.IsRemainder, 1, 0))
ufun payphi(bytes, bool, bool, bytes) int
define pays(o) = payphi(bytes(o.TxOut.LockingScript), o.Supplement.IsDust, o.Supplement.addedForFee, o.Supplement.KeyID)
define outsNew(s) = forall(k, 0, len(s), s[k] != nil && fresh(s[k])) && distinct(k, 0, len(s), s[k])
define unaffordable(b, value, rate, sub) = value <= inCost(b, rate) + ite(sub, outFee(b, rate), 0)

func BreakValue(value, breakValue, addresses, dustFeeRate, feeRate, lastIsRemainder, subtractFee) (r, err)
  nopanic [C21]
  requires len(BreakIncrements) > 0
  requires forall(k, 0, len(addresses), outFee(addrScript(addresses[k].Address), feeRate) + inCost(addrScript(addresses[k].Address), feeRate) < 18446744073709551616)
  ensures [C13] "values and included fees add up to the value" implies(err == nil && len(r) > 0, costs(r, feeRate, subtractFee) == value)
  ensures [C13] "empty only when nothing is affordable" implies(err == nil && len(r) == 0, unaffordable(addrScript(addresses[0].Address), value, feeRate, subtractFee))
  ensures [C13] "no more outputs than destinations" implies(err == nil, len(r) <= len(addresses))
  ensures [C13] "pays the destinations in some order" implies(err == nil, sum(pays, k, len(r), pays(r[k])) == sum(pays, k, len(r), payphi(addrScript(addresses[k].Address), false, false, addresses[k].KeyID)))
  ensures [C13] "one remainder when asked for" implies(err == nil, rems(r) == ite(lastIsRemainder && len(r) > 0, 1, 0))
  ensures [C13, C09] "new outputs" implies(err == nil, outsNew(r))
  ensures [C13] "errors" iff(err != nil, breakValue == 0 || len(addresses) == 0) || (err != nil && exists(k, 0, len(addresses), !addrOK(addresses[k].Address)))
  loopinv (s own []*Output, n uint64) costs(s, feeRate, subtractFee) + n == value
  loopinv (s own []*Output) implies(len(s) > 0, costs(s, feeRate, subtractFee) == value)
  loopinv (s own []*Output) sum(pays, k, len(s), pays(s[k])) == sum(pays, k, len(s), payphi(addrScript(addresses[k].Address), false, false, addresses[k].KeyID))
  loopinv (s own []*Output) forall(k, 0, len(s), !s[k].Supplement.IsRemainder)
  loopinv (s own []*Output) rems(s) == 0
  loopinv (s own []*Output) rems(s) == ite(lastIsRemainder && len(s) > 0, 1, 0)
  loopinv (s own []*Output) outsNew(s)

func BreakValueLockingScripts(value, breakValue, lockingScripts, dustFeeRate, feeRate, lastIsRemainder, subtractFee) (r, err)
  nopanic [C21]
  requires len(BreakIncrements) > 0
  requires forall(k, 0, len(lockingScripts), outFee(lockingScripts[k], feeRate) + inCost(bytes(lockingScripts[k]), feeRate) < 18446744073709551616)
  ensures [C13] "values and included fees add up to the value" implies(err == nil && len(r) > 0, costs(r, feeRate, subtractFee) == value)
  ensures [C13] "empty only when nothing is affordable" implies(err == nil && len(r) == 0, unaffordable(bytes(lockingScripts[0]), value, feeRate, subtractFee))
  ensures [C13] "no more outputs than destinations" implies(err == nil, len(r) <= len(lockingScripts))
  ensures [C13] "pays the destinations in some order" implies(err == nil, sum(pays, k, len(r), pays(r[k])) == sum(pays, k, len(r), payphi(bytes(lockingScripts[k]), false, false, emptyb())))
  ensures [C13] "one remainder when asked for" implies(err == nil, rems(r) == ite(lastIsRemainder && len(r) > 0, 1, 0))
  ensures [C13] "new outputs" implies(err == nil, outsNew(r))
  ensures [C13] "errors" iff(err != nil, breakValue == 0 || len(lockingScripts) == 0)
  loopinv (s own []*Output, n uint64) costs(s, feeRate, subtractFee) + n == value
  loopinv (s own []*Output) implies(len(s) > 0, costs(s, feeRate, subtractFee) == value)
  loopinv (s own []*Output) sum(pays, k, len(s), pays(s[k])) == sum(pays, k, len(s), payphi(bytes(lockingScripts[k]), false, false, emptyb()))
  loopinv (s own []*Output) forall(k, 0, len(s), !s[k].Supplement.IsRemainder)
  loopinv (s own []*Output) rems(s) == 0
  loopinv (s own []*Output) rems(s) == ite(lastIsRemainder && len(s) > 0, 1, 0)
  loopinv (s own []*Output) outsNew(s)
