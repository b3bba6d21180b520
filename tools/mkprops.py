#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the text is easy to edit).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p("C01","Input edits are exact and keep input records paired with inputs",
 "Starting from a builder with one input record per transaction input, every operation that adds, inserts, updates or removes an input and returns no error performs exactly that one sequence edit on both the transaction's inputs and the builder's input records: record i always carries the locking script, value and key ID supplied for the output spent by input i, the new input carries the supplied outpoint with the maximum sequence number, and all other inputs and records are kept unchanged in the same order. An operation that returns an error, including for an index beyond the list, leaves inputs and records exactly as they were.",
 ["inputs","histories"],"all builders with paired inputs and records, all UTXOs, outpoints and in-range or too-large indexes, any sequence of operations",
 "Unit tests add a handful of inputs at the end; shared backing arrays, spare slice capacity and arbitrary positions give unboundedly many append/copy layouts where a shifted or overwritten element only shows for particular lengths, capacities and indexes.",
 ["inputs.go"],[("AddInputUTXO, AddInput","inputs.go:21-44,111-131"),("UpdateInputUTXO, InsertInput","inputs.go:46-105"),("RemoveInput","inputs.go:133-141")])
p("C02","No operation lets a transaction spend the same outpoint twice",
 "If no two inputs of a builder refer to the same outpoint then after any operation that adds, inserts or updates inputs, including automatic funding from a list of UTXOs that itself contains repeats, still no two inputs do. Adding, inserting or updating to an outpoint already used by another input fails with the duplicate input error, and an outpoint not used by another input is never rejected as a duplicate.",
 ["inputs","histories"],"all builders, all outpoints (including ones differing only in index or only in hash), all UTXO lists",
 "Every pair of positions and every near-miss outpoint must be distinguished; a test only tries a few pairs.",
 ["inputs.go"],[("duplicate scan in AddInputUTXO/UpdateInputUTXO/InsertInput/AddInput","inputs.go:23-28,51-62,79-85,115-121"),("duplicate handling in funding loops","inputs.go:203-213,327-335")])
p("C03","Output edits are exact and keep output records paired with outputs",
 "Starting from a builder with one output record per transaction output, every operation that adds, inserts, removes or re-scripts an output, or appends a list of outputs, and returns no error performs exactly that sequence edit on both the transaction's outputs and the builder's output records, with the supplied locking script, remainder flag, dust flag and key ID on the affected entry and every other output (script and value) and record kept unchanged in the same order. An operation that returns an error leaves outputs and records exactly as they were.",
 ["inputs","histories"],"all builders with paired outputs and records, all scripts, values, flags and indexes, any sequence of operations",
 "Same as for inputs: aliasing between the old and new slices depends on lengths, capacity and position that tests do not enumerate.",
 ["outputs.go","break_value.go"],[("AddOutput, InsertOutput, RemoveOutput","outputs.go:170-262"),("UpdateOutput, SetChangeLockingScript","outputs.go:100-116,309-317"),("AddOutputs","break_value.go:362-368")])
p("C04","Output values obey the dust and minimum-fee rules",
 "Adding or inserting an output flagged as dust gives it exactly the dust limit of its script at the builder's dust fee rate; an output not flagged as dust gets exactly the requested value and is refused with the below-dust error exactly when the value is less than the fee for including that output, unless the script is unspendable or it is the remainder output of a send-max builder. Adding value to a dust output replaces its value and clears the flag (refused below the dust limit), adding value to another output increases it by exactly that amount, subtracting never leaves an output below its dust limit and otherwise decreases it by exactly that amount, and setting an output to dust sets exactly its dust limit; no other output changes.",
 ["inputs"],"all values (including below dust, zero and near the 64-bit limit), scripts, rates and flag combinations",
 "The guards compare unsigned 64-bit values whose differences wrap around; tests do not reach the wrapping values or every flag combination.",
 ["outputs.go"],[("AddOutput/InsertOutput value rules","outputs.go:186-195,215-224"),("AddValueToOutput, SubtractValueFromOutput, SetOutputToDust","outputs.go:264-307")])
p("C05","Value totals and current fee are the exact sums over the transaction",
 "The reported input value is the sum over all inputs of the spent value (taken from embedded unlocking data when the record has no value), the reported output value with and without change is the sum over all, respectively all non-remainder, outputs, and the remainder is the sum over remainder outputs of value plus the rounded down fee of that output. The reported fee is input value minus output value, zero when outputs exceed inputs, and the signed fee is the signed difference; none of these queries modifies the builder.",
 ["inputs"],"all builders with any number of inputs and outputs and any flags",
 "The sums must be right for every number of inputs and outputs and every flag pattern, not just the sampled transactions.",
 ["fees.go"],[("InputValue, OutputValue, Remainder","fees.go:309-369"),("Fee, ActualFee","fees.go:200-215")])
p("C06","Fee adjustment conserves value and touches only a change output",
 "Adjusting the fee by an amount never alters any input, nor the value, script or record of any output other than one remainder output: either the first remainder output changes by exactly the negated amount, or (when it would fall below its cost and was itself added by fee calculation) that output alone is removed, or a single change output paying the change script with the change key ID is appended, or nothing changes. On success the total value leaving the transaction as fee has moved toward the target by exactly the amount, except for the removed or uncreated change that is left to the fee, so the fee after a success is never less than the fee before plus the amount.",
 ["inputs","histories"],"all builders with paired records, all signed 64-bit amounts except the minimum, all change configurations",
 "The function has many interacting cases (sign of amount, existing change, added-for-fee flag, dust comparison) and works with wrapping unsigned values.",
 ["fees.go"],[("AdjustFee","fees.go:371-486")])
p("C07","Fee calculation reaches the estimated fee or reports why it cannot",
 "When calculating the fee succeeds, the transaction's actual fee is at least the fee it had to reach, that is the estimate made for it on entry, and the excess over it is only what change creation left below its cost; when zeroizing succeeds the fee is never negative. Only change outputs are affected, and when the fee is short with no change to take it from an insufficient value error is returned.",
 ["inputs"],"all builders, fee rates and change configurations with values below the maximum coin supply",
 "Depends on the combination of every case of the fee adjustment with estimated sizes.",
 ["fees.go"],[("CalculateFee, ZeroizeFee","fees.go:289-300")])
p("C08","Funding success means outputs plus fee are covered",
 "When adding funding returns no error, the value of all inputs is at least the value of all outputs plus the estimated fee for the resulting transaction at the fee rate; UTXOs are consumed in the order given with none used twice, no existing input is changed, and no existing output changes except that the value of a remainder output may change. When the given UTXOs cannot cover the outputs and fee, an insufficient value error is returned.",
 ["inputs"],"all builders, UTXO lists (any length, repeats, any values up to the coin supply), change configurations and valid fee rates",
 "The loop accumulates fees and needed funding over an unbounded list of UTXOs with wrapping subtraction, rounding per item, and a size estimate that changes with the counts.",
 ["inputs.go"],[("AddFunding","inputs.go:143-262")])
p("C09","Funding with broken change covers outputs plus fee",
 "When funding with broken change returns no error, the value of all inputs is at least the value of all outputs plus the estimated fee for the resulting transaction at the fee rate; no existing input or output changes other than a remainder output growing, and every added output pays one of the given change addresses with its key ID.",
 ["inputs","schedules"],"all builders, UTXO lists, break values, change address lists and random choices",
 "Random values and an unbounded number of inputs and outputs; a few seeds do not show that the fee is always covered.",
 ["inputs.go","break_value.go"],[("AddFundingBreakChange","inputs.go:264-431")])
p("C10","A fully signed result pays at least the fee rate and commits to the final tx",
 "When signing with fee adjustment returns no error, every input has been signed over the final outputs and the fee is at least the fee rate times the final serialized size; the outputs that are not remainder outputs are exactly those before signing, in order, and no input's outpoint, sequence or record changed.",
 ["inputs","histories"],"all builders and key sets; all sizes of produced signatures",
 "The sign, measure, adjust loop depends on signature lengths that vary per run, and on hash caching across iterations.",
 ["sign.go"],[("Sign","sign.go:63-168")])
p("C11","Signature hashes equal the BIP-143 fork-ID digest for every hash type",
 "For every transaction, input index, locking script, value and hash type, the signature preimage is the concatenation of version, previous-outpoints hash, sequence hash, outpoint, length-prefixed locking script after the last code separator, value, sequence, outputs hash, lock time and hash type with fork ID, where each of the three hashes is the double SHA-256 over all inputs or outputs, the single output, or zeros exactly as BIP-143 prescribes for the base type and the any-one-can-pay flag. The signature hash is the double SHA-256 of that preimage, the cache never changes the result while the transaction is unchanged, and an index with no input is an error.",
 ["inputs","histories"],"all transactions, indexes, scripts, values, 32-bit hash types and cache states",
 "There are 2^32 hash types and unboundedly many transaction shapes; test vectors cover a few base types.",
 ["sig_hash.go"],[("SigHashCache","sig_hash.go:41-101"),("SignatureHash, SignaturePreimage, SignatureHashPreimageBytes","sig_hash.go:103-216"),("afterOpCodeSeparator","sig_hash.go:218-241")])
p("C12","Signing only fills in unlocking scripts with matching keys",
 "Signing inputs without fee adjustment changes nothing but the unlocking scripts of inputs that were unsigned: each newly signed P2PKH or P2PK input is unlocked by a supplied key that matches its locking script, with a signature over that input's script and value of the transaction as it is, and inputs already signed are left alone. The keys returned are among those supplied, and if any unsigned input lacks a key the missing private key error is returned while the others are still signed.",
 ["inputs"],"all builders with any mix of script types, signed and unsigned inputs, and any key list",
 "Any combination of inputs, orders of keys and already signed inputs; tests sign one or two inputs.",
 ["sign.go"],[("SignOnly, signInput, appendKeys","sign.go:170-370"),("P2PKHUnlockingScript, P2PKUnlockingScript, InputSignature","sign.go:372-425,473-491")])
p("C13","Breaking a value into outputs conserves the value minus paid fees",
 "Breaking a value over a list of addresses or locking scripts returns outputs whose values plus, when fees are subtracted, the fee for including each returned output add up to exactly the value, unless no output is affordable and the result is empty. There are no more outputs than destinations, every output pays a distinct one of the given destinations with its key ID, and at most one output is marked as the remainder (exactly one when requested and the result is not empty).",
 ["inputs","schedules"],"all values, break values of at least five, destination lists, rates, flags and random choices",
 "The amounts are random; conservation must hold for every draw and every rounding path.",
 ["break_value.go"],[("BreakValue","break_value.go:23-160"),("BreakValueLockingScripts","break_value.go:162-270")])
p("C14","Breaking a quantity conserves it",
 "Breaking a quantity into random parts returns values that add up to exactly the quantity, with no more than the requested number of parts plus one for the rest, for every random draw.",
 ["inputs","schedules"],"all quantities, positive break values, counts of at least two and random choices",
 "Random amounts with wrapping 64-bit arithmetic.",
 ["break_value.go"],[("BreakQuantity","break_value.go:272-360")])
p("C15","Randomizing outputs is a permutation that keeps records with outputs",
 "Randomizing outputs reorders the transaction's outputs and the builder's output records by the same permutation: the collection of (value, locking script, record) triples is exactly the one before. Randomizing after an index leaves every output and record up to that index in place and does the same to the rest.",
 ["inputs","schedules"],"all builders, all indexes, all shuffles",
 "The result depends on a random shuffle; a mispairing is only visible when records differ and for particular draws.",
 ["break_value.go"],[("RandomizeOutputs, RandomizeOutputsAfter","break_value.go:370-420")])
p("C16","A copied builder is equal to and independent of the original",
 "Copying a builder yields one with equal inputs, outputs, records, scripts, rates and flags, and shares no mutable memory with the original: no slice, input, output, record or script buffer of the copy is one of the original's, and copying modifies nothing. Copies of an input record, an output record and a string are likewise equal in every field.",
 ["inputs"],"all builders",
 "Sharing is invisible until a later mutation happens to hit the shared memory; each field needs its own check.",
 ["txbuilder.go"],[("Copy","txbuilder.go:82-136")])
p("C17","Estimated sizes and fees follow the serialization format exactly",
 "For every locking script the estimated unlocking size is that of its template (P2PK, P2PKH, multi-PKH by its counts, agent transfer by its agent script), input and output sizes add the fixed fields and the variable length prefix, and the estimated size of a transaction is the fixed overhead plus both count prefixes plus the sum over inputs (embedded unlocking data size where the script is unknown, P2PKH size as fallback) and outputs. The estimated fee is that size times the fee rate rounded up, output sizes equal what is serialized, and fee and size helpers for UTXOs, scripts and addresses agree with these formulas.",
 ["inputs"],"all scripts, builders with any number of inputs and outputs, all rates",
 "Length prefixes change at 253 and 65536 elements or bytes and every template combination matters; tests use a few.",
 ["fees.go","inputs.go","outputs.go"],[("UnlockingScriptSize, InputSize, OutputSize, EstimatedSize, EstimatedFee","fees.go:110-287"),("UTXOFee and related","inputs.go:433-480"),("OutputTotalCost, OutputFeeAndDustForLockingScript","outputs.go:50-90")])
p("C18","The dust limit follows its formula at every size and rate",
 "The dust limit of an output is three times the size of the output plus a standard input, times the dust fee rate, rounded down and never less than one satoshi, and the variants taking an output, an address or a locking script give the limit for the serialized size of that output.",
 ["inputs"],"all output sizes and fee rates",
 "Tests check a few sizes and rates.",
 ["outputs.go"],[("DustLimit and variants","outputs.go:12-48")])
p("C19","The standalone fee package computes the same formulas for any transaction",
 "For any transaction with outputs and any unlocker, the standalone fee functions return the sum of input sizes and output sizes with prefixes for size, that size times the rate rounded up for fee, the sum of spent values (embedded unlocking data value when the output value is unknown) for input value, the sum of outputs for output value, and their signed difference as fee. Errors from the transaction or unlocker are passed on, missing unlocking data is reported as such, and unlocking sizes for a locking script agree with its template or report the wrong template error.",
 ["inputs"],"all implementations of the transaction and unlocker interfaces, all scripts and rates",
 "The package has no unit tests of its own and must work for every implementation of its interfaces.",
 ["fees/fees.go"],[("EstimateSize, EstimateInputSize, EstimateUnlockingSize, OutputTotalCost","fees/fees.go:44-170"),("Fee, InputsValue, OutputsValue, InputValue","fees/fees.go:172-245"),("DustLimit and variants","fees/fees.go:247-325")])
p("C20","Builders made from existing transactions pair every input with its spent output",
 "Building from a transaction and its parent transactions, UTXOs or an expanded transaction keeps the transaction as it is and creates one record per input and per output: each input record holds the locking script and value (and key ID for UTXOs) of exactly the output its outpoint refers to in the supplied data, and output records start with no flags. The missing input data error is returned exactly when some input's spent output was not supplied.",
 ["inputs"],"all transactions, parent lists and UTXO lists in any order with repeats or missing entries",
 "The pairing must be right for every order and subset of supplied parents.",
 ["txbuilder.go"],[("NewTxBuilderFromTransactionWithOutputs, NewTxBuilderFromWire, NewTxBuilderFromWireUTXOs","txbuilder.go:138-262")])
p("C21","No operation panics on a well-formed builder",
 "On a builder with paired non-nil records, no method or helper panics for any argument values allowed by its documentation: indexes at or beyond the end of the list are reported as errors, unknown scripts, empty key lists, empty UTXO lists, zero values and zero rates are handled, and no index, nil, division or slice bound fault occurs.",
 ["inputs"],"all well-formed builders and all non-negative indexes, values, scripts, keys and rates",
 "A panic needs one unlucky combination of lengths and values; tests do not enumerate them.",
 ["txbuilder.go","inputs.go","outputs.go","fees.go","break_value.go","sign.go","sig_hash.go","fees/fees.go"],[("every function under contract","all files")])
p("C22","Multi-signature unlocking scripts list signers in reverse with placeholders",
 "The unlocking script built from ordered public keys and signatures is, for signers in reverse order, the signature push, the public key push and a true opcode for each present signature and a false opcode for each absent one, and lists of different lengths are refused.",
 ["inputs"],"all numbers of signers and all subsets of present signatures",
 "Every subset and length of signers must be laid out right.",
 ["sign.go"],[("P2MultiPKHUnlockingScript","sign.go:432-466")])
p("C23","Read accessors report the transaction as it is",
 "The accessors for counts, inputs, outputs, spent outputs, transaction ID and serialized bytes return exactly the corresponding element of the transaction or record, report an error for an input without spent output data or with an index beyond the list, report an input as signed exactly when its unlocking script is not empty, and modify nothing.",
 ["inputs"],"all builders and indexes",
 "Must hold for each index and each builder and never write to the builder.",
 ["txbuilder.go","sign.go"],[("Serialize, TxID, GetMsgTx, InputCount, Input, InputOutput, OutputCount, Output","txbuilder.go:264-380"),("InputIsSigned, AllInputsAreSigned","sign.go:13-31")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
