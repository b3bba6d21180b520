// Size, fee and dust formulas.  Numbers are written out, not taken from the code.
package github.com/tokenized/txbuilder
import wire github.com/tokenized/pkg/wire
import bitcoin github.com/tokenized/pkg/bitcoin

define varint(n) = ite(n < 253, 1, ite(n <= 65535, 3, ite(n <= 4294967295, 5, 9)))
define outSize(scriptLen) = 8 + varint(scriptLen) + scriptLen
define dustAt(size, rate) = ite(feq(rate, f32lit(0.0)), 1,
    ite(flt(fmul(f32((size + 148) * 3), rate), f32lit(1.0)), 1, f2u64(fmul(f32((size + 148) * 3), rate))))
define outFee(script, rate) = feeUp(outSize(len(script)), rate)
define outDust(script, rate) = dustAt(outSize(len(script)), rate)
define unspendable(s) = len(s) > 0 && (s[0] == 106 || (len(s) > 1 && s[0] == 0 && s[1] == 106))

// dust limits of outputs stay below 2^61
opaque define dustFine(rate) = forall(n, 0, 140737488355328, dustAt(n, rate) <= 2305843009213693952) && dustAt(34, rate) <= 2305843009213693952

func VarIntSerializeSize(val) (r)
  nopanic [C21]
  ensures r == varint(val)

func EstimatedFeeValue(size, feeRate) (r)
  nopanic [C21]
  ensures "size times rate rounded up" r == feeUp(size, feeRate)

func EstimatedFeeValueDown(size, feeRate) (r)
  nopanic [C21]
  ensures "size times rate rounded down" r == feeDown(size, feeRate)

func DustLimit(outputSize, feeRate) (r)
  reveal [C08] dustFine
  nopanic [C21]
  requires 0 <= outputSize && outputSize <= 4611686018427387904 / 4
  ensures [C18, C03, C04, C06, C07, C08, C09, C10] "dust formula" r == dustAt(outputSize, feeRate)
  ensures [C08] "dust limits are small" implies(dustFine(feeRate) && outputSize == 34, r <= 2305843009213693952)

func DustLimitForOutput(output, feeRate) (r)
  reveal [C08] dustFine
  nopanic [C21]
  requires output != nil
  ensures [C18, C03, C04, C06, C07, C08, C09, C10] "dust of the serialized output" r == outDust(output.LockingScript, feeRate)
  ensures [C08] "dust limits are small" implies(dustFine(feeRate), r <= 2305843009213693952)

func DustLimitForAddress(ra, feeRate) (r, err)
  nopanic [C21]
  ensures [C18] (err == nil) == addrOK(ra)
  ensures [C18] "dust of an output to the address" implies(err == nil, r == dustAt(outSize(len(addrScript(ra))), feeRate))

func DustLimitForLockingScript(lockingScript, feeRate) (r)
  reveal [C08] dustFine
  nopanic [C21]
  ensures [C18, C06, C07, C08, C09, C10] "dust of an output with the script" r == outDust(lockingScript, feeRate)
  ensures [C08] "dust limits are small" implies(dustFine(feeRate), r <= 2305843009213693952)

func OutputFeeAndDustForLockingScript(lockingScript, dustFeeRate, feeRate) (fee, dust)
  reveal [C08] dustFine
  nopanic [C21]
  ensures [C17, C03, C04, C06, C07, C08, C09, C10] "fee of the output" fee == outFee(lockingScript, feeRate)
  ensures [C18, C03, C04, C06, C07, C08, C09, C10] "dust of the output" dust == outDust(lockingScript, dustFeeRate)
  ensures [C08] "dust limits are small" implies(dustFine(dustFeeRate), dust <= 2305843009213693952)

func OutputFeeAndDustForAddress(ra, dustFeeRate, feeRate) (fee, dust, err)
  nopanic [C21]
  ensures [C17, C18] (err == nil) == addrOK(ra)
  ensures [C17] "fee of an output to the address" implies(err == nil, fee == feeUp(outSize(len(addrScript(ra))), feeRate))
  ensures [C18] "dust of an output to the address" implies(err == nil, dust == dustAt(outSize(len(addrScript(ra))), dustFeeRate))
