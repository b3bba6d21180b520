// Unlocking scripts for multi-signature templates.
package github.com/tokenized/pkg/bitcoin
import bytes bytes
// size-prefixed push of data
ufun pushData(bytes) bytes
trusted func WritePushDataScript(w, data) (err)
  effect content(w) := cat(content(w), pushData(bytes(data)))
  ensures implies(typeis(w, *bytes.Buffer), err == nil)

package github.com/tokenized/txbuilder
import bytes bytes

// signer k: signature, public key and true, or false
define signer(pubKeys, sigs, k) = ite(len(sigs[k]) > 0, cat(pushData(bytes(sigs[k])), pushData(bytes(pubKeys[k])), bunit(81)), bunit(0))
define signers(pubKeys, sigs, n) = catall(signer, k, n, signer(pubKeys, sigs, len(pubKeys) - 1 - k))

func P2MultiPKHUnlockingScript(required, pubKeys, sigs) (r, err)
  nopanic [C22, C21]
  requires required >= 0
  ensures [C22] "refused exactly when the lists differ in length" (err != nil) == (len(pubKeys) != len(sigs))
  ensures [C22] "signers in reverse with placeholders" implies(err == nil, bytes(r) == signers(pubKeys, sigs, len(pubKeys)))
  loopinv (i int, b *bytes.Buffer) content(b) == signers(pubKeys, sigs, len(pubKeys) - 1 - i)
  loopinv (i int, b *bytes.Buffer) content(b) == signers(pubKeys, sigs, len(pubKeys) - i)
  loopinv (i int, b *bytes.Buffer) content(b) == signers(pubKeys, sigs, i)
