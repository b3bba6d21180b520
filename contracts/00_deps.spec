// Contracts of dependencies.  These are assumed, not proved (listed in the evidence).
package github.com/tokenized/pkg/bitcoin

trusted func (*Hash32).Equal(h, o) (r)
  pure
  requires h != nil && o != nil
  ensures r == (*h == *o)

// the locking script of an address is a function of the address
ufun addrScript(u) bytes
ufun addrOK(u) bool
trusted func (RawAddress).LockingScript(ra) (script, err)
  ensures (err == nil) == addrOK(ra)
  ensures implies(err == nil, bytes(script) == addrScript(ra))
  ensures implies(err == nil, fresh(script))

// script templates are functions of the script bytes
ufun isP2PK(bytes) bool
ufun isP2PKH(bytes) bool
ufun mpOK(bytes) bool
ufun mpReq(bytes) int 0 4294967295
ufun mpTotal(bytes) int 0 4294967295
ufun noVerify(bytes) bytes
trusted func (Script).IsP2PK(s) (r)
  ensures r == isP2PK(bytes(s))
trusted func (Script).IsP2PKH(s) (r)
  ensures r == isP2PKH(bytes(s))
trusted func (Script).MultiPKHCounts(s) (required, total, err)
  ensures (err == nil) == mpOK(bytes(s))
  ensures implies(err == nil, required == mpReq(bytes(s)) && total == mpTotal(bytes(s)))
trusted func (*Script).RemoveHardVerify(s) (err)
  requires s != nil
  modifies *s, elems(*s)
  ensures bytes(*s) == noVerify(old(bytes(*s)))

package github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer
ufun agOK(bytes) bool
ufun agScript(bytes) bytes
ufun matchSafe(bytes) bool
ufun approveSize(int) int 0 2305843009213693952
trusted func MatchScript(s) (info, err)
  requires [C21] "MatchScript does not panic on the script" matchSafe(bytes(s))
  ensures (err == nil && info != nil) == agOK(bytes(s))
  ensures implies(info != nil, fresh(info) && bytes(info.AgentLockingScript) == agScript(bytes(s)))
trusted func ApproveUnlockingSize(n) (r)
  ensures r == approveSize(n)

package github.com/tokenized/channels/unlocking_data
trusted func NewProtocol() (p)
  ensures p != nil && fresh(p)

package github.com/tokenized/channels
import ud github.com/tokenized/channels/unlocking_data
ufun udIs(bytes) bool
ufun udSize(bytes) int 0 18446744073709551615
ufun udValue(bytes) int 0 18446744073709551615
trusted func NewProtocols(ps) (p)
  ensures p != nil && fresh(p)
trusted func (*Protocols).Parse(p, script) (msg, wrappers, err)
  requires p != nil
  ensures (err == nil && typeis(msg, *ud.UnlockingData)) == udIs(bytes(script))
  ensures implies(err == nil && typeis(msg, *ud.UnlockingData), as(msg, *ud.UnlockingData) != nil && as(msg, *ud.UnlockingData).Size == udSize(bytes(script))
     && as(msg, *ud.UnlockingData).Value == udValue(bytes(script)))
