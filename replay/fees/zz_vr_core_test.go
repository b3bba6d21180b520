package fees

// Concrete search for a failing input, run only after a proof obligation failed.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
)

type vr struct {
	r     *rand.Rand
	log   []string
	hints []uint64
	keys  []bitcoin.Key
}

type vrFail struct{ msg string }

func (v *vr) logf(f string, a ...interface{}) { v.log = append(v.log, fmt.Sprintf(f, a...)) }
func (v *vr) fail(f string, a ...interface{}) { panic(vrFail{fmt.Sprintf(f, a...)}) }
func (v *vr) check(ok bool, f string, a ...interface{}) {
	if !ok {
		v.fail(f, a...)
	}
}

var vrProps = map[string]func(v *vr){}

var vrKeys []bitcoin.Key

func vrInitKeys() {
	if len(vrKeys) > 0 {
		return
	}
	for i := 0; i < 8; i++ {
		b := make([]byte, 32)
		for j := range b {
			b[j] = byte(i*37 + j*11 + 1)
		}
		b[0] = 1
		k, err := bitcoin.KeyFromNumber(b, bitcoin.MainNet)
		if err == nil {
			vrKeys = append(vrKeys, k)
		}
	}
}

func TestVerifReplay(t *testing.T) {
	prop, out := os.Getenv("VERIF_REPLAY_PROP"), os.Getenv("VERIF_REPLAY_OUT")
	run := vrProps[prop]
	if run == nil {
		t.Skip("no replay harness for this property here")
	}
	vrInitKeys()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VERIF_REPLAY_SECS"))
	if secs == 0 {
		secs = 20
	}
	var hints []uint64
	for _, h := range strings.Split(os.Getenv("VERIF_REPLAY_HINTS"), ",") {
		if n, err := strconv.ParseUint(strings.TrimSpace(h), 10, 64); err == nil {
			hints = append(hints, n)
		}
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	n := int64(0)
	for time.Now().Before(deadline) {
		n++
		v := &vr{r: rand.New(rand.NewSource(seed*1000003 + n)), hints: hints, keys: vrKeys}
		msg := v.try(run)
		if msg != "" {
			text := fmt.Sprintf("%s\nproperty %s, seed %d, iteration %d\n%s\n", msg, prop, seed, n, strings.Join(v.log, "\n"))
			if out != "" {
				os.WriteFile(out, []byte(text), 0644)
			}
			t.Fatal(text)
		}
	}
	t.Logf("%d cases", n)
}

func (v *vr) try(run func(v *vr)) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(vrFail); ok {
				msg = f.msg
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			for _, l := range st {
				// known panic inside the dependency (see known_findings.txt)
				if strings.Contains(l, "agent_bitcoin_transfer.MatchScript") {
					return
				}
			}
			msg = fmt.Sprintf("panic: %v", r)
			for _, l := range st {
				if strings.Contains(l, "/txbuilder") || strings.Contains(l, ".go:") {
					v.log = append(v.log, "  "+strings.TrimSpace(l))
				}
			}
		}
	}()
	run(v)
	return ""
}

// ---- generators ----

func (v *vr) coin(p float64) bool { return v.r.Float64() < p }
func (v *vr) n(max int) int {
	if max <= 0 {
		return 0
	}
	return v.r.Intn(max)
}

func (v *vr) small(max int) int { // skewed to small, sometimes around a hint
	if len(v.hints) > 0 && v.coin(0.2) {
		h := v.hints[v.n(len(v.hints))]
		if h <= uint64(max) {
			return int(h)
		}
	}
	return v.n(max + 1)
}

func (v *vr) value() uint64 {
	switch v.n(8) {
	case 0:
		return uint64(v.n(10))
	case 1:
		return uint64(v.n(700))
	case 2:
		return 546
	case 3:
		if len(v.hints) > 0 {
			return v.hints[v.n(len(v.hints))] & (1<<50 - 1)
		}
		return uint64(v.n(100000))
	case 4:
		return uint64(v.r.Int63n(1 << 40))
	}
	return uint64(v.n(20000))
}

func (v *vr) hash() bitcoin.Hash32 {
	var h bitcoin.Hash32
	h[0] = byte(v.n(3)) // few distinct values, differing in odd places
	if v.coin(0.3) {
		h[31] = byte(v.n(3))
	}
	if v.coin(0.3) {
		v.r.Read(h[:])
	}
	return h
}

func (v *vr) index32() uint32 {
	switch v.n(4) {
	case 0:
		return uint32(v.n(2))
	case 1:
		return math.MaxUint32 - uint32(v.n(2))
	case 2:
		return uint32(v.n(300))
	}
	return uint32(v.n(4))
}

func (v *vr) key() bitcoin.Key { return v.keys[v.n(len(v.keys))] }

func (v *vr) keyID() string {
	if v.coin(0.3) {
		return ""
	}
	return fmt.Sprintf("key-%d", v.n(1000))
}

var vrScriptCache = map[string]bitcoin.Script{}

func vrP2PKH(k bitcoin.Key) bitcoin.Script {
	if c, ok := vrScriptCache[string(k.Number())]; ok {
		return append(bitcoin.Script{}, c...)
	}
	s := vrP2PKHCompute(k)
	vrScriptCache[string(k.Number())] = s
	return append(bitcoin.Script{}, s...)
}

func vrP2PKHCompute(k bitcoin.Key) bitcoin.Script {
	s, err := k.LockingScript()
	if err != nil {
		panic(err)
	}
	return s
}

var vrPubCache = map[string][]byte{}

func vrP2PK(k bitcoin.Key) bitcoin.Script {
	pub := vrPubCache[string(k.Number())]
	if pub == nil {
		pub = k.PublicKey().Bytes()
		vrPubCache[string(k.Number())] = pub
	}
	return bitcoin.Script(append(append([]byte{byte(len(pub))}, pub...), bitcoin.OP_CHECKSIG))
}

func (v *vr) multiPKH() bitcoin.Script {
	n := 1 + v.n(5)
	ra, err := func() (bitcoin.RawAddress, error) {
		var pkhs [][]byte
		for i := 0; i < n; i++ {
			h := make([]byte, 20)
			v.r.Read(h)
			pkhs = append(pkhs, h)
		}
		return bitcoin.NewRawAddressMultiPKH(1+v.n(n), pkhs)
	}()
	if err != nil {
		panic(err)
	}
	s, err := ra.LockingScript()
	if err != nil {
		panic(err)
	}
	return s
}

func (v *vr) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

func (v *vr) opReturn() bitcoin.Script {
	b := v.bytes(v.n(60))
	s := []byte{bitcoin.OP_FALSE, bitcoin.OP_RETURN, byte(len(b))}
	return bitcoin.Script(append(s, b...))
}

func (v *vr) script() bitcoin.Script {
	switch v.n(8) {
	case 0, 1, 2:
		return vrP2PKH(v.key())
	case 3:
		return vrP2PK(v.key())
	case 4:
		return v.multiPKH()
	case 5:
		return v.opReturn()
	case 6:
		if v.coin(0.5) {
			return nil
		}
		return bitcoin.Script(v.bytes(v.n(300)))
	}
	return vrP2PKH(v.key())
}

func (v *vr) rate() float32 {
	return []float32{0, 0.05, 0.05, 0.1, 0.25, 0.5, 0.5, 1, 1, 1.7, 3, 0.3333, 0.0625, 10}[v.n(14)]
}

func (v *vr) utxo() bitcoin.UTXO {
	return bitcoin.UTXO{Hash: v.hash(), Index: v.index32(), Value: v.value(), LockingScript: v.script(), KeyID: v.keyID()}
}

// ---- formulas (independent of the code under test) ----

func vrVarInt(n uint64) uint64 {
	switch {
	case n < 0xfd:
		return 1
	case n <= 0xffff:
		return 3
	case n <= 0xffffffff:
		return 5
	}
	return 9
}
func vrOutSize(script string) uint64 { return 8 + vrVarInt(uint64(len(script))) + uint64(len(script)) }

func (v *vr) agentScript() bitcoin.Script {
	ag := vrP2PKH(v.key())
	switch v.n(4) {
	case 0:
		ag = vrP2PK(v.key())
	case 1:
		ag = v.multiPKH()
	case 2:
		if s, err := agent_bitcoin_transfer.CreateScript(vrP2PKH(v.key()), vrP2PKH(v.key()), vrP2PKH(v.key()), 1000, vrP2PKH(v.key()), 5); err == nil && v.coin(0.1) {
			ag = s
		}
	}
	s, err := agent_bitcoin_transfer.CreateScript(ag, vrP2PKH(v.key()), vrP2PKH(v.key()), v.value(), vrP2PKH(v.key()), uint32(v.n(100000)))
	if err != nil {
		return vrP2PKH(v.key())
	}
	return s
}


func (v *vr) udScript(size, value uint64) bitcoin.Script {
	s, err := channels.Wrap(&unlocking_data.UnlockingData{Size: size, Value: value, Party: unlocking_data.Party(v.n(3))})
	if err != nil {
		panic(err)
	}
	return s
}


// vrUnlock: size of the unlocking script by template, and whether there is one.
func vrUnlock(s bitcoin.Script) (uint64, bool) {
	if s.IsP2PK() {
		return 74, true
	}
	if s.IsP2PKH() {
		return 108, true
	}
	if req, total, err := s.MultiPKHCounts(); err == nil {
		return uint64(total-req) + 109*uint64(req), true
	}
	if info, err := agent_bitcoin_transfer.MatchScript(s); err == nil && info != nil {
		c := append(bitcoin.Script{}, info.AgentLockingScript...)
		c.RemoveHardVerify()
		n, ok := vrUnlock(c)
		return uint64(agent_bitcoin_transfer.ApproveUnlockingSize(int(n))), ok
	}
	return 0, false
}


func vrUD(s bitcoin.Script) (*unlocking_data.UnlockingData, bool) {
	if len(s) < 2 || s[0] != bitcoin.OP_FALSE || s[1] != bitcoin.OP_RETURN {
		return nil, false
	}
	msg, _, err := channels.NewProtocols(unlocking_data.NewProtocol()).Parse(s)
	if err != nil {
		return nil, false
	}
	u, ok := msg.(*unlocking_data.UnlockingData)
	return u, ok
}

func vrInSize(n uint64) uint64 { return 40 + vrVarInt(n) + n }
