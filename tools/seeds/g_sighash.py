HDR = '''
package txbuilder

import (
	"bytes"
	"crypto/sha256"
	"testing"

	"github.com/tokenized/pkg/wire"
)

var _ = bytes.Equal
var _ = sha256.Sum256

func demoTx() *wire.MsgTx {
	tx := wire.NewMsgTx(1)
	for i := 0; i < 2; i++ {
		in := &wire.TxIn{Sequence: 5 + uint32(i)}
		in.PreviousOutPoint.Hash[3] = byte(i + 1)
		tx.TxIn = append(tx.TxIn, in)
	}
	tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: 1000, LockingScript: []byte{0x51}}, &wire.TxOut{Value: 2000, LockingScript: []byte{0x52}})
	return tx
}
'''
SEEDS = [
 dict(id='C11-first-separator', property='C11',
  needs='a locking script with two OP_CODESEPARATORs',
  what='the script signed starts after the first code separator instead of the last',
  edits=[('sig_hash.go', '''		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
			start = len(lockScript) - buf.Len()
		}
''', '''		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR && start == 0 {
			start = len(lockScript) - buf.Len()
		}
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	b, err := SignaturePreimage(demoTx(), 0, []byte{0x51, 0xab, 0x52, 0xab, 0x53}, 7, SigHashAll, &SigHashCache{})
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b[104:106], []byte{1, 0x53}) {
		t.Fatalf("script %x", b[104:108])
	}
}
'''),
 dict(id='C11-single-cached', property='C11',
  needs='an input signed with SINGLE before another is signed with ALL using the same cache',
  what='the hash of the single output is kept in the cache as the hash of all outputs',
  edits=[('sig_hash.go', '''		var b bytes.Buffer
		tx.TxOut[index].Serialize(&b, 0, 0)
		w.Write(bitcoin.DoubleSha256(b.Bytes()))
''', '''		var b bytes.Buffer
		tx.TxOut[index].Serialize(&b, 0, 0)
		hashCache.hashOutputs = bitcoin.DoubleSha256(b.Bytes())
		w.Write(hashCache.hashOutputs)
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	tx := demoTx()
	want, err := SignatureHash(tx, 1, []byte{0x51}, 7, SigHashAll, &SigHashCache{})
	if err != nil {
		t.Fatal(err)
	}
	cache := &SigHashCache{}
	if _, err := SignatureHash(tx, 0, []byte{0x51}, 7, SigHashSingle, cache); err != nil {
		t.Fatal(err)
	}
	got, err := SignatureHash(tx, 1, []byte{0x51}, 7, SigHashAll, cache)
	if err != nil {
		t.Fatal(err)
	}
	if !got.Equal(want) {
		t.Fatal("the cache changes the hash")
	}
}
'''),
]
