HDR = '''
package txbuilder

import (
	"bytes"
	"testing"
)
'''
SEEDS = [
 dict(id='C22-placeholders-last', property='C22',
  needs='more than one key with an unsigned key above a signed one',
  what='the signature is pushed with the key of the next signed position when a key in between did not sign',
  edits=[('sign.go', '''	total := len(pubKeys)
	for i := total - 1; i >= 0; i-- {
		if len(sigs[i]) > 0 {
			if err := bitcoin.WritePushDataScript(buf, sigs[i]); err != nil {
				return nil, err
			}

			if err := bitcoin.WritePushDataScript(buf, pubKeys[i]); err != nil {
				return nil, err
			}
''', '''	total := len(pubKeys)
	signed := total
	for i := total - 1; i >= 0; i-- {
		if len(sigs[i]) > 0 {
			signed--
			if err := bitcoin.WritePushDataScript(buf, sigs[i]); err != nil {
				return nil, err
			}

			if err := bitcoin.WritePushDataScript(buf, pubKeys[signed]); err != nil {
				return nil, err
			}
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	keys := [][]byte{{1}, {2}, {3}}
	sigs := [][]byte{{9}, nil, {7}}
	b, err := P2MultiPKHUnlockingScript(2, keys, sigs)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b, []byte{1, 7, 1, 3, 0x51, 0, 1, 9, 1, 1, 0x51}) {
		t.Fatalf("script %x", b)
	}
}
'''),
 dict(id='C22-stops-at-required', property='C22',
  needs='more signatures present than the number required',
  what='signatures beyond the required number are replaced by false',
  edits=[('sign.go', '''	total := len(pubKeys)
	for i := total - 1; i >= 0; i-- {
		if len(sigs[i]) > 0 {
''', '''	total := len(pubKeys)
	remaining := int(required)
	for i := total - 1; i >= 0; i-- {
		if len(sigs[i]) > 0 && remaining != 0 {
			remaining--
''')],
  demo=HDR+'''
func TestDemo(t *testing.T) {
	keys := [][]byte{{1}, {2}, {3}}
	sigs := [][]byte{{9}, {8}, {7}}
	b, err := P2MultiPKHUnlockingScript(1, keys, sigs)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b, []byte{1, 7, 1, 3, 0x51, 1, 8, 1, 2, 0x51, 1, 9, 1, 1, 0x51}) {
		t.Fatalf("script %x", b)
	}
}
'''),
]
