package intrinsicobjects

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"testing"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
)

func vRev(h [32]byte) string {
	var b [32]byte
	for i := range h {
		b[31-i] = h[i]
	}
	return hex.EncodeToString(b[:])
}
func vID(b []byte) [32]byte { x := sha256.Sum256(b); return sha256.Sum256(x[:]) }
func vCoins(n uint64, style int) string {
	s := fmt.Sprintf("%d.%08d", n/100000000, n%100000000)
	switch style {
	case 1: // without the trailing zeros
		for s[len(s)-1] == '0' {
			s = s[:len(s)-1]
		}
		if s[len(s)-1] == '.' {
			s = s[:len(s)-1]
		}
	}
	return s
}
func vJsonTx(x *vTx, coinbase bool, r *rand.Rand) string {
	full, core := x.bytes(true), x.bytes(false)
	w := 3*len(core) + len(full)
	ver := fmt.Sprint(int64(x.version))
	if r.Intn(2) == 0 {
		ver = fmt.Sprint(int32(x.version))
	}
	s := fmt.Sprintf(`{"txid":"%s","hash":"%s","version":%s,"size":%d,"vsize":%d,"weight":%d,"locktime":%d,"vin":[`,
		vRev(vID(core)), vRev(vID(full)), ver, len(full), (w+3)/4, w, x.lock)
	for i, in := range x.ins {
		if i > 0 {
			s += ","
		}
		if coinbase {
			s += fmt.Sprintf(`{"coinbase":"%x","sequence":%d}`, in.script, in.seq)
		} else {
			s += fmt.Sprintf(`{"txid":"%s","vout":%d,"scriptSig":{"asm":"","hex":"%x"},"sequence":%d}`, vRev(in.txid), in.vout, in.script, in.seq)
		}
	}
	s += `],"vout":[`
	for i, o := range x.outs {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf(`{"value":%s,"n":%d,"scriptPubKey":{"asm":"x","hex":"%x","type":"nonstandard"}}`, vCoins(o.value, r.Intn(2)), i, o.script)
	}
	return s + `],"hex":"00"}`
}

func TestVerifJsonBlock(t *testing.T) {
	r := rand.New(rand.NewSource(verifSeed()*1000003 + 16))
	var blk, bin Block
	n := verifRounds(250)
	for round := 0; round < n; round++ {
		if round%7 == 0 {
			blk = Block{}
		}
		k := r.Intn(8)
		var txs []*vTx
		var b bytes.Buffer
		head := vBytes(r, 80)
		head[75] = byte(0x1b + r.Intn(3))
		genesis := r.Intn(5) == 0
		if genesis {
			clear(head[4:36])
		}
		b.Write(head)
		vCompact(&b, uint64(k))
		js := ""
		for i := 0; i < k; i++ {
			x := vRandTx(r)
			if len(x.ins) > 100 && r.Intn(4) > 0 {
				x.ins = x.ins[:3]
			}
			if i == 0 { // a coinbase
				x.ins = x.ins[:1]
				x.ins[0].txid = [32]byte{}
				x.ins[0].vout = 0xffffffff
			} else {
				for j := range x.ins {
					x.ins[j].vout &= 0x7fffffff
				}
			}
			for j := range x.outs {
				x.outs[j].value %= 2100000000000001
			}
			txs = append(txs, x)
			b.Write(x.bytes(true))
			if i > 0 {
				js += ","
			}
			js += vJsonTx(x, i == 0, r)
		}
		ParseBinaryBlock(b.Bytes(), &bin)
		le := binary.LittleEndian
		prev := ""
		if !genesis {
			prev = fmt.Sprintf(`"previousblockhash":"%s",`, vRev([32]byte(head[4:36])))
		}
		text := fmt.Sprintf(`{"hash":"%s","confirmations":1,"height":%d,"version":%d,"versionHex":"00","merkleroot":"%s","time":%d,"mediantime":5,"nonce":%d,"bits":"%08x","difficulty":%v,"chainwork":"00","nTx":%d,%s"strippedsize":%d,"size":%d,"weight":%d,"tx":[%s]}`,
			vRev(vID(head)), round, int32(le.Uint32(head)), vRev([32]byte(head[36:68])), le.Uint32(head[68:]), le.Uint32(head[76:]), le.Uint32(head[72:]),
			bin.Difficulty, k, prev, bin.StrippedSize, bin.Size, bin.Weight, js)
		fail := func(s string) {
			d := text
			if len(d) > 900 {
				d = d[:900] + "..."
			}
			t.Fatalf("REPLAY seed %d block %d: %s; json %s", verifSeed(), round, s, d)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail(fmt.Sprint("panic: ", e))
				}
			}()
			if err := ParseJsonBlock([]byte(text), &blk); err != nil {
				fail("error " + err.Error())
			}
		}()
		if blk.BlockHash != bin.BlockHash || blk.PrevHash != bin.PrevHash || blk.MerkleRoot != bin.MerkleRoot {
			fail(fmt.Sprintf("hashes %x %x %x, binary %x %x %x", blk.BlockHash, blk.PrevHash, blk.MerkleRoot, bin.BlockHash, bin.PrevHash, bin.MerkleRoot))
		}
		if blk.Version != bin.Version || blk.Time != bin.Time || blk.NBits != bin.NBits || blk.Nonce != bin.Nonce || blk.Difficulty != bin.Difficulty {
			fail(fmt.Sprintf("version %d time %d bits %x nonce %d difficulty %v, binary %d %d %x %d %v", blk.Version, blk.Time, blk.NBits, blk.Nonce, blk.Difficulty, bin.Version, bin.Time, bin.NBits, bin.Nonce, bin.Difficulty))
		}
		if blk.Size != bin.Size || blk.StrippedSize != bin.StrippedSize || blk.Weight != bin.Weight || len(blk.Transactions) != k {
			fail(fmt.Sprintf("size %d stripped %d weight %d with %d transactions, binary %d %d %d", blk.Size, blk.StrippedSize, blk.Weight, len(blk.Transactions), bin.Size, bin.StrippedSize, bin.Weight))
		}
		for i, x := range txs {
			y := *x
			if i == 0 {
				y.ins = append([]vIn{}, x.ins...)
				if got := blk.Transactions[0].GetTxi(blk.Storage, 0); got.TxId != (indexedhashes.Sha256{}) {
					fail("the coinbase input refers to a transaction")
				}
				g := blk.Transactions[0]
				if s := vCheckTx(&y, &g, vFixCoinbase(blk.Storage)); s != "" {
					fail("transaction 0: " + s)
				}
				continue
			}
			if s := vCheckTx(&y, &blk.Transactions[i], blk.Storage); s != "" {
				fail(fmt.Sprintf("transaction %d: %s", i, s))
			}
			// and on its own
			st := NewMultiTransactionStorage()
			var g Transaction
			if err := ParseJsonTransaction([]byte(vJsonTx(x, false, r)), &g, st); err != nil {
				fail(fmt.Sprintf("transaction %d alone: %v", i, err))
			}
			if s := vCheckTx(&y, &g, st); s != "" {
				fail(fmt.Sprintf("transaction %d alone: %s", i, s))
			}
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", n)
}

// the output number of a coinbase's input is absent from the JSON: it is left out of the comparison
func vFixCoinbase(st *MultiTransactionStorage) *MultiTransactionStorage {
	c := *st
	c.Txis = append([]Txi{}, st.Txis...)
	c.Txis[0].VOut = 0xffffffff
	return &c
}

func TestVerifJsonAmounts(t *testing.T) {
	r := rand.New(rand.NewSource(verifSeed()*1000003 + 17))
	n := verifRounds(200000)
	const top = 2100000000000000
	var batch []int64
	flush := func() {
		p := JsonTransEssential{J_txid: vRev([32]byte{1})}
		js := `{"txid":"` + vRev([32]byte{1}) + `","vin":[],"vout":[`
		for i, v := range batch {
			if i > 0 {
				js += ","
			}
			js += `{"value":` + vCoins(uint64(v), 0) + `,"scriptPubKey":{"hex":""}}`
		}
		_ = p
		var g Transaction
		st := NewMultiTransactionStorage()
		if err := ParseJsonTransaction([]byte(js+"]}"), &g, st); err != nil {
			t.Fatalf("REPLAY seed %d amounts: %v", verifSeed(), err)
		}
		for i, v := range batch {
			if got := g.GetTxo(st, int64(i)).Value; got != v {
				t.Fatalf("REPLAY amount %s read as %d satoshis, want %d", vCoins(uint64(v), 0), got, v)
			}
		}
		batch = batch[:0]
	}
	for i := 0; i < n; i++ {
		var v int64
		switch i % 4 {
		case 0:
			v = r.Int63n(top + 1)
		case 1:
			v = top - int64(i/4)%30000
		case 2:
			v = int64(i / 4)
		case 3:
			v = r.Int63n(21000000)*100000000 + int64(r.Intn(5)) - 2
			if v < 0 {
				v = 1
			}
		}
		batch = append(batch, v)
		if len(batch) == 500 {
			flush()
		}
	}
	flush()
	bad := []string{"00", vRev([32]byte{})[:63], vRev([32]byte{}) + "0"}
	for _, s := range bad {
		var g Transaction
		if err := ParseJsonTransaction([]byte(`{"txid":"`+s+`","vin":[],"vout":[]}`), &g, NewMultiTransactionStorage()); err == nil {
			t.Fatalf("REPLAY transaction id %q of the wrong length is accepted", s)
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", n)
}
