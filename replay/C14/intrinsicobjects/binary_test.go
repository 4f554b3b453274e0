package intrinsicobjects

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"testing"
)

func TestVerifBinaryBlock(t *testing.T) {
	r := rand.New(rand.NewSource(verifSeed()*1000003 + 14))
	var blk Block
	n := verifRounds(400)
	for round := 0; round < n; round++ {
		if round%7 == 0 {
			blk = Block{}
		}
		k := r.Intn(12)
		if round%97 == 50 {
			k = 251 + r.Intn(6)
		}
		var txs []*vTx
		for i := 0; i < k; i++ {
			if k > 100 {
				x := vRandTx(r)
				x.ins, x.outs = x.ins[:1], x.outs[:1]
				txs = append(txs, x)
				continue
			}
			txs = append(txs, vRandTx(r))
		}
		var b bytes.Buffer
		head := vBytes(r, 80)
		bits := uint32(0x1b000000 + r.Intn(0x2ffffff)) // compact targets of ordinary difficulty
		if round%3 == 0 {
			bits = uint32(3+r.Intn(30))<<24 | uint32(1+r.Intn(0xffffff))
		}
		if bits&0xffffff == 0 {
			bits++
		}
		binary.LittleEndian.PutUint32(head[72:76], bits)
		b.Write(head)
		vCompact(&b, uint64(k))
		for _, x := range txs {
			b.Write(x.bytes(true))
		}
		bin := b.Bytes()
		orig := append([]byte{}, bin...)
		fail := func(s string) {
			d := orig
			if len(d) > 400 {
				d = d[:400]
			}
			t.Fatalf("REPLAY seed %d block %d (%d transactions, %d bytes, starts %s): %s", verifSeed(), round, k, len(orig), hex.EncodeToString(d), s)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail(fmt.Sprint("panic: ", e))
				}
			}()
			ParseBinaryBlock(bin, &blk)
		}()
		if !bytes.Equal(orig, bin) {
			fail("the block's bytes were changed")
		}
		for i := range bin {
			bin[i] = 0xA5 // what was parsed must not live in the caller's buffer
		}
		one := sha256.Sum256(head)
		if id := sha256.Sum256(one[:]); id != [32]byte(blk.BlockHash) {
			fail(fmt.Sprintf("block hash %x, want %x", blk.BlockHash, id))
		}
		le := binary.LittleEndian
		if blk.Version != le.Uint32(head) || !bytes.Equal(blk.PrevHash[:], head[4:36]) || !bytes.Equal(blk.MerkleRoot[:], head[36:68]) ||
			blk.Time != le.Uint32(head[68:]) || blk.NBits != bits || blk.Nonce != le.Uint32(head[76:]) {
			fail(fmt.Sprintf("header fields %+v %x %x", blk.Version, blk.PrevHash, blk.MerkleRoot))
		}
		// difficulty: 0xffff * 256^26 over the target, to a part in 2^40
		target := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(int64(bits&0xffffff)), 8*uint(bits>>24)))
		gen := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(0xffff), 8*29))
		want, _ := new(big.Rat).Quo(gen, target).Float64()
		if math.Abs(blk.Difficulty-want) > want/(1<<40) {
			fail(fmt.Sprintf("difficulty %v for bits %08x, want %v", blk.Difficulty, bits, want))
		}
		if len(blk.Transactions) != k {
			fail(fmt.Sprintf("%d transactions", len(blk.Transactions)))
		}
		size, stripped := len(orig), len(orig)
		var ti, to int64
		for i, x := range txs {
			if s := vCheckTx(x, &blk.Transactions[i], blk.Storage); s != "" {
				fail(fmt.Sprintf("transaction %d: %s", i, s))
			}
			stripped -= len(x.bytes(true)) - len(x.bytes(false))
			if blk.Transactions[i].TxisStart != ti || blk.Transactions[i].TxosStart != to {
				fail(fmt.Sprintf("transaction %d starts at %d %d, want %d %d", i, blk.Transactions[i].TxisStart, blk.Transactions[i].TxosStart, ti, to))
			}
			ti += int64(len(x.ins))
			to += int64(len(x.outs))
		}
		if blk.Size != size || blk.StrippedSize != stripped || blk.Weight != 3*stripped+size {
			fail(fmt.Sprintf("size %d stripped %d weight %d, want %d %d %d", blk.Size, blk.StrippedSize, blk.Weight, size, stripped, 3*stripped+size))
		}
		if int64(len(blk.Storage.Txis)) != ti || int64(len(blk.Storage.Txos)) != to {
			fail("the storage holds entries of another block")
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", n)
}

// A transaction parsed on its own, at an offset of a larger buffer, with a hasher already in use and a
// storage that already holds others.
func TestVerifBinaryTransactionAlone(t *testing.T) {
	r := rand.New(rand.NewSource(verifSeed()*1000003 + 15))
	n := verifRounds(300)
	h := sha256.New()
	st := NewMultiTransactionStorage()
	var xs []*vTx
	var gs []*Transaction
	for round := 0; round < n; round++ {
		x := vRandTx(r)
		pre := vBytes(r, r.Intn(50))
		bin := append(append(append([]byte{}, pre...), x.bytes(true)...), vBytes(r, r.Intn(20))...)
		g := &Transaction{Size: 7, IsSegWit: !x.segwit}
		if r.Intn(2) == 0 {
			h.Write([]byte("left over"))
		}
		if got := ParseBinaryTransaction(bin, len(pre), h, g, st); got != len(x.bytes(true)) {
			t.Fatalf("REPLAY seed %d transaction %x at %d: %d bytes read, want %d", verifSeed(), x.bytes(true), len(pre), got, len(x.bytes(true)))
		}
		xs, gs = append(xs, x), append(gs, g)
		if round%20 == 19 {
			for i := range xs {
				if s := vCheckTx(xs[i], gs[i], st); s != "" {
					t.Fatalf("REPLAY seed %d transaction %d of the storage (%x): %s", verifSeed(), i, xs[i].bytes(true), s)
				}
			}
			st.Reset()
			xs, gs = nil, nil
		}
	}
	for _, v := range []uint64{0, 1, 252, 253, 254, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 + 5, math.MaxUint64} {
		for _, first := range []byte{253, 254, 255} {
			b := make([]byte, 12)
			b[2] = first
			var w int
			switch first {
			case 253:
				w = 3
				binary.LittleEndian.PutUint16(b[3:], uint16(v))
			case 254:
				w = 5
				binary.LittleEndian.PutUint32(b[3:], uint32(v))
			case 255:
				w = 9
				binary.LittleEndian.PutUint64(b[3:], v)
			}
			want := v
			if w < 9 {
				want = v % (1 << (8 * (w - 1)))
			}
			b = b[:2+w]
			if got, gw := ReadCompactSize(b, 2); got != want || gw != w {
				t.Fatalf("REPLAY compact size %x: %d (%d bytes), want %d (%d)", b[2:], got, gw, want, w)
			}
		}
	}
	fmt.Printf("REPLAY-EVALS %d\n", n+39)
}
