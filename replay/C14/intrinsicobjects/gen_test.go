package intrinsicobjects

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
)

func verifSeed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func verifRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

type vIn struct {
	txid   [32]byte
	vout   uint32
	script []byte
	seq    uint32
	wit    [][]byte
}
type vOut struct {
	value  uint64
	script []byte
}
type vTx struct {
	version, lock uint32
	segwit        bool
	ins           []vIn
	outs          []vOut
}

func vCompact(b *bytes.Buffer, n uint64) {
	var t [9]byte
	switch {
	case n < 253:
		b.WriteByte(byte(n))
	case n <= 0xffff:
		t[0] = 253
		binary.LittleEndian.PutUint16(t[1:], uint16(n))
		b.Write(t[:3])
	case n <= 0xffffffff:
		t[0] = 254
		binary.LittleEndian.PutUint32(t[1:], uint32(n))
		b.Write(t[:5])
	default:
		t[0] = 255
		binary.LittleEndian.PutUint64(t[1:], n)
		b.Write(t[:9])
	}
}
func v32(b *bytes.Buffer, n uint32) {
	var t [4]byte
	binary.LittleEndian.PutUint32(t[:], n)
	b.Write(t[:])
}
func (x *vTx) bytes(wit bool) []byte {
	var b bytes.Buffer
	v32(&b, x.version)
	if wit && x.segwit {
		b.Write([]byte{0, 1})
	}
	vCompact(&b, uint64(len(x.ins)))
	for _, i := range x.ins {
		b.Write(i.txid[:])
		v32(&b, i.vout)
		vCompact(&b, uint64(len(i.script)))
		b.Write(i.script)
		v32(&b, i.seq)
	}
	vCompact(&b, uint64(len(x.outs)))
	for _, o := range x.outs {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], o.value)
		b.Write(t[:])
		vCompact(&b, uint64(len(o.script)))
		b.Write(o.script)
	}
	if wit && x.segwit {
		for _, i := range x.ins {
			vCompact(&b, uint64(len(i.wit)))
			for _, w := range i.wit {
				vCompact(&b, uint64(len(w)))
				b.Write(w)
			}
		}
	}
	v32(&b, x.lock)
	return b.Bytes()
}

func vLen(r *rand.Rand) int {
	switch r.Intn(14) {
	case 0:
		return 252 + r.Intn(5)
	case 1:
		return r.Intn(600)
	case 2:
		return 0
	case 3:
		if r.Intn(12) == 0 {
			return 65534 + r.Intn(4)
		}
		return 1
	}
	return r.Intn(40)
}
func vBytes(r *rand.Rand, n int) []byte { b := make([]byte, n); r.Read(b); return b }
func vCount(r *rand.Rand) int {
	switch r.Intn(25) {
	case 0:
		return 250 + r.Intn(8)
	case 1:
		return 20
	}
	return 1 + r.Intn(4)
}
func vRandTx(r *rand.Rand) *vTx {
	x := &vTx{version: r.Uint32(), lock: r.Uint32(), segwit: r.Intn(2) == 0}
	if r.Intn(3) > 0 {
		x.version = uint32(1 + r.Intn(2))
		x.lock = 0
	}
	ni, no := vCount(r), vCount(r)
	big := ni > 100 || no > 100
	for i := 0; i < ni; i++ {
		in := vIn{vout: r.Uint32(), seq: r.Uint32()}
		if r.Intn(3) > 0 {
			in.vout = uint32(r.Intn(300))
			in.seq = 0xffffffff
		}
		if r.Intn(6) == 0 {
			in.vout = 0xffffffff // as in a coinbase
		} else {
			r.Read(in.txid[:])
		}
		if big {
			in.script = vBytes(r, r.Intn(3))
		} else {
			in.script = vBytes(r, vLen(r))
		}
		if x.segwit {
			nw := r.Intn(4)
			if r.Intn(40) == 0 && !big {
				nw = 251 + r.Intn(5)
			}
			for j := 0; j < nw; j++ {
				l := r.Intn(5)
				if nw < 5 && !big {
					l = vLen(r)
				}
				in.wit = append(in.wit, vBytes(r, l))
			}
		}
		x.ins = append(x.ins, in)
	}
	for i := 0; i < no; i++ {
		o := vOut{value: uint64(r.Int63n(2100000000000001))}
		if r.Intn(4) == 0 {
			o.value = uint64(r.Intn(3))
		}
		if r.Intn(20) == 0 {
			o.value = r.Uint64() >> 1
		}
		if big {
			o.script = vBytes(r, r.Intn(3))
		} else {
			o.script = vBytes(r, vLen(r))
		}
		x.outs = append(x.outs, o)
	}
	return x
}

func vCheckTx(x *vTx, g *Transaction, st *MultiTransactionStorage) string {
	full, core := x.bytes(true), x.bytes(false)
	one := sha256.Sum256(core)
	if id := sha256.Sum256(one[:]); id != g.TxId {
		return fmt.Sprintf("txid %x, want %x", g.TxId, id)
	}
	if g.Version != x.version || g.IsSegWit != x.segwit {
		return fmt.Sprintf("version %d segwit %v, want %d %v", g.Version, g.IsSegWit, x.version, x.segwit)
	}
	w := 3*len(core) + len(full)
	if g.Size != len(full) || g.StrippedSize != len(core) || g.Weight != w || g.VSize != (w+3)/4 {
		return fmt.Sprintf("size %d stripped %d weight %d vsize %d, want %d %d %d %d", g.Size, g.StrippedSize, g.Weight, g.VSize, len(full), len(core), w, (w+3)/4)
	}
	if g.TxiCount() != int64(len(x.ins)) || g.TxoCount() != int64(len(x.outs)) {
		return fmt.Sprintf("%d inputs %d outputs, want %d %d", g.TxiCount(), g.TxoCount(), len(x.ins), len(x.outs))
	}
	for i, in := range x.ins {
		if t := g.GetTxi(st, int64(i)); t.TxId != in.txid || t.VOut != int64(in.vout) {
			return fmt.Sprintf("input %d: %x:%d, want %x:%d", i, t.TxId, t.VOut, in.txid, in.vout)
		}
	}
	for i, o := range x.outs {
		t := g.GetTxo(st, int64(i))
		if t.Value != int64(o.value) {
			return fmt.Sprintf("output %d value %d, want %d", i, t.Value, o.value)
		}
		if int(t.ScriptPubKeyLen) != len(o.script) || !bytes.Equal(st.Scripts[t.ScriptPubKeyStart:t.ScriptPubKeyStart+t.ScriptPubKeyLen], o.script) {
			return fmt.Sprintf("output %d script differs", i)
		}
	}
	return ""
}

