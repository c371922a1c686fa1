package simk

import (
	"encoding/binary"
	"errors"
	"hash/crc32"
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

type Header struct {
	Key string
	Val []byte
}

// Rec is one record in a partition, with the ground truth about it.
type Rec struct {
	Topic    string
	Part     int32
	Off      int64
	Ts       int64
	Key, Val []byte
	Hdrs     []Header
	PID      int64
	Epoch    int16
	Txn      *Txn // nil: not transactional
	Ctrl     int8 // 0: data, 1: commit, 2: abort
	At       int64
	Node     int32
	Gone     bool // removed by the log cleaner
}

// Committed tells whether a read-committed reader will (or does) see the record.
func (r *Rec) Committed() bool { return r.Ctrl == 0 && (r.Txn == nil || r.Txn.Outcome == 1) }

func (r *Rec) Header(k string) ([]byte, bool) {
	for _, h := range r.Hdrs {
		if h.Key == k {
			return h.Val, true
		}
	}
	return nil, false
}

type batch struct {
	base, last int64
	attrs      int16
	pid        int64
	epoch      int16
	seq        int32
	txn        bool
	ctrl       int8
	firstTs    int64
	lepoch     int32
	recs       []*Rec
	raw        []byte
}

type abortedTxn struct{ pid, first, last int64 }

type seqBatch struct {
	first, last int32
	off         int64
}
type pidState struct {
	epoch   int16
	batches []seqBatch
}

type epochStart struct {
	epoch int32
	start int64
}

// Partition is one partition's log.
type Partition struct {
	c         *Cluster
	Topic     string
	Num       int32
	leader    int32
	lepoch    int32
	mdLeader  int32
	mdEpoch   int32
	epochEnds []epochStart
	batches   []*batch
	hw        int64
	ongoing   map[int64]int64
	aborted   []abortedTxn
	pids      map[int64]*pidState
	waiters   []*fetchWait
	All       []*Rec // everything ever appended, compaction ignored
}

func (p *Partition) lso() int64 {
	l := p.hw
	for _, f := range p.ongoing {
		if f < l {
			l = f
		}
	}
	return l
}

// HW is the next offset to be written.
func (p *Partition) HW() int64  { return p.hw }
func (p *Partition) LSO() int64 { return p.lso() }

func (p *Partition) logStart() int64 { return 0 }

func (p *Partition) append(b *batch) {
	b.base = p.hw
	n := int64(0)
	for i, r := range b.recs {
		r.Off = p.hw + int64(i)
		n++
	}
	b.last = b.base + n - 1
	b.lepoch = p.lepoch
	p.hw = b.last + 1
	p.batches = append(p.batches, b)
	p.All = append(p.All, b.recs...)
	if b.txn && b.ctrl == 0 {
		if _, ok := p.ongoing[b.pid]; !ok {
			p.ongoing[b.pid] = b.base
		}
	}
	if b.ctrl != 0 {
		if first, ok := p.ongoing[b.pid]; ok {
			delete(p.ongoing, b.pid)
			if b.ctrl == 2 {
				p.aborted = append(p.aborted, abortedTxn{b.pid, first, b.base})
			}
		}
	}
	b.raw = b.encode()
	p.notify()
}

func (b *batch) encode() []byte {
	body := make([]byte, 0, 64)
	put16 := func(v int16) { body = binary.BigEndian.AppendUint16(body, uint16(v)) }
	put32 := func(v int32) { body = binary.BigEndian.AppendUint32(body, uint32(v)) }
	put64 := func(v int64) { body = binary.BigEndian.AppendUint64(body, uint64(v)) }
	var attrs int16
	if b.txn {
		attrs |= 1 << 4
	}
	if b.ctrl != 0 {
		attrs |= 1 << 5
	}
	maxTs := b.firstTs
	for _, r := range b.recs {
		if r.Ts > maxTs {
			maxTs = r.Ts
		}
	}
	put16(attrs)
	put32(int32(b.last - b.base))
	put64(b.firstTs)
	put64(maxTs)
	put64(b.pid)
	put16(b.epoch)
	put32(b.seq)
	put32(int32(len(b.recs)))
	for _, r := range b.recs {
		var rb []byte
		rb = append(rb, 0)
		rb = binary.AppendVarint(rb, r.Ts-b.firstTs)
		rb = binary.AppendVarint(rb, r.Off-b.base)
		bytesField := func(v []byte) {
			if v == nil {
				rb = binary.AppendVarint(rb, -1)
				return
			}
			rb = binary.AppendVarint(rb, int64(len(v)))
			rb = append(rb, v...)
		}
		bytesField(r.Key)
		bytesField(r.Val)
		rb = binary.AppendVarint(rb, int64(len(r.Hdrs)))
		for _, h := range r.Hdrs {
			bytesField([]byte(h.Key))
			bytesField(h.Val)
		}
		body = binary.AppendVarint(body, int64(len(rb)))
		body = append(body, rb...)
	}
	out := make([]byte, 0, len(body)+21)
	out = binary.BigEndian.AppendUint64(out, uint64(b.base))
	out = binary.BigEndian.AppendUint32(out, uint32(len(body)+9))
	out = binary.BigEndian.AppendUint32(out, uint32(b.lepoch))
	out = append(out, 2)
	out = binary.BigEndian.AppendUint32(out, crc32.Checksum(body, castagnoli))
	return append(out, body...)
}

var errCorrupt = errors.New("corrupt batch")

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

func parseBatches(raw []byte) ([]*batch, error) {
	var out []*batch
	for len(raw) > 0 {
		if len(raw) < 61 {
			return nil, errCorrupt
		}
		n := int(binary.BigEndian.Uint32(raw[8:]))
		if len(raw) < 12+n || raw[16] != 2 {
			return nil, errCorrupt
		}
		cur := raw[:12+n]
		raw = raw[12+n:]
		if crc32.Checksum(cur[21:], castagnoli) != binary.BigEndian.Uint32(cur[17:]) {
			return nil, errCorrupt
		}
		b := &batch{
			attrs:   int16(binary.BigEndian.Uint16(cur[21:])),
			firstTs: int64(binary.BigEndian.Uint64(cur[27:])),
			pid:     int64(binary.BigEndian.Uint64(cur[43:])),
			epoch:   int16(binary.BigEndian.Uint16(cur[51:])),
			seq:     int32(binary.BigEndian.Uint32(cur[53:])),
		}
		if b.attrs&7 != 0 {
			return nil, errors.New("compressed")
		}
		b.txn = b.attrs&(1<<4) != 0
		cnt := int(binary.BigEndian.Uint32(cur[57:]))
		d := cur[61:]
		bad := false
		vi := func() int64 {
			v, k := binary.Varint(d)
			if k <= 0 {
				bad = true
				return 0
			}
			d = d[k:]
			return v
		}
		vb := func() []byte {
			l := vi()
			if bad || l < 0 {
				return nil
			}
			if int(l) > len(d) {
				bad = true
				return nil
			}
			x := append(make([]byte, 0, l), d[:l]...)
			d = d[l:]
			return x
		}
		for i := 0; i < cnt && !bad; i++ {
			vi() // length
			if len(d) == 0 {
				bad = true
				break
			}
			d = d[1:]
			r := &Rec{PID: b.pid, Epoch: b.epoch}
			r.Ts = b.firstTs + vi()
			vi()
			r.Key = vb()
			r.Val = vb()
			for h := vi(); h > 0 && !bad; h-- {
				k := vb()
				v := vb()
				r.Hdrs = append(r.Hdrs, Header{string(k), v})
			}
			b.recs = append(b.recs, r)
		}
		if bad || len(b.recs) != cnt {
			return nil, errCorrupt
		}
		out = append(out, b)
	}
	return out, nil
}

// Committed returns the committed data records of the partition below the last stable offset, in offset order.
func (p *Partition) Committed() []*Rec {
	lso := p.lso()
	var out []*Rec
	for _, r := range p.All {
		if r.Off >= lso {
			break
		}
		if r.Committed() {
			out = append(out, r)
		}
	}
	return out
}

// compact removes superseded keys from the cleanable part of the log.
// The cleaner of a real broker works on closed segments: a marker or tombstone disappears only long
// after it was written (young). Other records are compacted eagerly.
func (p *Partition) compact(dropTombstones bool, keepTail, young int64) int {
	limit := p.lso() - keepTail
	latest := map[string]int64{}
	for _, b := range p.batches {
		for _, r := range b.recs {
			if r.Off < limit && r.Ctrl == 0 && r.Committed() && r.Key != nil {
				latest[string(r.Key)] = r.Off
			}
		}
	}
	removed := 0
	var nb []*batch
	for _, b := range p.batches {
		if b.last >= limit || b.ctrl != 0 {
			nb = append(nb, b)
			continue
		}
		keep := b.recs[:0:0]
		for _, r := range b.recs {
			k := r.Committed() && (r.Key == nil || latest[string(r.Key)] == r.Off)
			if k && dropTombstones && len(r.Val) == 0 {
				k = false
			}
			if len(r.Hdrs) > 0 || len(r.Val) == 0 {
				k = k || r.Committed() && r.At > young
			}
			if k {
				keep = append(keep, r)
			} else {
				r.Gone = true
				removed++
			}
		}
		if len(keep) == len(b.recs) {
			nb = append(nb, b)
			continue
		}
		if len(keep) == 0 {
			continue
		}
		c := *b
		c.recs = keep
		c.raw = c.encode()
		nb = append(nb, &c)
	}
	p.batches = nb
	return removed
}
