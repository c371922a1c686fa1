package es

import (
	"fmt"
	"time"

	"verifsim/simk"
)

// Migration from and to consumers which keep their position in the consumer group.

// old lets a traditional consumer of the group have processed the first events of every partition.
func (h *H) old() {
	n := h.p.K("migrate")
	if n == 0 {
		return
	}
	g := h.c.Group(groupID)
	for q := 0; q < h.parts; q++ {
		k := (n + int64(q)*3) % 7
		for i := int64(0); i < k; i++ {
			h.c.AppendDirect(srcTopic, int32(q), &simk.Rec{Key: []byte("old"), Val: []byte(fmt.Sprintf("!old %d", i))})
		}
		if k > 0 {
			g.SetOffset(srcTopic, int32(q), k)
		}
		h.pos[int32(q)] = k
		h.r.Count("migrated", k)
	}
}

// groupCommit sees what members commit to the consumer group.
func (h *H) groupCommit(node int32, topic string, q int32, off int64) {
	h.w.Trace("member %d commits offset %d of partition %d to the group", node, off, q)
	h.r.Count("group-commits", 1)
	h.r.OK("C02")
	switch prev := h.c.Group(groupID).Offsets[topic][q]; {
	case topic != srcTopic:
		h.v("C02", "group-topic", q, "member %d commits offset %d of partition %d of %s to the group", node, off, q, topic)
	case h.p.K("commit_offsets") == 0:
		h.v("C02", "group-unasked", q, "member %d commits offset %d of partition %d to the group, which it was not configured for", node, off, q)
	case off > h.pos[q]:
		h.v("C02", "group-ahead", q, "member %d commits offset %d of partition %d to the group, the committed position is %d", node, off, q, h.pos[q])
	case off < prev:
		h.v("C02", "group-back", q, "member %d commits offset %d of partition %d to the group, where %d was committed before", node, off, q, prev)
	}
}

// groupLags lists partitions whose position in the group lags behind although their owner had the time to commit it.
func (h *H) groupLags() (lags []int32) {
	for q := int32(0); q < int32(h.parts); q++ {
		in := h.posBy[q]
		if in == nil || !in.alive() || !in.ready || in.frozen || in.crashed || in.stopAt > 0 || in.failAt > 0 {
			continue
		}
		w := in.wins[q]
		if w == nil || w != h.posWin[q] || w.willRev > 0 || h.taint[q] {
			continue
		}
		if h.c.Group(groupID).Offsets[srcTopic][q] != h.pos[q] {
			lags = append(lags, q)
		}
	}
	return
}

// mirrored waits until the group knows every position.
func (h *H) mirrored() {
	if h.p.K("commit_offsets") == 0 || h.overrun() {
		return
	}
	var lags []int32
	for end := h.w.Now() + 25e9; h.w.Now() < end && !h.overrun(); time.Sleep(500 * time.Millisecond) {
		if lags = h.groupLags(); len(lags) == 0 {
			break
		}
	}
	h.r.OK("C02")
	for _, q := range lags {
		h.v("C02", "group-lags", q, "the group has offset %d for partition %d, its committed position is %d, and member %d has been idle since", h.c.Group(groupID).Offsets[srcTopic][q], q, h.pos[q], h.posBy[q].node)
	}
}
