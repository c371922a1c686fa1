package es

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/stores"
)

// The bundled store behind the harness's own one: every change goes through it, and its contents
// are compared with the fold of the committed change log when a partition is activated.

// bundled is a SimpleStore of any item type. Items have a canonical text, key|event|previous event.
type bundled interface {
	receive(streams.IncomingRecord) error
	put(key string, id, prev int) streams.ChangeLogEntry
	del(key string) (streams.ChangeLogEntry, bool)
	get(key string) (string, bool)
	canon(key string, id, prev int) string
	decode(raw []byte) (string, error) // by an independent decoder
}

type simple[T stores.Keyed] struct {
	s    *stores.SimpleStore[T]
	mk   func(key string, id, prev int) T
	text func(T) string
	dec  func([]byte) (T, error)
}

func (b *simple[T]) receive(r streams.IncomingRecord) error { return b.s.ReceiveChange(r) }
func (b *simple[T]) put(key string, id, prev int) streams.ChangeLogEntry {
	return b.s.Put(b.mk(key, id, prev))
}
func (b *simple[T]) del(key string) (streams.ChangeLogEntry, bool) {
	return b.s.Delete(b.mk(key, -1, -1)) // only the key of the item matters
}
func (b *simple[T]) get(key string) (string, bool) {
	v, ok := b.s.Get(key)
	if !ok {
		return "", false
	}
	return b.text(v), true
}
func (b *simple[T]) revoked()                              { b.s.Revoked() }
func (b *simple[T]) canon(key string, id, prev int) string { return b.text(b.mk(key, id, prev)) }
func (b *simple[T]) decode(raw []byte) (string, error) {
	v, err := b.dec(raw)
	if err != nil {
		return "", err
	}
	return b.text(v), nil
}

// docItem is what most users have: a struct in JSON.
type docItem struct {
	Name string         `json:"name"`
	ID   int            `json:"id"`
	Prev *int           `json:"prev,omitempty"`
	Tags []string       `json:"tags,omitempty"`
	More map[string]int `json:"more,omitempty"`
}

func (d docItem) Key() string { return d.Name }

// rowItem has a codec of its own.
type rowItem struct {
	k        string
	id, prev int
}

func (r rowItem) Key() string { return r.k }

type rowCodec struct{}

var errRow = errors.New("not a row")

func (rowCodec) Encode(b *bytes.Buffer, r rowItem) error {
	fmt.Fprintf(b, "%s|%d|%d", r.k, r.id, r.prev)
	return nil
}

func (rowCodec) Decode(b []byte) (r rowItem, err error) {
	f := strings.Split(string(b), "|")
	if len(f) != 3 {
		return rowItem{k: f[0]}, errRow
	}
	r.k = f[0]
	if r.id, err = strconv.Atoi(f[1]); err == nil {
		r.prev, err = strconv.Atoi(f[2])
	}
	return
}

// numItem and fracItem are numbers in JSON; the key is part of the number.
type numItem int64

func (n numItem) Key() string { return keyOf(int(n) % 64) }

type fracItem float64

func (n fracItem) Key() string { return keyOf(int(math.Floor(float64(n))) % 64) }

// strItem is a string in JSON, itself made of key and event.
type strItem string

func (s strItem) Key() string { k, _, _ := strings.Cut(string(s), "|"); return k }

func keyOf(i int) string {
	if i == 63 {
		return "probe"
	}
	return string(rune('a' + i))
}

func keyNum(k string) int {
	if k == "probe" {
		return 63
	}
	return int(k[0] - 'a')
}

func strict[T any](b []byte) (t T, err error) {
	err = json.Unmarshal(b, &t)
	return
}

func (h *H) newBundled(tp streams.TopicPartition) bundled {
	switch h.p.K("simple") {
	case 1:
		return &simple[docItem]{stores.NewJsonSimpleStore[docItem](tp), func(k string, id, prev int) docItem {
			d := docItem{Name: k, ID: id}
			if prev >= 0 && id%2 == 0 {
				d.Prev = &prev
			}
			for i := 0; i < id%3; i++ {
				d.Tags = append(d.Tags, k+strconv.Itoa(i))
			}
			if id%4 == 3 {
				d.More = map[string]int{"é\"\\ü": prev}
			}
			return d
		}, func(d docItem) string {
			p := ""
			if d.Prev != nil {
				p = strconv.Itoa(*d.Prev)
			}
			return fmt.Sprintf("%s|%d|%s|%q|%v", d.Name, d.ID, p, d.Tags, d.More)
		}, strict[docItem]}
	case 2:
		return &simple[rowItem]{stores.NewSimpleStore[rowItem](tp, rowCodec{}), func(k string, id, prev int) rowItem { return rowItem{k, id, prev} },
			func(r rowItem) string { return fmt.Sprintf("%s|%d|%d", r.k, r.id, r.prev) }, rowCodec{}.Decode}
	case 3:
		return &simple[numItem]{stores.NewJsonSimpleStore[numItem](tp), func(k string, id, prev int) numItem {
			if id < 0 {
				id = 0
			}
			return numItem(id*64 + keyNum(k))
		}, func(n numItem) string { return strconv.FormatInt(int64(n), 10) }, strict[numItem]}
	case 4:
		return &simple[fracItem]{stores.NewJsonSimpleStore[fracItem](tp), func(k string, id, prev int) fracItem {
			if id < 0 {
				id = 0
			}
			return fracItem(float64(id*64+keyNum(k)) + 0.25*float64(id%4))
		}, func(n fracItem) string { return fmt.Sprint(float64(n)) }, strict[fracItem]}
	case 5:
		return &simple[strItem]{stores.NewJsonSimpleStore[strItem](tp), func(k string, id, prev int) strItem { return strItem(fmt.Sprintf("%s|%d|<%d>\n&", k, id, prev)) },
			func(s strItem) string { return string(s) }, strict[strItem]}
	}
	return nil
}

const poisonKey = "zz"

// poison returns a value which the store's codec refuses.
func (h *H) poison(n int) []byte {
	switch h.p.K("simple") {
	case 1:
		return []byte([]string{`{"name":"zz","id":"seven"}`, `{"name":"zz","id":7`, `[1]`, `nonsense`}[n%4])
	case 2:
		return []byte([]string{"zz|x|1", "zz|1", "zz"}[n%3])
	case 3, 4:
		return []byte([]string{`"25"`, `{}`, `x`}[n%3])
	}
	return []byte([]string{`7`, `{"a":1}`, `zz|1|2`}[n%3])
}

var storeKeys = []string{"a", "b", "c", "d", "probe", "z", "zz", ""}

// bundledDiff compares the bundled store with what should be in it.
func (s *Store) bundledDiff(want map[string]string) string {
	d := []string{}
	w := map[string]string{}
	for _, k := range sortedKeys(want) {
		if t, err := s.b.decode([]byte(want[k])); err == nil {
			w[k] = t
		}
	}
	keys := append([]string{}, storeKeys...)
	for _, k := range sortedKeys(w) {
		if !contains(keys, k) {
			keys = append(keys, k)
		}
	}
	for _, k := range keys {
		g, ok := s.b.get(k)
		t, exp := w[k]
		switch {
		case exp && !ok:
			d = append(d, fmt.Sprintf("%q is missing (want %q)", k, t))
		case !exp && ok:
			d = append(d, fmt.Sprintf("%q is %q and should not exist", k, g))
		case exp && g != t:
			d = append(d, fmt.Sprintf("%q is %q, want %q", k, g, t))
		}
	}
	return strings.Join(d, "; ")
}

func contains(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// bundledPut and bundledDel change the bundled store for an event and return the entry it wants logged.
func (s *Store) bundledPut(e *srcEv) streams.ChangeLogEntry {
	key, prev := e.spec.Key, -1
	if old, ok := s.live[key]; ok {
		prev = len(old)
	}
	want := s.b.canon(key, e.id, prev)
	s.bundledGet(key, "before a Put")
	cle := s.b.put(key, e.id, prev)
	s.live[key] = want
	s.bundledGet(key, "after a Put")
	e.texts = append(e.texts, want)
	return cle
}

func (s *Store) bundledDel(e *srcEv) streams.ChangeLogEntry {
	key := e.spec.Key
	_, had := s.live[key]
	s.bundledGet(key, "before a Delete")
	cle, ok := s.b.del(key)
	delete(s.live, key)
	if ok != had {
		s.in.h.v("C21", "delete-result", s.part, "member %d partition %d: Delete of %q returned %v, the item was there: %v", s.in.node, s.part, key, ok, had)
	}
	if !ok {
		cle = streams.NewChangeLogEntry().WithKeyString(key)
	}
	s.bundledGet(key, "after a Delete")
	return cle
}

func (s *Store) bundledGet(key, when string) {
	h := s.in.h
	h.r.OK("C21")
	got, ok := s.b.get(key)
	if want, exp := s.live[key]; ok != exp || got != want {
		h.v("C21", "get", s.part, "member %d partition %d: %s, Get of %q returns %q, %v, want %q, %v", s.in.node, s.part, when, key, got, ok, want, exp)
	}
}

func (s *Store) bundledActivated(committed map[string]string) {
	h := s.in.h
	h.r.OK("C21")
	if d := s.bundledDiff(committed); d != "" {
		h.v("C21", "store-differs", s.part, "member %d activated partition %d with a simple store that differs from the committed change log: %s", s.in.node, s.part, d)
	}
	s.live = map[string]string{}
	for k, raw := range committed {
		if t, err := s.b.decode([]byte(raw)); err == nil {
			s.live[k] = t
		}
	}
}

// committedItem judges the value of a committed change.
func (h *H) committedItem(e *srcEv, val []byte) bool {
	if e.spec.Store == 2 {
		return len(val) == 0
	}
	in := h.newBundled(streams.TopicPartition{})
	t, err := in.decode(val)
	return err == nil && contains(e.texts, t)
}
