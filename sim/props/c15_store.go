package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	spi "github.com/trustbloc/kms-go/spi/storage"

	"github.com/trustbloc/vc-go/legacy/mem"

	"vcsim/core"
	"vcsim/simrt"
)

func init() {
	core.Register(&core.Property{
		ID: "C15", Title: "The in-memory store is linearizable and keeps its own copies", Run: runStore, Race: true,
		Rule:    "one recorded concurrent history of one provider, checked for a linearization against a sequential model, plus each use of a returned value, tag list or iterator afterwards",
		Measure: "operations of the history x overlap x outcome",
		Real:    []string{"legacy/mem (provider, store, iterator)"},
		Stub:    []string{"goroutine scheduling"},
	})
}

// stOp is one operation of the history; its times are of the scheduler's step counter.
type stOp struct {
	kind      string
	task      int
	h         spi.Store
	name      string
	key       string
	keys      []string
	val       []byte
	tags      []spi.Tag
	batch     []spi.Operation
	unable    bool // a query with an option that the store does not support
	expr      string
	cfg       []string
	call, ret int

	// what came back
	err    error
	got    [][]byte
	gotT   []spi.Tag
	rows   map[string]stRow
	opened spi.Store
	count  int
	gotC   []string
}

type stRow struct {
	val  string
	tags string
}

func (o *stOp) String() string {
	var ks []string
	for k, r := range o.rows {
		ks = append(ks, fmt.Sprintf("%s=%s%s", k, r.val, r.tags))
	}

	sort.Strings(ks)

	var b []string
	for _, x := range o.batch {
		if x.Value == nil {
			b = append(b, "del "+x.Key)
		} else {
			b = append(b, fmt.Sprintf("%s=%s%v", x.Key, x.Value, x.Tags))
		}
	}

	return fmt.Sprintf("[%d,%d] task %d %s(%s) key=%q keys=%v val=%q tags=%v batch=%v expr=%q -> err=%v got=%q tags=%v rows=%v n=%d cfg=%v", o.call, o.ret, o.task, o.kind, o.name, o.key, o.keys, o.val,
		o.tags, b, o.expr, o.err, o.got, o.gotT, ks, o.count, o.gotC)
}

// the sequential model

type stStore struct {
	name   string
	data   map[string]stRow
	cfg    string
	closed bool
}

type stModel struct {
	names  map[string]spi.Store
	stores map[spi.Store]*stStore
}

func (m *stModel) clone() *stModel {
	c := &stModel{names: map[string]spi.Store{}, stores: map[spi.Store]*stStore{}}
	for k, v := range m.names {
		c.names[k] = v
	}

	for k, v := range m.stores {
		n := &stStore{name: v.name, cfg: v.cfg, closed: v.closed, data: map[string]stRow{}}
		for a, b := range v.data {
			n.data[a] = b
		}

		c.stores[k] = n
	}

	return c
}

func (m *stModel) hash(ids map[spi.Store]int) string {
	var a []string
	for k, v := range m.names {
		a = append(a, fmt.Sprintf("n %s %d", k, ids[v]))
	}

	for k, v := range m.stores {
		for x, y := range v.data {
			a = append(a, fmt.Sprintf("d %d %s %s %s", ids[k], x, y.val, y.tags))
		}

		a = append(a, fmt.Sprintf("s %d %s %v", ids[k], v.cfg, v.closed))
	}

	sort.Strings(a)

	return strings.Join(a, "\n")
}

func tagsStr(t []spi.Tag) string {
	if len(t) == 0 {
		return ""
	}

	return fmt.Sprint(t)
}

func badTags(t []spi.Tag) bool {
	for _, x := range t {
		if strings.Contains(x.Name, ":") || strings.Contains(x.Value, ":") {
			return true
		}
	}

	return false
}

// matches evaluates a query expression on one entry's tags; the tags are kept as text in the model, so
// the entry's tag list is parsed back from it.
func matches(expr string, tags string) bool {
	for _, c := range strings.Split(expr, "&&") {
		nv := strings.SplitN(c, ":", 2)
		ok := false

		for _, t := range parseTags(tags) {
			if t.Name == nv[0] && (len(nv) == 1 || nv[1] == "" || nv[1] == t.Value) {
				ok = true
			}
		}

		if !ok {
			return false
		}
	}

	return true
}

func parseTags(s string) []spi.Tag {
	var out []spi.Tag

	for _, f := range strings.Split(strings.Trim(s, "[]"), "} {") {
		f = strings.Trim(f, "{}")
		if f == "" {
			continue
		}

		nv := strings.SplitN(f, " ", 2)
		out = append(out, spi.Tag{Name: nv[0], Value: nv[1]})
	}

	return out
}

// apply runs o on the model and reports whether the recorded outcome is what the model gives.
func (m *stModel) apply(o *stOp) bool {
	switch o.kind {
	case "open":
		if o.name == "" {
			return o.err != nil
		}

		if o.err != nil {
			return false
		}

		n := strings.ToLower(o.name)
		if s, ok := m.names[n]; ok {
			return s == o.opened
		}

		if m.stores[o.opened] != nil {
			return false
		}

		m.names[n] = o.opened
		m.stores[o.opened] = &stStore{name: n, data: map[string]stRow{}}

		return true
	case "setcfg":
		s := m.names[strings.ToLower(o.name)]
		if badTags([]spi.Tag{{Name: strings.Join(o.cfg, "")}}) {
			return o.err != nil
		}

		if s == nil {
			return errors.Is(o.err, spi.ErrStoreNotFound)
		}

		m.stores[s].cfg = fmt.Sprint(o.cfg)

		return o.err == nil
	case "getcfg":
		s := m.names[strings.ToLower(o.name)]
		if s == nil {
			return errors.Is(o.err, spi.ErrStoreNotFound)
		}

		want := m.stores[s].cfg
		if want == "" {
			want = "[]"
		}

		return o.err == nil && fmt.Sprint(o.gotC) == want
	case "openstores":
		return o.count == len(m.names)
	case "closeall":
		for _, s := range m.names {
			m.stores[s].closed = true
		}

		m.names = map[string]spi.Store{}

		return o.err == nil
	}

	st := m.stores[o.h]
	if st == nil {
		return false // used before it was opened
	}

	if o.kind == "close" {
		if m.names[st.name] == o.h {
			delete(m.names, st.name)
		}

		st.closed = true

		return o.err == nil
	}

	if st.closed {
		return true // what a closed store answers is nowhere specified
	}

	switch o.kind {
	case "put":
		if o.key == "" || o.val == nil || badTags(o.tags) {
			return o.err != nil
		}

		st.data[o.key] = stRow{string(o.val), tagsStr(o.tags)}

		return o.err == nil
	case "delete":
		if o.key == "" {
			return o.err != nil
		}

		delete(st.data, o.key)

		return o.err == nil
	case "batch":
		bad := len(o.batch) == 0
		for _, x := range o.batch {
			bad = bad || x.Key == "" || x.Value != nil && badTags(x.Tags)
		}

		if bad {
			return o.err != nil
		}

		for _, x := range o.batch {
			if x.Value == nil {
				delete(st.data, x.Key)
			} else {
				st.data[x.Key] = stRow{string(x.Value), tagsStr(x.Tags)}
			}
		}

		return o.err == nil
	case "get", "tags":
		if o.key == "" {
			return o.err != nil && !errors.Is(o.err, spi.ErrDataNotFound)
		}

		r, ok := st.data[o.key]
		if !ok {
			return errors.Is(o.err, spi.ErrDataNotFound)
		}

		if o.err != nil {
			return false
		}

		if o.kind == "get" {
			return o.got[0] != nil && string(o.got[0]) == r.val
		}

		return tagsStr(o.gotT) == r.tags
	case "bulk":
		bad := len(o.keys) == 0
		for _, k := range o.keys {
			bad = bad || k == ""
		}

		if bad {
			return o.err != nil
		}

		if o.err != nil || len(o.got) != len(o.keys) {
			return false
		}

		for i, k := range o.keys {
			r, ok := st.data[k]
			if ok != (o.got[i] != nil) || ok && string(o.got[i]) != r.val {
				return false
			}
		}

		return true
	case "query":
		bad := o.expr == "" || o.unable
		for _, c := range strings.Split(o.expr, "&&") {
			bad = bad || strings.Count(c, ":") > 1
		}

		if bad {
			return o.err != nil
		}

		if o.err != nil {
			return false
		}

		n := 0

		for k, r := range st.data {
			if matches(o.expr, r.tags) {
				n++

				if g, ok := o.rows[k]; !ok || g != r {
					return false
				}
			}
		}

		return n == len(o.rows) && o.count == n
	}

	panic("op " + o.kind)
}

// linearizable searches for an order of the operations, consistent with their real time, that the model explains.
func linearizable(ops []*stOp) bool {
	ids := map[spi.Store]int{}
	for _, o := range ops {
		if o.opened != nil && ids[o.opened] == 0 {
			ids[o.opened] = len(ids) + 1
		}
	}

	seen := map[string]bool{}

	var rec func(done uint64, m *stModel) bool

	rec = func(done uint64, m *stModel) bool {
		if done == 1<<len(ops)-1 {
			return true
		}

		key := fmt.Sprint(done, m.hash(ids))
		if seen[key] {
			return false
		}

		seen[key] = true
		minRet := int(^uint(0) >> 1)

		for i, o := range ops {
			if done&(1<<i) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}

		for i, o := range ops {
			if done&(1<<i) != 0 || o.call > minRet {
				continue
			}

			n := m.clone()
			if n.apply(o) && rec(done|1<<i, n) {
				return true
			}
		}

		return false
	}

	return rec(0, &stModel{names: map[string]spi.Store{}, stores: map[spi.Store]*stStore{}})
}

type stWorld struct {
	r     *core.Run
	p     *mem.Provider
	clock int
	names []string
}

func (w *stWorld) tick() int {
	w.clock++

	return w.clock
}

func (w *stWorld) val() []byte {
	if w.r.Chance(1, 12, "empty") {
		return []byte{}
	}

	w.tick()

	return append(make([]byte, 0, 16), fmt.Sprintf("v%d", w.clock)...)
}

func (w *stWorld) genTags() []spi.Tag {
	r := w.r

	var t []spi.Tag

	for _, n := range []string{"a", "b"} {
		if r.Chance(2, 3, "tag") {
			t = append(t, spi.Tag{Name: n, Value: []string{"1", "2"}[r.Choose(2, "tagval")]})
		}
	}

	if len(t) > 0 && r.Chance(1, 8, "same-name") {
		t = append(t, spi.Tag{Name: t[0].Name, Value: []string{"1", "2"}[r.Choose(2, "tagval")]})
	}

	if r.Chance(1, 16, "badtag") {
		t = append(t, []spi.Tag{{Name: "x:y", Value: "1"}, {Name: "x", Value: "1:2"}}[r.Choose(2, "bad")])
	}

	return t
}

// spoil overwrites memory the store was given, or gave away.
func (w *stWorld) spoil(what string, b []byte) {
	if len(b) > 0 && w.r.Chance(1, 3, what) {
		w.r.FaultFired("caller-reuses-memory")

		for i := range b {
			b[i] = '#'
		}
	}
}

func (w *stWorld) spoilTags(what string, t []spi.Tag) {
	if len(t) > 0 && w.r.Chance(1, 3, what) {
		w.r.FaultFired("caller-reuses-memory")

		for i := range t {
			t[i] = spi.Tag{Name: "#", Value: "#"}
		}
	}
}

func cloneVals(v [][]byte) [][]byte {
	out := make([][]byte, len(v))
	for i := range v {
		if v[i] != nil {
			out[i] = append([]byte{}, v[i]...)
		}
	}

	return out
}

func cloneTags(t []spi.Tag) []spi.Tag {
	var out []spi.Tag
	for _, x := range t {
		out = append(out, x)
	}

	return out
}

type stIter struct {
	op   *stOp
	it   spi.Iterator
	left int // drain after so many further operations
}

// client runs one task's operations.
func (w *stWorld) client(id, n int, log *[]*stOp, own *[]spi.Store) {
	r := w.r
	keys := []string{"k1", "k2", "k3"}

	var iters []*stIter

	key := func() string {
		if r.Chance(1, 25, "nokey") {
			return ""
		}

		return keys[r.Choose(len(keys), "key")]
	}

	drain := func(all bool) {
		for _, it := range iters {
			if it.left--; it.left >= 0 && !all || it.it == nil {
				continue
			}

			w.drain(it)
			it.it = nil
		}
	}

	for i := 0; i < n && !r.Failed(); i++ {
		o := &stOp{task: id}

		if len(*own) > 0 {
			o.h = (*own)[r.Choose(len(*own), "handle")]
		}

		k := r.Choose(24, "op")
		if o.h == nil {
			k = 20
		}

		run := func(f func()) {
			o.call = w.tick()
			f()
			o.ret = w.tick()
			*log = append(*log, o)
			r.Logf("%s", o)
		}

		switch {
		case k < 6:
			o.kind, o.key, o.val, o.tags = "put", key(), w.val(), w.genTags()
			if r.Chance(1, 25, "nil") {
				o.val = nil
			}

			v, t := bytes.Clone(o.val), cloneTags(o.tags)
			run(func() { o.err = o.h.Put(o.key, v, t...) })
			w.spoil("spoil-put", v)
			w.spoilTags("spoil-put-tags", t)
		case k < 8:
			o.kind, o.key = "get", key()

			var v []byte

			run(func() {
				v, o.err = o.h.Get(o.key)
				o.got = cloneVals([][]byte{v})
			})
			w.spoil("spoil-get", v)
		case k < 9:
			o.kind, o.key = "tags", key()

			var t []spi.Tag

			run(func() {
				t, o.err = o.h.GetTags(o.key)
				o.gotT = cloneTags(t)
			})
			w.spoilTags("spoil-tags", t)
		case k < 11:
			o.kind = "bulk"
			for j := r.N(1, 3, "n"); j > 0; j-- {
				o.keys = append(o.keys, key())
			}

			if r.Chance(1, 30, "none") {
				o.keys = nil
			}

			var v [][]byte

			run(func() {
				v, o.err = o.h.GetBulk(o.keys...)
				o.got = cloneVals(v)
			})

			for _, b := range v {
				w.spoil("spoil-bulk", b)
			}
		case k < 14:
			o.kind = "query"
			o.expr = []string{"a", "b", "a:1", "a:2", "b:1", "a:1&&b:1", "a&&b", "a:1&&b:2", "a:1&&a:2", "a:1&&a:1", "c", "a:", "", "a:1:2", "a:2&&b"}[r.Choose(15, "expr")]

			var it spi.Iterator

			var qopts []spi.QueryOption

			switch r.Choose(8, "query-option") {
			case 6:
				qopts = append(qopts, spi.WithPageSize(r.N(1, 3, "page")))
			case 7: // what a store cannot do it says
				qopts = append(qopts, []spi.QueryOption{spi.WithInitialPageNum(1), spi.WithSortOrder(&spi.SortOptions{TagName: "a"})}[r.Choose(2, "unsupported")])
			}

			if len(qopts) > 0 {
				var s spi.QueryOptions

				qopts[0](&s)

				o.unable = s.InitialPageNum != 0 || s.SortOptions != nil
			}

			run(func() { it, o.err = o.h.Query(o.expr, qopts...) })

			if o.err == nil {
				iters = append(iters, &stIter{op: o, it: it, left: r.Choose(3, "left")})
			}
		case k < 15:
			o.kind, o.key = "delete", key()
			run(func() { o.err = o.h.Delete(o.key) })
		case k < 18:
			o.kind = "batch"

			var in []spi.Operation

			n := r.N(1, 3, "n")
			if r.Chance(1, 25, "none") {
				n = 0
			}

			for j := n; j > 0; j-- {
				x := spi.Operation{Key: key()}
				if r.Chance(2, 3, "put") {
					x.Value, x.Tags = w.val(), w.genTags()
				}

				if r.Chance(1, 8, "new") {
					x.PutOptions = &spi.PutOptions{}
				}

				o.batch = append(o.batch, x)
				in = append(in, spi.Operation{Key: x.Key, Value: bytes.Clone(x.Value), Tags: cloneTags(x.Tags), PutOptions: x.PutOptions})
			}

			run(func() { o.err = o.h.Batch(in) })

			for _, x := range in {
				w.spoil("spoil-batch", x.Value)
				w.spoilTags("spoil-batch-tags", x.Tags)
			}
		case k < 20:
			o.kind, o.name = []string{"setcfg", "getcfg"}[k-18], w.names[r.Choose(len(w.names), "name")]

			if o.kind == "setcfg" {
				o.cfg = [][]string{{"a"}, {"a", "b"}, {"x:y"}, {"b"}}[r.Choose(4, "cfg")]
				in := append([]string{}, o.cfg...)
				run(func() { o.err = w.p.SetStoreConfig(o.name, spi.StoreConfiguration{TagNames: in}) })

				if r.Chance(1, 3, "spoil-cfg") {
					in[0] = "#"
				}
			} else {
				run(func() {
					c, err := w.p.GetStoreConfig(o.name)
					o.err = err
					o.gotC = append(o.gotC, c.TagNames...)

					if len(c.TagNames) > 0 && r.Chance(1, 3, "spoil-got") {
						c.TagNames[0] = "#" // the caller's own
					}
				})
			}
		case k < 22:
			o.kind, o.name = "open", w.names[r.Choose(len(w.names), "name")]
			if r.Chance(1, 20, "noname") {
				o.name = ""
			}

			run(func() { o.opened, o.err = w.p.OpenStore(o.name) })

			if o.err == nil {
				*own = append(*own, o.opened)
			}
		case k < 23:
			switch r.Choose(5, "rare") {
			case 0, 1:
				o.kind = "openstores"
				run(func() { o.count = len(w.p.GetOpenStores()) })
			case 2, 3:
				o.kind = "close"
				run(func() { o.err = o.h.Close() })
			case 4:
				o.kind = "closeall"
				run(func() { o.err = w.p.Close() })
			}
		default:
			o.kind, o.key = "get", key()
			run(func() {
				v, err := o.h.Get(o.key)
				o.got, o.err = cloneVals([][]byte{v}), err
			})
		}

		drain(false)
		simrt.Step()
	}

	drain(true)
}

// drain reads an iterator out, later than its query.
func (w *stWorld) drain(it *stIter) {
	r := w.r
	o := it.op
	o.rows = map[string]stRow{}

	bad := func(f string, a ...any) {
		r.Violate("iterator", "iterator", "%s: %s", fmt.Sprintf(f, a...), o)
	}

	n, err := it.it.TotalItems()
	if err != nil {
		bad("TotalItems fails: %v", err)

		return
	}

	o.count = n

	for i := 0; ; i++ {
		ok, err := it.it.Next()
		if err != nil {
			bad("Next fails: %v", err)

			return
		}

		if !ok {
			break
		}

		if i > n {
			bad("more entries than TotalItems %d", n)

			return
		}

		k, e1 := it.it.Key()
		v, e2 := it.it.Value()
		t, e3 := it.it.Tags()

		if e1 != nil || e2 != nil || e3 != nil {
			bad("an entry cannot be read: %v %v %v", e1, e2, e3)

			return
		}

		if _, dup := o.rows[k]; dup {
			bad("key %s comes twice", k)

			return
		}

		o.rows[k] = stRow{string(v), tagsStr(t)}
		w.spoil("spoil-row", v)
		w.spoilTags("spoil-row-tags", t)
	}

	if ok, err := it.it.Next(); ok || err != nil {
		bad("Next after the end gives %v %v", ok, err)
	}

	_, e1 := it.it.Key()
	_, e2 := it.it.Value()
	_, e3 := it.it.Tags()

	if e1 == nil || e2 == nil || e3 == nil {
		bad("an exhausted iterator still has a key (%v), a value (%v) or tags (%v)", e1, e2, e3)
	}

	if err := it.it.Close(); err != nil {
		bad("Close fails: %v", err)
	}

	if m, err := it.it.TotalItems(); err != nil || m != n {
		bad("TotalItems was %d and is now %d %v", n, m, err)
	}
}

func runStore(r *core.Run) {
	r.Configure(core.Params{PreemptOf: []int{2, 4, 16}[r.Choose(3, "preempt")]})

	w := &stWorld{r: r, p: mem.NewProvider(), names: []string{"s1", "S1"}}
	if r.Chance(1, 2, "two") {
		w.names = append(w.names, "s2")
	}

	n := r.N(2, 4, "tasks")
	logs := make([][]*stOp, n+1)
	own := make([][]spi.Store, n+1)

	// most runs begin with a filled store that every client has a handle on
	if r.Chance(3, 4, "shared") {
		o := &stOp{task: n, kind: "open", name: "s1", call: w.tick()}
		o.opened, o.err = w.p.OpenStore("s1")
		o.ret = w.tick()
		logs[n] = append(logs[n], o)

		for i := range own {
			own[i] = append(own[i], o.opened)
		}

		w.client(n, r.Choose(5, "before"), &logs[n], &own[n])
	}

	var tasks []func()

	for i := 0; i < n; i++ {
		tasks = append(tasks, func() { w.client(i, r.N(1, 5, "ops"), &logs[i], &own[i]) })
	}

	r.Parallel("client", tasks...)

	if r.Failed() {
		return
	}

	w.client(n, 3, &logs[n], &own[n])

	var all []*stOp
	kinds := map[string]int{}
	overlap := 0

	for _, l := range logs {
		for _, o := range l {
			for _, x := range all {
				if x.call < o.ret && o.call < x.ret {
					overlap++
				}
			}

			all = append(all, o)
			kinds[o.kind]++
		}
	}

	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}

	sort.Strings(ks)
	r.Eval("%s overlap=%d", strings.Join(ks, ","), min(overlap, 4))

	if r.Failed() || linearizable(all) {
		return
	}

	var b strings.Builder
	sort.Slice(all, func(i, j int) bool { return all[i].call < all[j].call })

	for _, o := range all {
		fmt.Fprintln(&b, o)
	}

	r.Violate("not-linearizable", "history", "no order of these operations that respects real time gives their outcomes:\n%s", b.String())
}
