package core

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verifh/fw"
	"verifh/gen"
)

// leaf is one generated choice of an event value.
type leaf struct {
	K uint64  `json:",omitempty"`
	S gen.Str `json:",omitempty"`
	T *gen.Tm `json:",omitempty"`
}

// evVal is an event value: its type and the choices that make it.
type evVal struct {
	Type   string // schema
	Leaves []leaf
}

var (
	timeType = reflect.TypeOf(time.Time{})
	durType  = reflect.TypeOf(time.Duration(0))

	evTypes   = map[string]reflect.Type{}
	evSchemas []string
)

func eventTypes() {
	if len(evTypes) > 0 {
		return
	}
	add := func(e appdash.Event) {
		evTypes[e.Schema()] = reflect.TypeOf(e)
		evSchemas = append(evSchemas, e.Schema())
	}
	for _, e := range []appdash.Event{appdash.SpanNameEvent{}, appdash.Msg(""), appdash.LogWithTimestamp("", time.Time{}), appdash.Timespan{},
		sqltrace.SQLEvent{}, httptrace.ClientEvent{}, httptrace.ServerEvent{}} {
		add(e)
	}
	var evs []appdash.Event
	if err := appdash.UnmarshalEvents(appdash.Annotations{{Key: "_schema:timespan"}}, &evs); err == nil && len(evs) == 1 && evs[0].Schema() == "timespan" {
		add(evs[0]) // the type has no exported constructor
	}
	for _, e := range userEvents {
		add(e)
	}
}

// fillLen is the length of a slice or map; 1000 and more are large ones.
func fillLen(l leaf) int {
	if l.K >= 1000 {
		return int(l.K - 1000)
	}
	return []int{0, 1, 2, 3, 12}[l.K%5]
}

// fill sets v from the choices next returns; what is what kind of choice is
// wanted.
func fill(v reflect.Value, next func(what string) leaf) {
	t := v.Type()
	if t == timeType {
		l := next("time")
		if l.T == nil {
			l.T = &gen.Tm{Zero: true}
		}
		v.Set(reflect.ValueOf(l.T.Time()))
		return
	}
	if t == durType {
		v.SetInt(int64(next("dur").K) % (1<<51 - 1))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(next("bool").K&1 != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sh := 64 - t.Bits()
		v.SetInt(int64(next("int").K) << sh >> sh)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sh := 64 - t.Bits()
		v.SetUint(next("int").K << sh >> sh)
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(uint32(next("f32").K))))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(next("f64").K))
	case reflect.String:
		v.SetString(string(next("str").S))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				fill(v.Field(i), next)
			}
		}
	case reflect.Ptr:
		if next("ptr").K%3 != 0 {
			v.Set(reflect.New(t.Elem()))
			fill(v.Elem(), next)
		}
	case reflect.Slice:
		n := fillLen(next("len"))
		if n > 0 {
			v.Set(reflect.MakeSlice(t, n, n))
		} else if next("len").K%2 == 1 {
			v.Set(reflect.MakeSlice(t, 0, 0))
		}
		for i := 0; i < n; i++ {
			fill(v.Index(i), next)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			fill(v.Index(i), next)
		}
	case reflect.Map:
		n := fillLen(next("len"))
		if n > 0 || next("len").K%2 == 1 {
			v.Set(reflect.MakeMap(t))
		}
		for i := 0; i < n; i++ {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			fill(k, next)
			fill(e, next)
			v.SetMapIndex(k, e)
		}
	default:
		panic("harness: no filler for " + t.String())
	}
}

func drawLeaf(t *rapid.T, what string) leaf {
	var l leaf
	switch what {
	case "time":
		m := gen.DrawTime(t, "tm")
		switch rapid.IntRange(0, 7).Draw(t, "tmkind") {
		case 0:
			m = gen.Tm{Zero: true}
		case 1: // anything RFC 3339 can say
			m.Sec = rapid.Int64Range(-62135596800+86400, 253402300799-86400).Draw(t, "farsec")
		}
		l.T = &m
	case "str":
		if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
			l.S = gen.AnyStr(t, "s")
		} else {
			l.S = gen.SmallStr(t, "s")
		}
	case "len":
		l.K = rapid.SampledFrom([]uint64{0, 1, 1, 2, 2, 3, 5, 6, 4}).Draw(t, "len")
	case "ptr":
		l.K = uint64(rapid.IntRange(0, 2).Draw(t, "ptr"))
	case "bool":
		l.K = uint64(rapid.IntRange(0, 1).Draw(t, "bool"))
	case "f32":
		switch rapid.IntRange(0, 2).Draw(t, "f32kind") {
		case 0:
			l.K = uint64(math.Float32bits(rapid.SampledFrom([]float32{0, 1, -1, 0.1, 1e-7, 16777217, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}).Draw(t, "f")))
		default:
			l.K = uint64(rapid.Uint32().Draw(t, "f"))
		}
	case "f64":
		switch rapid.IntRange(0, 2).Draw(t, "f64kind") {
		case 0:
			l.K = math.Float64bits(rapid.SampledFrom([]float64{0, 1, -1, 0.1, 1.0 / 3, 1e21, 1e-9, 1<<53 + 2, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}).Draw(t, "f"))
		default:
			l.K = rapid.Uint64().Draw(t, "f")
		}
	case "dur":
		switch rapid.IntRange(0, 2).Draw(t, "durkind") {
		case 0:
			l.K = uint64(rapid.SampledFrom([]int64{0, 1, -1, 999, 1000, 1001, 999999, 1000000, 1000001, 123456789, -1234567, 1<<51 - 2, -(1<<51 - 2)}).Draw(t, "d"))
		default:
			l.K = uint64(rapid.Int64Range(-(1<<51-2), 1<<51-2).Draw(t, "d"))
		}
	default:
		switch rapid.IntRange(0, 2).Draw(t, "intkind") {
		case 0:
			l.K = rapid.SampledFrom([]uint64{0, 1, 1<<64 - 1, 127, 128, 255, 1 << 15, 1<<16 - 1, 1 << 31, 1<<32 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63}).Draw(t, "i")
		default:
			l.K = rapid.Uint64().Draw(t, "i")
		}
	}
	return l
}

func genEvVal(t *rapid.T, schema string) evVal {
	eventTypes()
	c := evVal{Type: schema}
	fill(reflect.New(evTypes[schema]).Elem(), func(what string) leaf {
		l := drawLeaf(t, what)
		c.Leaves = append(c.Leaves, l)
		return l
	})
	return c
}

// value makes the event.
func (c evVal) value() reflect.Value {
	eventTypes()
	typ := evTypes[c.Type]
	if typ == nil {
		typ = reflect.TypeOf(appdash.SpanNameEvent{})
	}
	v := reflect.New(typ).Elem()
	i := 0
	fill(v, func(string) leaf {
		if i < len(c.Leaves) {
			i++
			return c.Leaves[i-1]
		}
		return leaf{}
	})
	return v
}

// flat reports whether v has any annotation at all.
func flat(v reflect.Value) bool {
	t := v.Type()
	switch {
	case t == timeType || t == durType:
		return true
	}
	switch t.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && flat(v.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && flat(v.Field(i)) {
				return true
			}
		}
		return false
	case reflect.Slice, reflect.Map, reflect.Array:
		return v.Len() > 0
	}
	return true
}

// sameVal compares event values by the property's notion of equality.
func sameVal(path string, a, b reflect.Value) error {
	t := a.Type()
	if t == timeType {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Errorf("%s is %v, want %v", path, x, y)
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !flat(a) && !flat(b) {
			return nil
		}
		if a.IsNil() || b.IsNil() {
			return fmt.Errorf("%s is nil: %v, want nil: %v", path, a.IsNil(), b.IsNil())
		}
		return sameVal(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			if err := sameVal(path+"."+t.Field(i).Name, a.Field(i), b.Field(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s has %d elements, want %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := sameVal(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s has %d entries, want %d", path, a.Len(), b.Len())
		}
		for _, k := range b.MapKeys() {
			e := a.MapIndex(k)
			if !e.IsValid() {
				return fmt.Errorf("%s has no %q", path, k)
			}
			if err := sameVal(fmt.Sprintf("%s[%q]", path, k), e, b.MapIndex(k)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Float32, reflect.Float64:
		if x, y := a.Float(), b.Float(); x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
			return fmt.Errorf("%s is %v, want %v", path, x, y)
		}
		return nil
	}
	if x, y := a.Interface(), b.Interface(); x != y {
		return fmt.Errorf("%s is %q, want %q", path, fmt.Sprint(x), fmt.Sprint(y))
	}
	return nil
}

type rtCase struct {
	Ev  evVal
	Ptr bool // marshal a pointer to the event
}

func roundTrip(c rtCase) error {
	want := c.Ev.value()
	v := c.Ev.value()
	var e appdash.Event
	if c.Ptr {
		e = v.Addr().Interface().(appdash.Event)
	} else {
		e = v.Interface().(appdash.Event)
	}
	as, err := appdash.MarshalEvent(e)
	if err != nil {
		return fmt.Errorf("MarshalEvent: %v", err)
	}
	if err := sameVal("marshaled "+c.Ev.Type, v, want); err != nil {
		return fmt.Errorf("MarshalEvent modified the event: %v", err)
	}
	if n := len(schemasOf(as)); n != 1 || schemasOf(as)[0] != e.Schema() {
		return fmt.Errorf("MarshalEvent gave schemas %q, want one, %q", schemasOf(as), e.Schema())
	}
	got := reflect.New(want.Type())
	if err := appdash.UnmarshalEvent(as, got.Interface().(appdash.Event)); err != nil {
		return fmt.Errorf("UnmarshalEvent: %v", err)
	}
	if err := sameVal(c.Ev.Type, got.Elem(), want); err != nil {
		return fmt.Errorf("UnmarshalEvent: %v (annotations %s)", err, gen.ShowAnns(as))
	}
	var evs []appdash.Event
	if err := appdash.UnmarshalEvents(as, &evs); err != nil {
		return fmt.Errorf("UnmarshalEvents: %v", err)
	}
	if len(evs) != 1 || reflect.TypeOf(evs[0]) != want.Type() {
		return fmt.Errorf("UnmarshalEvents gave %d events (%#v), want one %v", len(evs), evs, want.Type())
	}
	if err := sameVal(c.Ev.Type, reflect.ValueOf(evs[0]), want); err != nil {
		return fmt.Errorf("UnmarshalEvents: %v (annotations %s)", err, gen.ShowAnns(as))
	}
	return nil
}

func schemasOf(as appdash.Annotations) []string {
	var out []string
	for _, a := range as {
		if s, ok := strings.CutPrefix(a.Key, "_schema:"); ok {
			out = append(out, s)
		}
	}
	return out
}

func runRoundTrip(x *fw.X, c rtCase) error {
	v := c.Ev.value()
	x.Class(strings.HasPrefix(c.Ev.Type, "verif"), "user-defined event type")
	x.Class(!strings.HasPrefix(c.Ev.Type, "verif"), "type of the library: "+c.Ev.Type)
	n, unset := 0, 0
	kinds := map[string]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		t := v.Type()
		if t == timeType || t == durType {
			n++
			kinds[t.String()] = true
			return
		}
		switch t.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				unset++
			} else {
				kinds["pointer"] = true
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Map, reflect.Slice:
			if v.Len() == 0 {
				unset++
			} else {
				kinds[t.Kind().String()] = true
				n += v.Len()
			}
			if v.Len() > 10 {
				kinds["more than 10 elements"] = true
			}
		case reflect.Array:
			n += v.Len()
			kinds["array"] = true
		default:
			n++
			kinds[t.Kind().String()] = true
		}
	}
	walk(v)
	for k := range kinds {
		x.Class(true, k)
	}
	x.Class(unset > 0, "unset field")
	x.Class(unset > 0 && n > 0, "unset and set fields")
	x.Nontrivial(n >= 2)
	return roundTrip(c)
}

// ctorCase calls the event constructors of the library.
type ctorCase struct {
	S gen.Str
	T gen.Tm
}

func runCtor(x *fw.X, c ctorCase) error {
	x.Nontrivial(c.S != "")
	s := string(c.S)
	before := time.Now()
	lg := appdash.Log(s)
	after := time.Now()
	lt := appdash.LogWithTimestamp(s, c.T.Time())
	check := func(e appdash.Event, schema string, name string) error {
		if e.Schema() != schema {
			return fmt.Errorf("%s has schema %q, want %q", name, e.Schema(), schema)
		}
		as, err := appdash.MarshalEvent(e)
		if err != nil {
			return fmt.Errorf("MarshalEvent(%s): %v", name, err)
		}
		var evs []appdash.Event
		if err := appdash.UnmarshalEvents(as, &evs); err != nil || len(evs) != 1 {
			return fmt.Errorf("%s unmarshals to %v, %v", name, evs, err)
		}
		v := reflect.ValueOf(evs[0])
		if schema == "name" {
			if got := v.FieldByName("Name").String(); got != s {
				return fmt.Errorf("%s came back as %q, want %q", name, got, s)
			}
			return nil
		}
		if got := v.FieldByName("Msg").String(); got != s {
			return fmt.Errorf("%s came back as %q, want %q", name, got, s)
		}
		if schema == "log" {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			te, ok := p.Interface().(appdash.TimestampedEvent)
			if !ok {
				return fmt.Errorf("%s is not a TimestampedEvent", name)
			}
			got := te.Timestamp()
			if name == "Log" {
				if got.Before(before.Round(0)) || got.After(after.Round(0)) {
					return fmt.Errorf("Log has timestamp %v, outside [%v, %v]", got, before, after)
				}
			} else if !got.Equal(c.T.Time()) {
				return fmt.Errorf("%s has timestamp %v, want %v", name, got, c.T.Time())
			}
		}
		return nil
	}
	if err := check(lg, "log", "Log"); err != nil {
		return err
	}
	if err := check(lt, "log", "LogWithTimestamp"); err != nil {
		return err
	}
	if err := check(appdash.Msg(s), "msg", "Msg"); err != nil {
		return err
	}
	return check(appdash.SpanName(s), "name", "SpanName")
}

// selfEvent marshals and unmarshals itself.
type selfEvent struct {
	as   *appdash.Annotations
	fail error
}

func (selfEvent) Schema() string { return "VerifSelf" }

func (e selfEvent) MarshalEvent() (appdash.Annotations, error) {
	if e.fail != nil {
		return nil, e.fail
	}
	return append(appdash.Annotations(nil), *e.as...), nil
}

var errSelf = errors.New("harness: event does not unmarshal")

func (selfEvent) UnmarshalEvent(as appdash.Annotations) (appdash.Event, error) {
	if hasKey(as, "fail") {
		return nil, errSelf
	}
	cp := append(appdash.Annotations(nil), as...)
	return selfEvent{as: &cp}, nil
}

func init() { appdash.RegisterEvent(selfEvent{}) }

type selfCase struct {
	Anns []gen.Ann
	Fail bool
}

func runSelf(x *fw.X, c selfCase) error {
	x.Nontrivial(len(c.Anns) > 1)
	in := gen.Annotations(c.Anns)
	if _, err := appdash.MarshalEvent(selfEvent{as: &in, fail: errSelf}); err != errSelf {
		return fmt.Errorf("MarshalEvent of a failing EventMarshaler gives error %v, want its error", err)
	}
	as, err := appdash.MarshalEvent(selfEvent{as: &in})
	if err != nil {
		return fmt.Errorf("MarshalEvent: %v", err)
	}
	want := append(append([]gen.Ann(nil), c.Anns...), gen.Ann{K: "_schema:VerifSelf"})
	if err := gen.SameAnns(as, want); err != nil {
		return fmt.Errorf("MarshalEvent of an EventMarshaler: %v", err)
	}
	for _, a := range c.Anns {
		if strings.HasPrefix(string(a.K), "_schema:") {
			return nil
		}
	}
	var evs []appdash.Event
	err = appdash.UnmarshalEvents(as, &evs)
	if hasKey(as, "fail") {
		x.Class(true, "event fails to unmarshal itself")
		if err != errSelf {
			return fmt.Errorf("UnmarshalEvents of a failing EventUnmarshaler gives error %v, want its error", err)
		}
		return nil
	}
	if err != nil || len(evs) != 1 {
		return fmt.Errorf("UnmarshalEvents gives %v, %v", evs, err)
	}
	se, ok := evs[0].(selfEvent)
	if !ok || se.as == nil {
		return fmt.Errorf("UnmarshalEvents of an EventUnmarshaler gives %#v", evs[0])
	}
	return gen.SameAnns(*se.as, want)
}

// concCase converts events in several goroutines at the same time.
type concCase struct {
	Gs [][]rtCase
}

func runConc(x *fw.X, c concCase) error {
	errs := make([]error, len(c.Gs))
	var start, wg sync.WaitGroup
	start.Add(1)
	n := 0
	for g := range c.Gs {
		n += len(c.Gs[g])
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			for _, r := range c.Gs[g] {
				err := noPanic(func() {
					if err := roundTrip(r); err != nil {
						errs[g] = err
					}
				})
				if err != nil {
					errs[g] = err
				}
			}
		}()
	}
	start.Done()
	wg.Wait()
	x.Nontrivial(len(c.Gs) > 1 && n > 4)
	return errors.Join(errs...)
}

// --- C17

// leafKeys lists the keys of the scalars of t and the prefixes of its
// collections.
func leafKeys(prefix string, t reflect.Type, scal, coll map[string]bool) {
	ptr := t.Kind() == reflect.Ptr
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t == timeType {
		scal[prefix] = true
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		if ptr {
			coll[prefix+"."] = true // any key under it sets the pointer
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			name := f.Tag.Get("trace")
			if name == "" {
				name = f.Name
			}
			if prefix != "" {
				name = prefix + "." + name
			}
			leafKeys(name, f.Type, scal, coll)
		}
	case reflect.Map, reflect.Slice, reflect.Array:
		coll[prefix+"."] = true
	default:
		scal[prefix] = true
	}
}

func keysOf(schema string) (keys []string, scal, coll map[string]bool) {
	eventTypes()
	scal, coll = map[string]bool{}, map[string]bool{}
	if t := evTypes[schema]; t != nil {
		leafKeys("", t, scal, coll)
	}
	for k := range scal {
		keys = append(keys, k)
	}
	for k := range coll {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return
}

var evilIdx = []string{"0", "1", "2", "3", "9", "10", "100", "1000000", "1000000000", "9223372036854775807", "9223372036854775808", "-1", "-9223372036854775808", "+1", "01", "1.0", "0x1", "", "a", "1e3", " 1", "4294967296", "18446744073709551615"}
var evilVal = []string{"", "0", "-1", "1", "true", "x", "1e400", "NaN", "-Inf", "99999999999999999999", "256", "-129", "2006-01-02T15:04:05Z", "2006-01-02", "0.1", "1_000", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999-23:59", "\xff", "1e308", "9223372036854775807", "-9223372036854775808"}

// relatedKey draws a key that is like one of the event's.
func relatedKey(t *rapid.T, keys []string) string {
	if len(keys) == 0 {
		return string(gen.SmallStr(t, "k"))
	}
	k := rapid.SampledFrom(keys).Draw(t, "key")
	switch rapid.IntRange(0, 8).Draw(t, "rel") {
	case 0, 1, 2:
		if strings.HasSuffix(k, ".") {
			return k + rapid.SampledFrom(evilIdx).Draw(t, "idx")
		}
		return k
	case 3:
		return k + "." + rapid.SampledFrom(evilIdx).Draw(t, "idx")
	case 4:
		return k[:rapid.IntRange(0, len(k)).Draw(t, "cut")]
	case 5:
		return k + string(gen.SmallStr(t, "suffix"))
	case 6:
		return k + rapid.SampledFrom([]string{" ", "-", "/", "\x00", "\xff", "..", "x", "0"}).Draw(t, "sfx")
	case 7:
		return strings.TrimSuffix(k, ".")
	default:
		b := []byte(k)
		if len(b) > 0 {
			i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
			b[i] += byte(rapid.IntRange(1, 255).Draw(t, "add"))
		}
		return string(b)
	}
}

type anyCase struct {
	Anns []gen.Ann
}

func genAnyAnns(t *rapid.T) anyCase {
	eventTypes()
	var c anyCase
	var schemas []string
	for i := rapid.IntRange(0, 3).Draw(t, "nschemas"); i >= 0; i-- {
		schemas = append(schemas, rapid.SampledFrom(evSchemas).Draw(t, "schema"))
	}
	n := rapid.IntRange(0, 14).Draw(t, "n")
	if rapid.IntRange(0, 49).Draw(t, "many") == 0 {
		n = 300
	}
	var keys []string
	for _, s := range schemas {
		ks, _, _ := keysOf(s)
		keys = append(keys, ks...)
	}
	for i := 0; i < n; i++ {
		var a gen.Ann
		if rapid.IntRange(0, 5).Draw(t, "foreign") == 0 {
			a = gen.DrawAnn(t, "f", true)
		} else {
			a.K = gen.Str(relatedKey(t, keys))
			if rapid.Bool().Draw(t, "evilval") {
				a.V = gen.Str(rapid.SampledFrom(evilVal).Draw(t, "v"))
			} else {
				a.V = gen.SmallStr(t, "v")
			}
		}
		c.Anns = append(c.Anns, a)
	}
	for _, s := range schemas {
		if rapid.IntRange(0, 9).Draw(t, "mangle") == 0 {
			s += rapid.SampledFrom([]string{"x", " ", ""}).Draw(t, "m")
		}
		a := gen.Ann{K: gen.Str("_schema:" + s), V: gen.Str(rapid.SampledFrom([]string{"", "", "x"}).Draw(t, "sv"))}
		i := rapid.IntRange(0, len(c.Anns)).Draw(t, "at")
		c.Anns = append(c.Anns[:i:i], append([]gen.Ann{a}, c.Anns[i:]...)...)
	}
	return c
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func runAnyAnns(x *fw.X, c anyCase) error {
	eventTypes()
	as := gen.Annotations(c.Anns)
	var want []string
	size := 0
	for _, a := range as {
		size += len(a.Key) + len(a.Value) + 64
		if s, ok := strings.CutPrefix(a.Key, "_schema:"); ok {
			if s == "VerifSelf" {
				return nil
			}
			if evTypes[s] != nil || s == "VerifRec" && registeredRec {
				want = append(want, s)
			} else {
				x.Class(true, "schema not registered")
			}
		}
	}
	x.Class(len(want) > 1, "several schemas")
	x.Class(len(c.Anns) > 100, "more than 100 annotations")
	x.Nontrivial(len(want) > 0 && len(as) > len(want)+1)
	marker := appdash.SpanNameEvent{Name: "already there"}
	evs := []appdash.Event{marker}
	a0 := allocated()
	err := appdash.UnmarshalEvents(as, &evs)
	used := allocated() - a0
	if err != nil {
		return fmt.Errorf("UnmarshalEvents of %s: %v", gen.ShowAnns(as), err)
	}
	if lim := uint64(4<<20 + (len(want)+1)*size*100); used > lim {
		return fmt.Errorf("UnmarshalEvents of %s allocated %d bytes for %d bytes of annotations", gen.ShowAnns(as), used, size)
	}
	if err := gen.SameAnns(as, c.Anns); err != nil {
		return fmt.Errorf("UnmarshalEvents modified the annotations: %v", err)
	}
	var got []string
	for _, e := range evs[1:] {
		got = append(got, e.Schema())
	}
	if evs[0] != marker || fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("UnmarshalEvents of %s gave events %q, want %q", gen.ShowAnns(as), got, want)
	}
	for i, e := range evs[1:] {
		if t := evTypes[want[i]]; t != nil && reflect.TypeOf(e) != t {
			return fmt.Errorf("event of schema %s has type %T, want %v", want[i], e, t)
		}
	}
	return nil
}

// registeredRec: recUser is an event type of C15; it is not registered.
const registeredRec = false

type mixCase struct {
	Evs     []evVal
	Foreign []gen.Ann
	Order   int64
	Absent  evVal // an event of another type that is not there
}

var mixTypes = [][]string{{"name"}, {"msg", "log"}, {"SQL"}, {"HTTPClient"}, {"HTTPServer"}, {"Timespan"}, {"timespan"}}

func genMix(t *rapid.T) mixCase {
	eventTypes()
	var c mixCase
	pool := append([][]string(nil), mixTypes...)
	for i := 0; i < len(userEvents); i += 3 {
		pool = append(pool, []string{fmt.Sprintf("verif%d", i)})
	}
	perm := gen.DrawOrder(t, "mix", len(pool))
	rot := rapid.IntRange(0, len(pool)-1).Draw(t, "rot")
	n := rapid.IntRange(1, 5).Draw(t, "nev")
	var all []string
	for i := 0; i < n; i++ {
		s := rapid.SampledFrom(pool[perm[(i+rot)%len(perm)]]).Draw(t, "type")
		if evTypes[s] == nil {
			continue
		}
		c.Evs = append(c.Evs, genEvVal(t, s))
		ks, _, _ := keysOf(s)
		all = append(all, ks...)
	}
	for i := rapid.IntRange(0, 10).Draw(t, "nf"); i > 0; i-- {
		var a gen.Ann
		switch rapid.IntRange(0, 5).Draw(t, "fkind") {
		case 0:
			a = gen.DrawAnn(t, "f", true)
		case 1:
			a = gen.Ann{K: gen.Str("_schema:" + rapid.SampledFrom([]string{"nosuch", "", "Name", "sql", "HTTPserver", "verif"}).Draw(t, "fs"))}
		default:
			a = gen.Ann{K: gen.Str(relatedKey(t, all)), V: gen.SmallStr(t, "fv")}
		}
		c.Foreign = append(c.Foreign, a)
	}
	c.Order = rapid.Int64().Draw(t, "order")
	abs := pool[perm[(n+rot)%len(perm)]][0]
	if evTypes[abs] != nil {
		c.Absent = genEvVal(t, abs)
	}
	return c
}

func runMix(x *fw.X, c mixCase) error {
	eventTypes()
	scal, coll := map[string]bool{}, map[string]bool{}
	vals := map[string]reflect.Value{}
	var as appdash.Annotations
	for _, e := range c.Evs {
		if _, ok := vals[e.Type]; ok || evTypes[e.Type] == nil {
			return nil // out of the domain: the same type twice
		}
		_, s, cl := keysOf(e.Type)
		for k := range s {
			scal[k] = true
		}
		for k := range cl {
			coll[k] = true
		}
		vals[e.Type] = e.value()
		a, err := appdash.MarshalEvent(e.value().Interface().(appdash.Event))
		if err != nil {
			return fmt.Errorf("MarshalEvent: %v", err)
		}
		as = append(as, a...)
	}
	if vals["msg"].IsValid() && vals["log"].IsValid() {
		return nil // both have a key Msg
	}
	foreign := 0
next:
	for _, f := range c.Foreign {
		k := string(f.K)
		if s, ok := strings.CutPrefix(k, "_schema:"); ok && (evTypes[s] != nil || s == "VerifSelf") {
			continue
		}
		if scal[k] {
			continue
		}
		for p := range coll {
			if strings.HasPrefix(k, p) {
				continue next
			}
		}
		as = append(as, f.Annotation())
		foreign++
	}
	if c.Order != 0 {
		// Keep the relative order of foreign annotations with equal keys (any
		// order is fine: they are not the events').
		rand.New(rand.NewSource(c.Order)).Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	x.Class(foreign > 0, "foreign annotations")
	x.Class(len(vals) > 1, "several events")
	x.Class(len(vals) > 3, "four or more events")
	x.Nontrivial(len(vals) > 1 && foreign > 0)
	var evs []appdash.Event
	if err := appdash.UnmarshalEvents(as, &evs); err != nil {
		return fmt.Errorf("UnmarshalEvents of %s: %v", gen.ShowAnns(as), err)
	}
	var want []string
	for _, s := range schemasOf(as) {
		if evTypes[s] != nil {
			want = append(want, s)
		}
	}
	if len(evs) != len(want) {
		return fmt.Errorf("UnmarshalEvents of %s gave %d events, want %q", gen.ShowAnns(as), len(evs), want)
	}
	for i, e := range evs {
		if e.Schema() != want[i] || reflect.TypeOf(e) != evTypes[want[i]] {
			return fmt.Errorf("event %d is a %T of schema %q, want %q", i, e, e.Schema(), want[i])
		}
		if err := sameVal(want[i], reflect.ValueOf(e), vals[want[i]]); err != nil {
			return fmt.Errorf("UnmarshalEvents of %s: %v", gen.ShowAnns(as), err)
		}
	}
	for _, s := range want {
		got := reflect.New(evTypes[s])
		if err := appdash.UnmarshalEvent(as, got.Interface().(appdash.Event)); err != nil {
			return fmt.Errorf("UnmarshalEvent of %s: %v", gen.ShowAnns(as), err)
		}
		if err := sameVal(s, got.Elem(), vals[s]); err != nil {
			return fmt.Errorf("UnmarshalEvent of %s: %v", gen.ShowAnns(as), err)
		}
	}
	if evTypes[c.Absent.Type] != nil && !vals[c.Absent.Type].IsValid() {
		had := c.Absent.value()
		v := c.Absent.value()
		err := appdash.UnmarshalEvent(as, v.Addr().Interface().(appdash.Event))
		var se *appdash.EventSchemaUnmarshalError
		if !errors.As(err, &se) {
			return fmt.Errorf("UnmarshalEvent of %s into a %s gives error %v, want an EventSchemaUnmarshalError", gen.ShowAnns(as), c.Absent.Type, err)
		}
		if se.Target != c.Absent.Type || fmt.Sprintf("%q", se.Found) != fmt.Sprintf("%q", schemasOf(as)) || se.Error() == "" {
			return fmt.Errorf("EventSchemaUnmarshalError is %+v, want target %q, found %q", *se, c.Absent.Type, schemasOf(as))
		}
		if err := sameVal("the event of an absent schema", v, had); err != nil {
			return fmt.Errorf("UnmarshalEvent modified an event of an absent schema: %v", err)
		}
	}
	return nil
}

func init() {
	genRT := func(t *rapid.T) rtCase {
		eventTypes()
		return rtCase{Ev: genEvVal(t, rapid.SampledFrom(evSchemas).Draw(t, "schema")), Ptr: rapid.Bool().Draw(t, "ptr")}
	}
	fw.Add(fw.Sub{Prop: "C16", Name: "roundtrip", Quick: 60000, Rule: "one event of any type, all fields drawn; non-trivial: 2 or more scalar values"}, genRT, runRoundTrip)
	fw.Add(fw.Sub{Prop: "C16", Name: "constructors", Quick: 3000, Rule: "SpanName, Msg, Log, LogWithTimestamp of any string; non-trivial: not empty"},
		func(t *rapid.T) ctorCase { return ctorCase{S: gen.AnyStr(t, "s"), T: gen.DrawTime(t, "t")} }, runCtor)
	fw.Add(fw.Sub{Prop: "C16", Name: "self", Quick: 2000, Free: true, Rule: "events that marshal and unmarshal themselves; non-trivial: 2 or more annotations"},
		func(t *rapid.T) selfCase {
			c := selfCase{Anns: gen.DrawAnns(t, "a", 5, true)}
			if rapid.IntRange(0, 5).Draw(t, "fail") == 0 {
				c.Anns = append(c.Anns, gen.Ann{K: "fail"})
			}
			return c
		}, runSelf)
	fw.Add(fw.Sub{Prop: "C16", Name: "concurrent", Race: true, NoShrink: true, Quick: 400, Rule: "2 to 8 goroutines convert events at the same time; non-trivial: more than 4 events"},
		func(t *rapid.T) concCase {
			var c concCase
			for i := rapid.IntRange(2, 8).Draw(t, "gs"); i > 0; i-- {
				var g []rtCase
				for j := rapid.IntRange(1, 8).Draw(t, "n"); j > 0; j-- {
					g = append(g, genRT(t))
				}
				c.Gs = append(c.Gs, g)
			}
			return c
		}, runConc)
	fw.Add(fw.Sub{Prop: "C17", Name: "any", Free: true, Quick: 40000, Rule: "any annotations, most with keys like those of the named schemas; non-trivial: a registered schema and 2 or more other annotations"}, genAnyAnns, runAnyAnns)
	fw.Add(fw.Sub{Prop: "C17", Name: "mix", Quick: 20000, Rule: "1 to 5 events and foreign annotations, shuffled; non-trivial: 2 or more events and foreign annotations"}, genMix, runMix)
}
