package zzgvc

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// Rand generates values by type.
type Rand struct {
	*rand.Rand
	pool  []uint64
	depth int
}

var (
	impls    = map[string]reflect.Type{}
	implList []reflect.Type
	gens     = map[reflect.Type]reflect.Value{}
	seed0    int64
)

// RegisterImpl makes a concrete type available as a dynamic type of interface values.
func RegisterImpl[T any](name string) {
	t := reflect.TypeOf((*T)(nil)).Elem()
	impls[name] = t
	implList = append(implList, t)
}

// RegisterGen registers a generator func(*Rand) T.
func RegisterGen(f any) {
	v := reflect.ValueOf(f)
	gens[v.Type().Out(0)] = v
}

var nudges = map[string]reflect.Value{}

// RegisterNudge registers a function that turns drawn arguments into more interesting ones before a contract is executed.
func RegisterNudge(name string, f any) { nudges[name] = reflect.ValueOf(f) }

func nudge(name string, r *Rand, args []reflect.Value) {
	f, ok := nudges[name]
	if !ok || r.Intn(8) == 0 || f.Type().NumIn() != len(args)+1 {
		return
	}
	// a parameter of the nudge may be a pointer to what the contract takes by value
	as := []reflect.Value{reflect.ValueOf(r)}
	var back []int
	for i, a := range args {
		if f.Type().In(i+1) != a.Type() {
			p := reflect.New(a.Type())
			p.Elem().Set(a)
			as = append(as, p)
			back = append(back, i)
			continue
		}
		as = append(as, a)
	}
	defer func() {
		recover()
		for _, i := range back {
			args[i] = as[i+1].Elem()
		}
	}()
	f.Call(as)
}

func Begin(seed int64) { seed0 = seed }

// Num draws an integer: small numbers, powers of two, previously drawn values and their neighbours, or anything.
func (r *Rand) Num() uint64 {
	var v uint64
	switch k := r.Intn(10); {
	case k < 3:
		v = uint64(r.Intn(5))
	case k < 4:
		v = uint64(r.Intn(300))
	case k < 5:
		v = uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case k < 8 && len(r.pool) > 0:
		v = r.pool[r.Intn(len(r.pool))] + uint64(r.Intn(3)) - 1
	case k < 9:
		v = r.Uint64() >> uint(r.Intn(64))
	default:
		v = r.Uint64()
	}
	r.pool = append(r.pool, v)
	return v
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var timeT = reflect.TypeOf(time.Time{})
var bigT = reflect.TypeOf(big.Int{})

func Gen[T any](r *Rand) T {
	var z T
	return r.Value(reflect.TypeOf(&z).Elem()).Interface().(T)
}

// Value draws a value of the type.
func (r *Rand) Value(t reflect.Type) reflect.Value {
	if g, ok := gens[t]; ok && r.depth < 40 {
		r.depth++
		v := g.Call([]reflect.Value{reflect.ValueOf(r)})[0]
		r.depth--
		return v
	}
	return r.Raw(t)
}

// Raw draws a value ignoring the generator of this type.
func (r *Rand) Raw(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	r.fill(v)
	return v
}

func (r *Rand) fill(v reflect.Value) {
	v = settable(v)
	t := v.Type()
	if _, ok := gens[t]; ok && r.depth > 0 {
		v.Set(r.Value(t))
		return
	}
	if r.depth > 22 {
		return
	}
	r.depth++
	defer func() { r.depth-- }()
	switch t {
	case timeT:
		v.Set(reflect.ValueOf(time.Unix(int64(r.Num()>>20), int64(r.Intn(1000000000)))))
		return
	case bigT:
		b := new(big.Int).SetUint64(r.Num())
		if r.Intn(4) == 0 {
			b.Mul(b, new(big.Int).SetUint64(r.Num()))
			b.Mul(b, new(big.Int).SetUint64(r.Num()))
		}
		if r.Intn(6) == 0 {
			b.Neg(b)
		}
		v.Set(reflect.ValueOf(*b))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Num()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(r.Num())
	case reflect.String:
		n := r.Intn(6)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdeQ01-\x80\xff"[r.Intn(11)]
		}
		v.SetString(string(b))
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && r.Intn(3) > 0 {
			// few distinct identifiers
			b := byte(r.Intn(4))
			for i := 0; i < t.Len(); i++ {
				settable(v.Index(i)).SetUint(0)
			}
			settable(v.Index(0)).SetUint(uint64(b))
			if r.Intn(3) == 0 {
				settable(v.Index(t.Len() - 1)).SetUint(uint64(r.Intn(3)))
			}
			return
		}
		for i := 0; i < t.Len(); i++ {
			r.fill(v.Index(i))
		}
	case reflect.Slice:
		if r.Intn(8) == 0 {
			return
		}
		n := r.Intn(4)
		if t.Elem().Kind() == reflect.Uint8 {
			n = r.Intn(12)
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			r.fill(v.Index(i))
		}
	case reflect.Map:
		n := r.Intn(4)
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			r.fill(k)
			r.fill(e)
			if t.Key().Kind() == reflect.Interface && k.IsNil() {
				continue
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		if r.Intn(20) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		r.fill(p.Elem())
		v.Set(p)
	case reflect.Interface:
		if r.Intn(25) == 0 {
			return
		}
		var c []reflect.Type
		for _, i := range implList {
			if i.Implements(t) {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return
		}
		for try := 0; try < 3; try++ {
			e := r.Value(c[r.Intn(len(c))])
			if e.Kind() == reflect.Pointer && e.IsNil() {
				continue
			}
			v.Set(e)
			return
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			r.fill(v.Field(i))
		}
	}
}

// ---------------------------------------------------------------- decoding of solver models

type decoder struct {
	ptrs map[string]reflect.Value
}

func (d *decoder) into(v reflect.Value, n any) {
	v = settable(v)
	t := v.Type()
	num := func() *big.Int {
		s, _ := n.(string)
		b, ok := new(big.Int).SetString(s, 10)
		if !ok {
			return new(big.Int)
		}
		return b
	}
	switch t {
	case timeT:
		ns := num()
		q, m := new(big.Int).DivMod(ns, big.NewInt(1000000000), new(big.Int))
		v.Set(reflect.ValueOf(time.Unix(q.Int64(), m.Int64())))
		return
	case bigT:
		v.Set(reflect.ValueOf(*num()))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(n == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(num().Int64())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(num().Uint64())
	case reflect.String:
		s, _ := n.(string)
		b, _ := base64.StdEncoding.DecodeString(s)
		v.SetString(string(b))
	case reflect.Array:
		l, _ := n.([]any)
		for i := 0; i < t.Len() && i < len(l); i++ {
			d.into(v.Index(i), l[i])
		}
	case reflect.Slice:
		l, ok := n.([]any)
		if !ok {
			return
		}
		v.Set(reflect.MakeSlice(t, len(l), len(l)))
		for i := range l {
			d.into(v.Index(i), l[i])
		}
	case reflect.Struct:
		m, _ := n.(map[string]any)
		for i := 0; i < t.NumField(); i++ {
			if e, ok := m[t.Field(i).Name]; ok {
				d.into(v.Field(i), e)
			}
		}
	case reflect.Pointer:
		m, ok := n.(map[string]any)
		if !ok {
			return
		}
		id, _ := m["id"].(string)
		if p, ok := d.ptrs[id]; ok && p.Type() == t {
			v.Set(p)
			return
		}
		p := reflect.New(t.Elem())
		d.ptrs[id] = p
		d.into(p.Elem(), m["p"])
		v.Set(p)
	case reflect.Interface:
		m, ok := n.(map[string]any)
		if !ok {
			return
		}
		name, _ := m["t"].(string)
		it, ok := impls[name]
		if !ok || !it.Implements(t) {
			return
		}
		e := reflect.New(it).Elem()
		d.into(e, m["v"])
		v.Set(e)
	}
}

// ---------------------------------------------------------------- running

type outcome struct {
	rejected bool
	fail     string
	pan      string
}

func call(f reflect.Value, args []reflect.Value, nopanic bool) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case Reject:
				o.rejected = true
			case Fail:
				o.fail = e.Label
			default:
				if !nopanic {
					o.rejected = true
					return
				}
				o.fail = "no panic"
				o.pan = fmt.Sprint(e)
				st := strings.Split(string(debug.Stack()), "\n")
				for i, l := range st {
					if strings.HasPrefix(l, "panic(") && i+3 < len(st) {
						o.pan += " at " + strings.TrimSpace(st[i+3])
						break
					}
				}
			}
		}
	}()
	f.Call(args)
	return
}

func Dump(v any) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func dump(sb *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if d > 12 || sb.Len() > 20000 {
		sb.WriteString("...")
		return
	}
	if v.Type() == timeT && v.CanInterface() {
		fmt.Fprint(sb, v.Interface().(time.Time).UTC())
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		dump(sb, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dump(sb, v.Elem(), d+1)
	case reflect.Struct:
		sb.WriteString(v.Type().String() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(v.Type().Field(i).Name + ": ")
			dump(sb, v.Field(i), d+1)
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			sb.WriteString("0x")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(sb, "%02x", v.Index(i).Uint())
			}
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			dump(sb, v.Index(i), d+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		sb.WriteString("map[")
		for i, k := range v.MapKeys() {
			if i > 0 {
				sb.WriteString(", ")
			}
			dump(sb, k, d+1)
			sb.WriteString(": ")
			dump(sb, v.MapIndex(k), d+1)
		}
		sb.WriteString("]")
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	default:
		fmt.Fprintf(sb, "<%s>", v.Type())
	}
}

// RunContract runs a contract on the given inputs and on generated ones until the time is used up.
func RunContract(name string, fn any, nopanic bool, params string, split string, inputs string, ms int) {
	f := reflect.ValueOf(fn)
	var in []map[string]any
	json.Unmarshal([]byte(inputs), &in)
	names := strings.Split(params, ",")
	failed := map[string]bool{}
	report := func(o outcome, args []reflect.Value, from string, iter int, shown string) {
		key := o.fail
		if failed[key] {
			return
		}
		failed[key] = true
		b, _ := json.Marshal(map[string]any{"Contract": name, "Label": o.fail, "Panic": o.pan, "From": from, "Seed": seed0, "Iter": iter, "Input": shown})
		fmt.Fprintf(os.Stdout, "\nGVCFAIL %s\n", b)
	}
	show := func(args []reflect.Value) string {
		var p []string
		for i, a := range args {
			var sb strings.Builder
			dump(&sb, a, 0)
			p = append(p, "  "+names[i]+" = "+sb.String())
		}
		return strings.Join(p, "\n")
	}
	runs, rej := 0, 0
	for k, m := range in {
		var args []reflect.Value
		bad := false
		func() {
			defer func() {
				if recover() != nil {
					bad = true
				}
			}()
			d := &decoder{ptrs: map[string]reflect.Value{}}
			for i := 0; i < f.Type().NumIn(); i++ {
				v := reflect.New(f.Type().In(i)).Elem()
				d.into(v, m[names[i]])
				args = append(args, v)
			}
		}()
		if bad {
			continue
		}
		shown := show(args)
		runs++
		o := call(f, args, nopanic)
		if o.rejected {
			rej++
		} else if o.fail != "" {
			report(o, args, "model", k, shown)
		}
	}
	sp, rng, _ := strings.Cut(split, ":")
	lo, hi, _ := strings.Cut(rng, "..")
	l, _ := strconv.Atoi(lo)
	h, _ := strconv.Atoi(hi)
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	for it := 0; time.Now().Before(end) && len(failed) == 0; it++ {
		r := &Rand{Rand: rand.New(rand.NewSource(seed0*1000003 + int64(it)))}
		anySource = func(t reflect.Type) reflect.Value { return r.Value(t) }
		var args []reflect.Value
		for i := 0; i < f.Type().NumIn(); i++ {
			v := draw(r, f.Type().In(i))
			if split != "" && names[i] == sp {
				k := int64(l + r.Intn(h-l+1))
				nv := reflect.New(v.Type()).Elem()
				if nv.CanInt() {
					nv.SetInt(k)
				} else {
					nv.SetUint(uint64(k))
				}
				v = nv
			}
			args = append(args, v)
		}
		nudge(name, r, args)
		runs++
		o := call(f, args, nopanic)
		if o.rejected {
			rej++
			continue
		}
		if o.fail != "" {
			// regenerate: the call may have changed its arguments
			r = &Rand{Rand: rand.New(rand.NewSource(seed0*1000003 + int64(it)))}
			args = nil
			for i := 0; i < f.Type().NumIn(); i++ {
				args = append(args, draw(r, f.Type().In(i)))
			}
			nudge(name, r, args)
			report(o, args, "search", it, show(args))
		}
	}
	b, _ := json.Marshal(map[string]any{"Contract": name, "Runs": runs, "Rejected": rej, "Executed": runs - rej})
	fmt.Fprintf(os.Stdout, "\nGVCSTAT %s\n", b)
}

var _ = sort.Strings

// draw: a generator that runs into a panic of the code under test gives the zero value.
func draw(r *Rand, t reflect.Type) (v reflect.Value) {
	defer func() {
		if recover() != nil {
			r.depth = 0
			v = reflect.New(t).Elem()
		}
	}()
	return r.Value(t)
}
