// Package selftest checks the executor itself.
package selftest

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/vf"
)

type pt struct {
	X, Y int
	S    string `json:"s"`
	M    map[string]int
	p    *pt
}

func (p *pt) Hello(n int) string { return fmt.Sprint("hi", n, p.S) }

type part struct {
	X int
	y int
}

type holder struct {
	part
	in part
}

func init() {
	vf.Register("st.arith", func() {
		a := vf.Int("a", -5, 5)
		b := vf.Int("b", 0, 3)
		if a > 2 && b == 3 {
			vf.Reach("x")
		}
		vf.Assert(a+b <= 8, "bound")
		vf.Assert(a*a >= 0, "sq")
	})
	vf.Register("st.fail", func() {
		a := vf.Int("a", -5, 5)
		s := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
		vf.Assert(s[a+5] != 9, "nine")
	})
	vf.Register("st.lib", func() {
		s := fmt.Sprintf("%d %s %v %+v %x %q %t", 42, "abc", []int{1, 2}, pt{X: 1, S: "q"}, 255, "z", true)
		vf.Assert(s == `42 abc [1 2] {X:1 Y:0 S:q M:map[] p:<nil>} ff "z" true`, "fmt: "+s)
		b, err := json.Marshal(pt{X: 3, Y: 4, S: "e", M: map[string]int{"b": 1, "a": 2}})
		vf.Assert(err == nil && string(b) == `{"X":3,"Y":4,"s":"e","M":{"a":2,"b":1}}`, "json: "+string(b))
		var q pt
		err = json.Unmarshal(b, &q)
		vf.Assert(err == nil && reflect.DeepEqual(q, pt{X: 3, Y: 4, S: "e", M: map[string]int{"b": 1, "a": 2}}), fmt.Sprint("unjson", err, q))
		out := reflect.ValueOf(&q).MethodByName("Hello").Call([]reflect.Value{reflect.ValueOf(7)})
		vf.Assert(out[0].String() == "hi7e" || out[0].String() == "hi 7 e" || out[0].String() == "hi7 e", "call "+out[0].String())
		hv := reflect.ValueOf(&holder{})
		open := ""
		for _, f := range []reflect.Value{hv.Elem().Field(0), hv.Elem().Field(0).Field(0), hv.Elem().Field(0).Field(1), hv.Elem().Field(1), hv.Elem().Field(1).Field(0), hv.Elem().FieldByName("X")} {
			open += fmt.Sprintf("%t %t;", f.CanInterface(), f.CanSet())
		}
		vf.Assert(open == "false false;true true;false false;false false;false false;true true;", "reflect: "+open)
		x := []string{"c", "a", "b"}
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		vf.Assert(strings.Join(x, "") == "abc", "sort")
		e := fmt.Errorf("wrap: %w", context.Canceled)
		vf.Assert(errors.Is(e, context.Canceled), "is")
		var pe *myErr
		vf.Assert(errors.As(fmt.Errorf("w %w", &myErr{3}), &pe) && pe.n == 3, "as")
		var m sync.Map
		m.Store("a", 1)
		m.Store("b", 2)
		t := 0
		m.Range(func(k, v any) bool { t += v.(int); return true })
		vf.Assert(t == 3, "syncmap")
		tt := time.Date(2020, 2, 3, 4, 5, 6, 7, time.UTC)
		vf.Assert(tt.Format(time.RFC3339Nano) == "2020-02-03T04:05:06.000000007Z", "time")
	})
	vf.Register("st.conc", func() {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		defer cancel()
		ch := make(chan int)
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); ch <- i }()
		}
		go func() { wg.Wait(); close(ch) }()
		s := 0
		for v := range ch {
			s += v
		}
		vf.Assert(s == 3, "sum")
		st := time.Now()
		tk := time.NewTicker(time.Second)
		n := 0
	L:
		for {
			select {
			case <-tk.C:
				n++
			case <-ctx.Done():
				break L
			}
		}
		vf.Assert(n >= 2 && n <= 3, "ticks")
		vf.Assert(time.Since(st) == 3*time.Second, "elapsed")
		func() {
			defer func() {
				r := recover()
				vf.Assert(fmt.Sprint(r) == "boom", "recover")
			}()
			defer func() {
				func() { _ = recover() }()
			}()
			panic("boom")
		}()
	})
	vf.Register("st.mapsym", func() {
		m := map[int]string{}
		a, b := vf.Int("a", 0, 3), vf.Int("b", 0, 3)
		m[a] = "a"
		m[b] = "b"
		vf.Assert(vf.Iff(len(m) == 1, a == b), "len")
		if a != b {
			vf.Assert(m[a] == "a", "a")
		}
		vf.Assert(m[b] == "b", "b")
	})
	vf.Register("st.deadlock", func() {
		ch := make(chan int)
		if vf.Bool("x") {
			<-ch
		}
	})
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my" }
