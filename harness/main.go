// Command harness looks for an input on which the running code breaks a property.
// It is the replay side of the checks: it runs only after an obligation has failed, and decides nothing by itself.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

type oracle func(r *rand.Rand, n int) string // "" or what failed

var oracles = map[string]oracle{}

func main() {
	if len(os.Args) < 4 {
		fmt.Println("usage: harness PROPERTY SEED SECONDS")
		os.Exit(2)
	}
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	secs, _ := strconv.ParseFloat(os.Args[3], 64)
	f := oracles[os.Args[1]]
	if f == nil {
		fmt.Println("no oracle for", os.Args[1])
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	n := 0
	done := make(chan string, 1)
	go func() {
		for ; time.Now().Before(end); n++ {
			if d := try(f, rand.New(rand.NewSource(seed*1000003+int64(n))), n); d != "" {
				done <- d
				return
			}
		}
		done <- ""
	}()
	select {
	case d := <-done:
		if d != "" {
			fmt.Printf("FAILING INPUT (case %d, seed %d)\n%s\n", n, seed, d)
			os.Exit(1)
		}
		fmt.Printf("no failing input among %d cases\n", n)
	case <-time.After(time.Until(end) + 8*time.Second):
		fmt.Printf("FAILING INPUT (case %d, seed %d)\n%s\nthe call does not return\n", n, seed, running)
		os.Exit(1)
	}
}

var running string // what is being called

func try(f oracle, r *rand.Rand, n int) (d string) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(fail); ok {
				d = string(s)
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for i := 0; i+1 < len(st); i++ {
				if strings.Contains(st[i+1], "/json/") || strings.Contains(st[i+1], "/harness/") {
					keep = append(keep, st[i], st[i+1])
				}
			}
			if len(keep) > 24 {
				keep = keep[:24]
			}
			d = fmt.Sprintf("%s\npanics: %v\n%s", running, p, strings.Join(keep, "\n"))
		}
	}()
	return f(r, n)
}

type fail string

func failf(f string, a ...interface{}) { panic(fail(fmt.Sprintf(f, a...))) }

// call calls a function field by name.
func call(o interface{}, name string, args ...interface{}) []reflect.Value {
	v := reflect.ValueOf(o)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	f := v.FieldByName(name)
	if !f.IsValid() {
		failf("%T has no operation %s", o, name)
	}
	if f.IsNil() {
		failf("%T.%s is nil", o, name)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if rv, ok := a.(reflect.Value); ok {
			in[i] = rv
		} else if a == nil {
			in[i] = reflect.Zero(f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	return f.Call(in)
}

func has(o interface{}, name string) bool {
	v := reflect.ValueOf(o)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return v.FieldByName(name).IsValid()
}

func errsOf(v reflect.Value) []error {
	if v.Type() == reflect.TypeOf([]error{}) {
		return v.Interface().([]error)
	}
	if v.IsNil() {
		return nil
	}
	return []error{v.Interface().(error)}
}

func show(x interface{}) string {
	switch x := x.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(x)
	case *json.Map:
		if x == nil {
			return "(*Map)(nil)"
		}
		return "Map" + render(x)
	case *json.Array:
		if x == nil {
			return "(*Array)(nil)"
		}
		return "Array" + render(x)
	case json.Map:
		return "Map" + render(&x)
	case json.Array:
		return "Array" + render(&x)
	case *json.Value:
		if x == nil {
			return "(*Value)(nil)"
		}
		return "Value(" + show(x.GetObject()) + ")"
	case json.Value:
		return "Value(" + show(x.GetObject()) + ")"
	case []error:
		return fmt.Sprintf("[]error%q", x)
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return "&" + show(v.Elem().Interface())
	}
	return fmt.Sprintf("%T(%v)", x, x)
}

func render(x interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = "(rendering panics)"
		}
	}()
	var b strings.Builder
	switch x := x.(type) {
	case *json.Map:
		if e := x.ToJSONString(&b); len(e) > 0 {
			return fmt.Sprintf("(rendering fails: %v)", e)
		}
	case *json.Array:
		if e := x.ToJSONString(&b); len(e) > 0 {
			return fmt.Sprintf("(rendering fails: %v)", e)
		}
	}
	return b.String()
}
