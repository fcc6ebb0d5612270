// witness looks for a concrete input on which the code in the repository behaves differently from what a
// property states, and replays one. It is a help for reading a failed proof: it decides nothing.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type HexBytes []byte

func (h HexBytes) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *HexBytes) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// Case is one concrete input; what its parts mean depends on the kind
type Case struct {
	Prop string     `json:"property"`
	Kind string     `json:"kind"`
	B    []HexBytes `json:"bytes,omitempty"`
	N    []int64    `json:"numbers,omitempty"`
	S    []string   `json:"strings,omitempty"`
	D    []FakeDial `json:"dialects,omitempty"`
	With *Case      `json:"with,omitempty"`
	What string     `json:"summary,omitempty"`
}

type Seeds struct {
	Ints  []int64    `json:"ints"`
	Bytes []HexBytes `json:"bytes"`
	Names []string   `json:"names"` // message types the failed obligations are about
}

// R is a source of inputs: random values, boundary values, and those in the failed proof or the source
type R struct {
	*rand.Rand
	seeds Seeds
	step  int
}

func (r *R) num(bits uint) int64 {
	m := int64(-1)
	if bits < 63 {
		m = int64(1)<<bits - 1
	}
	switch k := r.Intn(10); {
	case k < 3 && len(r.seeds.Ints) > 0:
		v := r.seeds.Ints[r.Intn(len(r.seeds.Ints))]
		return (v + int64(r.Intn(3)) - 1) & m
	case k < 5:
		b := uint(r.Intn(int(bits) + 1))
		return (int64(1)<<b + int64(r.Intn(3)) - 1) & m
	default:
		return r.Int63() & m
	}
}
func (r *R) upto(n int) int { // 0..n
	if n <= 0 {
		return 0
	}
	switch r.Intn(5) {
	case 0:
		return []int{0, 1, n, n - 1, n / 2}[r.Intn(5)]
	case 1:
		if len(r.seeds.Ints) > 0 {
			if v := r.seeds.Ints[r.Intn(len(r.seeds.Ints))] + int64(r.Intn(3)) - 1; v >= 0 && v <= int64(n) {
				return int(v)
			}
		}
	}
	return r.Intn(n + 1)
}
func (r *R) one(p int) bool { return r.Intn(p) == 0 }
func (r *R) byte() byte {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 0xff
	case 2:
		return []byte{0xfd, 0xfe}[r.Intn(2)]
	case 3:
		return byte(r.num(8))
	}
	return byte(r.Intn(256))
}
func (r *R) bytes(n int) []byte {
	b := make([]byte, n)
	zero := r.Intn(5)
	for i := range b {
		if zero == 0 {
			b[i] = byte(r.Intn(2) * r.Intn(2) * r.Intn(256))
		} else {
			b[i] = r.byte()
		}
	}
	switch r.Intn(4) {
	case 0: // zeros at the end
		for i := n - 1 - r.upto(n); i >= 0 && i < n; i++ {
			b[i] = 0
		}
	case 1:
		if len(r.seeds.Bytes) > 0 {
			copy(b, r.seeds.Bytes[r.Intn(len(r.seeds.Bytes))])
		}
	}
	return b
}

type kind struct {
	gen func(r *R, prop string) Case
	run func(c Case) string // "" or how the code departs from the property
}

var kinds = map[string]kind{}

var byProp = map[string][]string{}

func reg(props string, name string, gen func(r *R, prop string) Case, run func(c Case) string) {
	kinds[name] = kind{gen, run}
	for _, p := range strings.Fields(props) {
		byProp[p] = append(byProp[p], name)
	}
}

// alone: kinds that are not run side by side (they start goroutines of their own, or measure)
var alone = map[string]bool{"stream": true, "close": true, "writeloop": true, "ctor": true, "udp": true, "udprace": true, "flood": true}

// runCase runs one case with a time limit; a panic is a departure. A case that has another one with it runs
// side by side with it, many times, each on values of its own.
func runCase(c Case) (what string) {
	done := make(chan string, 2)
	one := func(c Case, times int) {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panic: %v at %s", e, where())
			}
		}()
		w := ""
		for i := 0; i < times && w == ""; i++ {
			w = kinds[c.Kind].run(c)
		}
		done <- w
	}
	if c.With == nil {
		go one(c, 1)
	} else {
		single := c
		single.With = nil
		go one(single, 200)
		go one(*c.With, 200)
		select {
		case w := <-done:
			if w != "" {
				return w
			}
		case <-time.After(20 * time.Second):
		}
	}
	select {
	case what = <-done:
	case <-time.After(20 * time.Second):
		what = "the call did not return within 20 s"
	}
	return
}

func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if i := strings.Index(l, "go-mavlink2"); i >= 0 && strings.Contains(l, ".go:") && !strings.Contains(l, "/witness/") {
			f := strings.Fields(l)
			return f[0]
		}
	}
	return "?"
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Float64("budget", 60, "seconds")
	seedFile := flag.String("seeds", "", "")
	caseFile := flag.String("case", "", "replay this case")
	last := flag.String("last", "", "file that holds the case being run")
	out := flag.String("out", "", "")
	flag.Parse()
	quiet()
	if *caseFile != "" {
		b, err := os.ReadFile(*caseFile)
		if err != nil {
			fail(err)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fail(err)
		}
		n := repeats(c.Kind)
		if c.With != nil {
			n = 50
		}
		for i := 0; i < n; i++ {
			if w := runCase(c); w != "" {
				say("departs from " + c.Prop + ": " + w)
				os.Exit(1)
			}
		}
		say("behaves as " + c.Prop + " demands")
		return
	}
	r := &R{Rand: rand.New(rand.NewSource(*seed))}
	if *seedFile != "" {
		b, err := os.ReadFile(*seedFile)
		if err == nil {
			err = json.Unmarshal(b, &r.seeds)
		}
		if err != nil {
			fail(err)
		}
	}
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	n := 0
	for time.Now().Before(end) {
		for _, k := range byProp[*prop] {
			c := kinds[k].gen(r, *prop)
			c.Prop, c.Kind = *prop, k
			if *last != "" && (racy(k) || *prop == "C21" || *prop == "C26") {
				b, _ := json.Marshal(c)
				os.WriteFile(*last, b, 0644)
			}
			n++
			r.step++
			w := runCase(c)
			if w == "" && !alone[k] && r.step%40 == 0 {
				o := kinds[k].gen(r, *prop)
				o.Prop, o.Kind = *prop, k
				if runCase(o) == "" {
					c.With = &o
					if w = runCase(c); w != "" {
						w = "used from two goroutines at once: " + w
					}
				}
			}
			if w == "" {
				continue
			}
			c = shrink(c, w, time.Now().Add(5*time.Second))
			c.What = runCase(c)
			if c.What == "" {
				c.What = w
			}
			b, _ := json.MarshalIndent(c, "", " ")
			if *out != "" {
				os.WriteFile(*out, b, 0644)
			}
			say("found after " + fmt.Sprint(n) + " inputs: " + c.What)
			os.Exit(1)
		}
		if len(byProp[*prop]) == 0 {
			break
		}
	}
	say(fmt.Sprintf("no failing input among %d", n))
}

func racy(k string) bool { return k == "close" || k == "readloop" || k == "writeloop" || k == "udp" }
func repeats(k string) int {
	if k == "close" || k == "writeloop" {
		return 200
	}
	return 1
}

// shrink: shorter byte strings and smaller numbers, as long as the case still fails
func shrink(c Case, w string, end time.Time) Case {
	if strings.HasPrefix(w, "the call did not return") || racy(c.Kind) || c.With != nil {
		return c
	}
	try := func(n Case) bool {
		if time.Now().After(end) {
			return false
		}
		if x := runCase(n); x != "" && !strings.HasPrefix(x, "case:") {
			c = n
			return true
		}
		return false
	}
	cp := func() Case {
		n := c
		n.B = nil
		for _, b := range c.B {
			n.B = append(n.B, append(HexBytes{}, b...))
		}
		n.N = append([]int64{}, c.N...)
		return n
	}
	if !shrinkable[c.Kind] {
		return c
	}
	for i := range c.B {
		for k := len(c.B[i]) / 2; k > 0; k /= 2 {
			for at := 0; at+k <= len(c.B[i]); {
				n := cp()
				n.B[i] = append(n.B[i][:at:at], n.B[i][at+k:]...)
				if !try(n) {
					at += k
				}
				if time.Now().After(end) {
					return c
				}
			}
		}
	}
	return c
}

// kinds whose byte strings may be cut anywhere without leaving the property's domain
var shrinkable = map[string]bool{"crc": true, "stream": true, "text": true, "trunc": true, "cstr": true}

var stdout = os.Stdout

// quiet: what the code under test prints is not wanted
func quiet() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
}
func say(s string) { fmt.Fprintln(stdout, s) }
func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}
