package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"sync"
	"syscall"
	"time"
	"unsafe"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
)

var errLine = errors.New("line is down")
var errClose = errors.New("closing failed")

// passing: an error of the kind networks report when trying again might help
type passing struct{ temporary, timeout bool }

func (passing) Error() string     { return "try again" }
func (e passing) Temporary() bool { return e.temporary }
func (e passing) Timeout() bool   { return e.timeout }

// the ways a transport can fail
var lineErrors = []error{errLine, errLine, passing{true, false}, passing{true, true}, passing{false, true}, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite,
	io.ErrClosedPipe, io.ErrNoProgress, context.Canceled, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, &net.OpError{Op: "write", Err: syscall.ENOBUFS}}

func lineError(n int64) error { return lineErrors[int(uint64(n)%uint64(len(lineErrors)))] }

// transport: delivers chunks, then fails; remembers what is written
type transport struct {
	mu       sync.Mutex
	chunks   [][]byte
	end      error
	withData bool          // the error comes together with the last bytes
	block    chan struct{} // reading blocks at the end until this is closed
	closed   int
	closeErr error
	written  [][]byte
	failAt   int // write number that fails (from 1)
	failWith error
	onWrite  func(n int)
	events   *[]string
}

func (t *transport) Read(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.chunks) == 0 {
		b := t.block
		t.mu.Unlock()
		if b != nil {
			<-b
		}
		return 0, t.end
	}
	defer t.mu.Unlock()
	n := copy(p, t.chunks[0])
	if n == len(t.chunks[0]) {
		t.chunks = t.chunks[1:]
		if len(t.chunks) == 0 && t.withData && t.block == nil {
			return n, t.end
		}
	} else {
		t.chunks[0] = t.chunks[0][n:]
	}
	return n, nil
}
func (t *transport) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.written = append(t.written, append([]byte{}, p...))
	n := len(t.written)
	if t.events != nil {
		*t.events = append(*t.events, fmt.Sprintf("write %x", p))
	}
	f := t.onWrite
	t.mu.Unlock()
	if f != nil {
		f(n)
	}
	if n == t.failAt {
		return 0, t.failWith
	}
	return len(p), nil
}
func (t *transport) Close() error {
	t.mu.Lock()
	t.closed++
	t.mu.Unlock()
	return t.closeErr
}

type logger struct {
	read, written [][]byte
	events        *[]string
	mode          int
}

var errLog = errors.New("log is full")

func (l *logger) err(n int) error {
	if l.mode != 0 && n%l.mode == 0 {
		return errLog
	}
	return nil
}
func (l *logger) LogRead(b []byte) error {
	l.read = append(l.read, append([]byte{}, b...))
	return l.err(len(l.read))
}
func (l *logger) LogWritten(b []byte) error {
	l.written = append(l.written, append([]byte{}, b...))
	if l.events != nil {
		*l.events = append(*l.events, fmt.Sprintf("log %x", b))
	}
	return l.err(len(l.written))
}

// scan: the frames found in the bytes
func scan(in []byte, permissive bool, valid func(b []byte) bool) (out [][]byte) {
	for len(in) >= 3 {
		n := frameLen(in)
		if n == 0 {
			in = in[1:]
			continue
		}
		if len(in) < n {
			break
		}
		if valid(in[:n]) {
			out = append(out, in[:n])
			in = in[n:]
			continue
		}
		if permissive {
			out = append(out, in[:n])
		}
		in = in[1:]
	}
	return
}

func cut(b []byte, sizes []int64) (out [][]byte) {
	for i := 0; len(b) > 0; i++ {
		n := 4096
		if len(sizes) > 0 {
			n = int(sizes[i%len(sizes)])
		}
		if n < 1 {
			n = 1
		}
		if n > len(b) {
			n = len(b)
		}
		out = append(out, append([]byte{}, b[:n]...))
		b = b[n:]
	}
	return
}

// guard runs f and reports a panic
func guard(f func()) (what string) {
	defer func() {
		if e := recover(); e != nil {
			what = fmt.Sprintf("panic: %v at %s", e, where())
		}
	}()
	f()
	return ""
}

// streamCase: B[0] the bytes received; N = permissive, options, chunk sizes...
func streamCase(c Case) string {
	in := []byte(c.B[0])
	permissive := c.N[0] != 0
	opt := int(c.N[1])
	want := scan(in, permissive, func(b []byte) bool { return expectValid(c.D, b) == nil })
	end := lineError(int64(opt >> 6))
	t := &transport{chunks: cut(in, c.N[2:]), end: end, withData: opt&1 != 0}
	var lg *logger
	var s *mavlink2.FrameStream
	ds := dialectsOf(c)
	if opt&2 != 0 {
		lg = &logger{mode: opt >> 4 & 3}
		s = mavlink2.NewFrameStreamWithLogger(t, make(chan mavlink2.Frame), ds, permissive, lg)
	} else {
		s = mavlink2.NewFrameStream(t, make(chan mavlink2.Frame), ds, permissive)
	}
	p := make(chan string, 1)
	go func() { p <- guard(func() { s.ReadContext(context.Background()) }) }()
	var got []mavlink2.Frame
	var copies [][]byte
	what := ""
	stop := false
	check := func(f mavlink2.Frame) {
		if f == nil {
			what = "a nil frame was delivered"
			return
		}
		b := f.Bytes()
		if !isComplete(b) {
			what = fmt.Sprintf("the frame %x delivered is not complete", b)
			return
		}
		if c.Prop == "C07" {
			if w := guard(func() { what = accessors(Case{Prop: "C07", B: []HexBytes{b}}) }); w != "" {
				what = w
			}
		}
		got = append(got, f)
		copies = append(copies, append([]byte{}, b...))
		if opt&4 != 0 { // the consumer may do as it likes with the frame
			for i := range b {
				b[i] = 0xfd
			}
			copy(copies[len(copies)-1], copies[len(copies)-1])
		}
	}
	desc := func() string {
		return fmt.Sprintf("receiving %x in pieces of %v (invalid frames wanted: %v)", in, c.N[2:], permissive)
	}
	for !stop && what == "" {
		f, ok := <-s.Read()
		if !ok {
			stop = true
			break
		}
		check(f)
		if len(got) > len(in)+10 {
			what = "endless frames"
		}
	}
	if !stop {
		go func() {
			for range s.Read() {
			}
		}()
	}
	if w := <-p; w != "" {
		return desc() + ": " + w
	}
	if what != "" {
		return desc() + ": " + what
	}
	if c.Prop == "C07" {
		return ""
	}
	for i := range want {
		if i >= len(copies) {
			return fmt.Sprintf("%s: frame %d, %x, was not delivered", desc(), i, want[i])
		}
		if !bytes.Equal(copies[i], want[i]) {
			return fmt.Sprintf("%s: frame %d is %x, want %x", desc(), i, copies[i], want[i])
		}
	}
	if len(copies) > len(want) {
		return fmt.Sprintf("%s: frame %x was delivered too", desc(), copies[len(want)])
	}
	if c.Prop == "C21" {
		if opt&4 == 0 {
			for i, f := range got {
				if !bytes.Equal(f.Bytes(), copies[i]) {
					return fmt.Sprintf("%s: frame %d changed from %x to %x after it was handed over", desc(), i, copies[i], f.Bytes())
				}
			}
		}
		if lg != nil {
			if len(lg.read) != len(want) {
				return fmt.Sprintf("%s: %d frames were logged, %d found", desc(), len(lg.read), len(want))
			}
			for i := range want {
				if !bytes.Equal(lg.read[i], want[i]) {
					return fmt.Sprintf("%s: logged %x as frame %d, want %x", desc(), lg.read[i], i, want[i])
				}
			}
		}
		if got := s.GetCloseErr(); got != end && !(end == io.EOF && got == io.ErrUnexpectedEOF) {
			return fmt.Sprintf("%s: closed with %v, the transport's error is %v", desc(), got, end)
		}
	}
	return ""
}

func (r *R) stream(p string) Case {
	var in []byte
	var rows []Row
	ids := map[uint32]bool{}
	nf := 1 + r.Intn(5)
	for i := 0; i < nf; i++ {
		switch r.Intn(6) {
		case 0:
			in = append(in, r.bytes(r.upto(12))...)
		case 1:
			in = append(in, []byte{0xfd, 0xfe}[r.Intn(2)], byte(r.upto(60)))
		case 2:
			if r.one(4) {
				in = append(in, bytes.Repeat([]byte{r.byte()}, r.upto(700))...)
			}
		}
		v := 1 + r.Intn(2)
		id := uint32(r.num(24))
		if v == 1 {
			id &= 0xff
		}
		extra := r.byte()
		n := r.upto(40)
		if r.one(5) {
			n = r.upto(255)
		}
		if !ids[id] {
			ids[id] = true
			row := Row{ID: id, Extra: extra, Max: 255}
			if r.one(5) {
				row.Max = uint(r.upto(255))
			}
			if r.one(5) {
				row.Min = uint(r.upto(int(row.Max)))
			}
			rows = append(rows, row)
		}
		inc := byte(0)
		if r.one(3) {
			inc = r.byte()
		}
		b := buildFrame(v, inc, byte(r.Intn(3)), r.byte(), r.byte(), r.byte(), id, r.bytes(n), extra, r.bytes(13))
		switch r.Intn(8) {
		case 0:
			b[hdrLen(b)+n] ^= 1
		case 1: // a frame inside a frame
			if len(in) > 0 {
				k := r.Intn(len(in))
				in = append(in[:k:k], append(b, in[k:]...)...)
				continue
			}
		case 2:
			in = append(in, b[:r.upto(len(b))]...)
		}
		in = append(in, b...)
		for r.one(5) { // peers repeat themselves
			in = append(in, b...)
		}
	}
	if r.one(2) {
		in = append(in, make([]byte, r.upto(300))...)
	}
	c := Case{B: []HexBytes{in}, N: []int64{0, int64(r.Intn(64) + r.Intn(20)<<6)}, D: []FakeDial{{Rows: rows}}}
	if r.one(6) {
		c.D = append([]FakeDial{{}}, c.D...)
	}
	if p == "C06" || (p == "C07" || p == "C21") && r.one(2) {
		c.N[0] = 1
	}
	for k := r.Intn(4); k > 0; k-- {
		if r.one(2) {
			c.N = append(c.N, int64(1+r.Intn(3)))
		} else {
			c.N = append(c.N, int64(1+r.upto(600)))
		}
	}
	return c
}

// writeLoop: B the frames queued; N = options, write that fails, write that cancels, log mode, error
func writeLoop(c Case) string {
	var events []string
	fail := lineError(c.N[4])
	t := &transport{failAt: int(c.N[1]), failWith: fail, events: &events, end: errLine}
	q := make(chan mavlink2.Frame, len(c.B))
	for _, b := range c.B {
		q <- mavlink2.FrameV2(append([]byte{}, b...))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	closeQ := c.N[0]&1 != 0
	if closeQ {
		close(q)
	}
	cancelAt := int(c.N[2])
	if cancelAt == 0 && c.N[0]&4 != 0 {
		cancel()
	}
	t.onWrite = func(n int) {
		if n == cancelAt {
			cancel()
		}
	}
	if !closeQ && cancelAt == 0 && t.failAt == 0 {
		// something has to end the loop
		go func() {
			for i := 0; len(q) > 0 && i < 1000; i++ {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(2 * time.Millisecond)
			cancel()
		}()
	} else if !closeQ && (cancelAt > len(c.B) || t.failAt > len(c.B)) {
		cancel()
	}
	var lg *logger
	var s *mavlink2.FrameStream
	if c.N[0]&2 != 0 {
		lg = &logger{events: &events, mode: int(c.N[3])}
		s = mavlink2.NewFrameStreamWithLogger(t, q, nil, false, lg)
	} else {
		s = mavlink2.NewFrameStream(t, q, nil, false)
	}
	if w := guard(func() { s.WriteContext(ctx) }); w != "" {
		return w
	}
	taken := len(c.B) - len(q)
	what := fmt.Sprintf("writing %d queued frames (options %v): ", len(c.B), c.N)
	if len(t.written) != taken {
		return fmt.Sprintf("%s%d frames were taken from the queue, %d were written", what, taken, len(t.written))
	}
	var want []string
	for i := 0; i < taken; i++ {
		want = append(want, fmt.Sprintf("write %x", []byte(c.B[i])))
		if lg != nil && i+1 != t.failAt {
			want = append(want, fmt.Sprintf("log %x", []byte(c.B[i])))
		}
	}
	if !reflect.DeepEqual(events, want) {
		return fmt.Sprintf("%sit did %v, want %v", what, events, want)
	}
	failed := t.failAt > 0 && taken >= t.failAt
	if failed && taken > t.failAt {
		return what + "the loop went on after a transport error"
	}
	select {
	case <-s.Closed():
	default:
		return what + "the loop ended without closing the stream"
	}
	err := s.GetCloseErr()
	switch {
	case failed:
		if err != fail {
			return fmt.Sprintf("%sclosed with %v after the transport error %v", what, err, fail)
		}
	case err == mavlink2.ErrWriteChannelClosed && closeQ && len(q) == 0:
	case err == context.Canceled && ctx.Err() != nil:
	default:
		return fmt.Sprintf("%sclosed with %v", what, err)
	}
	if t.closed != 1 {
		return what + "the transport was not closed once"
	}
	return ""
}

// closeCase: closing from everywhere while frames are read, handed over and written
func closeCase(c Case) string {
	seed := c.N[0]
	rnd := rand.New(rand.NewSource(seed))
	closers := 1 + rnd.Intn(3)
	block := make(chan struct{})
	t := &transport{end: errLine, block: block}
	if rnd.Intn(2) == 0 {
		t.closeErr = errClose
	}
	if rnd.Intn(3) == 0 {
		t.block = nil
	}
	var once sync.Once
	unblock := func() { once.Do(func() { close(block) }) }
	frame := buildFrame(2, 0, 0, 1, 1, 1, 5, []byte{1, 2, 3}, 9, nil)
	nf := rnd.Intn(4)
	for i := 0; i < nf; i++ {
		t.chunks = append(t.chunks, append([]byte{}, frame...))
	}
	ds := mavlink2.Dialects{fakeDialect{FakeDial: FakeDial{Rows: []Row{{ID: 5, Extra: 9, Max: 255}}}}}
	q := make(chan mavlink2.Frame, 4)
	for i := rnd.Intn(3); i > 0; i-- {
		q <- mavlink2.FrameV2(frame)
	}
	if rnd.Intn(4) == 0 {
		t.failAt, t.failWith = 1+rnd.Intn(2), errLine
	}
	s := mavlink2.NewFrameStream(t, q, ds, rnd.Intn(2) == 0)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	var mu sync.Mutex
	what := ""
	note := func(w string) {
		mu.Lock()
		if what == "" {
			what = w
		}
		mu.Unlock()
	}
	run := func(delay int, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			spin(delay)
			if w := guard(f); w != "" {
				note(w)
			}
		}()
	}
	seen := 0
	if rnd.Intn(4) > 0 {
		run(rnd.Intn(50), func() { s.ReadContext(ctx) })
	}
	if rnd.Intn(2) == 0 {
		run(rnd.Intn(50), func() { s.WriteContext(ctx) })
	}
	consume := rnd.Intn(nf + 2)
	run(rnd.Intn(50), func() {
		for i := 0; i < consume; i++ {
			if _, ok := <-s.Read(); !ok {
				return
			}
			seen++
		}
	})
	var causes []error
	for i := 0; i < 2; i++ {
		run(0, func() {
			<-s.Closed()
			for k := 0; k < 3; k++ {
				e := s.GetCloseErr()
				mu.Lock()
				causes = append(causes, e)
				mu.Unlock()
			}
		})
	}
	run(rnd.Intn(30), func() { s.GetCloseErr() })
	userClosed := false
	if rnd.Intn(3) > 0 {
		userClosed = true
		for i := 0; i < closers; i++ {
			run(rnd.Intn(100), s.Close)
		}
	} else {
		run(rnd.Intn(100), cancel)
	}
	run(200, func() {
		if !userClosed {
			// a blocked loop is not this property's business
			time.Sleep(time.Millisecond)
		}
		s.Close()
		unblock()
		cancel() // the write loop ends with its context
	})
	wg.Wait()
	desc := fmt.Sprintf("closing a stream from %d goroutines at once (schedule %d): ", closers+1, seed)
	if what != "" {
		return desc + what
	}
	if t.closed != 1 {
		return fmt.Sprintf("%sthe transport was closed %d times", desc, t.closed)
	}
	end := s.GetCloseErr()
	for _, e := range causes {
		if e != end {
			return fmt.Sprintf("%sthe close cause was %v and is now %v", desc, e, end)
		}
	}
	if end != mavlink2.ErrUserClosed && end != errLine && end != context.Canceled {
		return fmt.Sprintf("%sthe close cause is %v", desc, end)
	}
	if _, ok := <-s.Read(); ok {
		return desc + "a frame is handed over after closing ended"
	}
	w := guard(s.Close)
	if w != "" || s.GetCloseErr() != end || t.closed != 1 {
		return fmt.Sprintf("%sclosing once more: %s, cause %v (was %v), transport closed %d times", desc, w, s.GetCloseErr(), end, t.closed)
	}
	return ""
}

// flood: very many invalid frames, all of different kinds, must not be remembered one by one
type floodLine struct{ n, of int }

func (t *floodLine) Read(p []byte) (int, error) {
	if t.n >= t.of {
		return 0, errLine
	}
	k := 0
	for len(p)-k >= 12 && t.n < t.of {
		copy(p[k:], []byte{0xfd, 0, 0, 0, 0, byte(t.n), byte(t.n >> 8), byte(t.n>>16) & 0x7f, 5, 5, 0, 0})
		t.n++
		k += 12
	}
	return k, nil
}
func (t *floodLine) Write(p []byte) (int, error) { return len(p), nil }
func (t *floodLine) Close() error                { return nil }

var flooded bool

func flood(c Case) string {
	retained := func(frames int) uint64 {
		s := mavlink2.NewFrameStream(&floodLine{of: frames}, make(chan mavlink2.Frame), nil, false)
		s.ReadContext(context.Background())
		var m runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m)
		runtime.KeepAlive(s)
		return m.HeapAlloc
	}
	few := retained(10)
	many := retained(int(c.N[0]))
	if many > few+(4<<20) {
		return fmt.Sprintf("after %d invalid frames of different kinds the stream holds %d bytes more than after 10", c.N[0], many-few)
	}
	return ""
}

func spin(n int) {
	end := time.Now().Add(time.Duration(n) * time.Microsecond)
	for time.Now().Before(end) {
	}
}

// ctor: two new streams
func ctor(c Case) string {
	perm := c.N[0] != 0
	withLog := c.N[1] != 0
	mk := func() (*mavlink2.FrameStream, *transport, chan mavlink2.Frame, *logger) {
		t := &transport{end: errLine, chunks: cut(c.B[0], nil)}
		q := make(chan mavlink2.Frame, 1)
		if withLog {
			lg := &logger{}
			return mavlink2.NewFrameStreamWithLogger(t, q, dialectsOf(c), perm, lg), t, q, lg
		}
		return mavlink2.NewFrameStream(t, q, dialectsOf(c), perm), t, q, nil
	}
	// another stream, whose logger is no business of the others
	other := &logger{}
	mavlink2.NewFrameStreamWithLogger(&transport{end: errLine}, make(chan mavlink2.Frame), nil, !perm, other)
	s1, t1, q1, l1 := mk()
	s2, t2, q2, _ := mk()
	if len(t1.chunks) != len(cut(c.B[0], nil)) {
		return "a new stream has already read from its transport"
	}
	for i, s := range []*mavlink2.FrameStream{s1, s2} {
		if s == nil {
			return "no stream"
		}
		if s.GetCloseErr() != nil {
			return fmt.Sprintf("a new stream reports the close cause %v", s.GetCloseErr())
		}
		select {
		case <-s.Closed():
			return "a new stream is closed"
		case f, ok := <-s.Read():
			return fmt.Sprintf("a new stream's frame channel gives %v, %v", f, ok)
		default:
		}
		q := []chan mavlink2.Frame{q1, q2}[i]
		if s.Write() != (chan<- mavlink2.Frame)(q) {
			return "a new stream hands out another queue than the given one"
		}
	}
	if s1.Read() == s2.Read() || s1.Closed() == s2.Closed() {
		return "two streams share a channel"
	}
	// both used side by side
	want := scan(c.B[0], perm, func(b []byte) bool { return expectValid(c.D, b) == nil })
	for _, s := range []*mavlink2.FrameStream{s1, s2} {
		s := s
		go guard(func() { s.ReadContext(context.Background()) })
	}
	for i := 0; ; i++ {
		f1, ok1 := <-s1.Read()
		f2, ok2 := <-s2.Read()
		if ok1 != (i < len(want)) || ok2 != ok1 {
			return fmt.Sprintf("two new streams that receive %x deliver another number of frames than %d (invalid frames wanted: %v)", []byte(c.B[0]), len(want), perm)
		}
		if !ok1 {
			break
		}
		if !bytes.Equal(f1.Bytes(), want[i]) || !bytes.Equal(f2.Bytes(), want[i]) {
			return fmt.Sprintf("two new streams that receive %x deliver %x and %x, want %x", []byte(c.B[0]), f1.Bytes(), f2.Bytes(), want[i])
		}
	}
	if withLog && len(l1.read) != len(want) {
		return fmt.Sprintf("%d of %d frames reached the given logger", len(l1.read), len(want))
	}
	_ = t2
	// writing goes to the transport given
	s3, t3, q3, l3 := mk()
	fr := mavlink2.FrameV2{0xfd, 1, 2}
	q3 <- fr
	close(q3)
	s3.WriteContext(context.Background())
	if len(t3.written) != 1 || !bytes.Equal(t3.written[0], fr) || withLog && len(l3.written) != 1 {
		return "a frame put in the given queue did not reach the given transport and logger"
	}
	if len(other.read)+len(other.written) > 0 {
		return "frames of a stream reached the logger of another one"
	}
	return ""
}

// fakeConn: a packet connection with a script
type fakeConn struct {
	net.PacketConn
	reads  []packet
	writes []packet
	wn     int
	werr   error
	closed int
	cerr   error
}
type packet struct {
	data []byte
	addr net.Addr
	err  error
}

func (f *fakeConn) ReadFrom(p []byte) (int, net.Addr, error) {
	if len(f.reads) == 0 {
		return 0, nil, errLine
	}
	x := f.reads[0]
	f.reads = f.reads[1:]
	return copy(p, x.data), x.addr, x.err
}
func (f *fakeConn) WriteTo(p []byte, a net.Addr) (int, error) {
	f.writes = append(f.writes, packet{data: append([]byte{}, p...), addr: a})
	return f.wn, f.werr
}
func (f *fakeConn) Close() error { f.closed++; return f.cerr }

// setConn puts the scripted connection in place of the adapter's own
func setConn(u *util.UDPReadWriteCloser, f *fakeConn) bool {
	v := reflect.ValueOf(u).Elem()
	t := reflect.TypeOf((*net.PacketConn)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			*(*net.PacketConn)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = f
			return true
		}
	}
	return false
}

// udp: N is the script: pairs of operation and argument
func udp(c Case) string {
	u := &util.UDPReadWriteCloser{}
	f := &fakeConn{}
	if !setConn(u, f) {
		return ""
	}
	addrs := []*net.UDPAddr{{IP: net.IPv4(10, 0, 0, 1), Port: 14550}, {IP: net.IPv4(10, 0, 0, 1), Port: 14551}, {IP: net.IPv4(10, 0, 0, 2), Port: 14550}, {IP: net.ParseIP("fe80::1"), Port: 14550, Zone: "eth0"}}
	var peer *net.UDPAddr
	text := ""
	for i := 0; i+1 < len(c.N); i += 2 {
		op, arg := c.N[i]&3, int(c.N[i+1]&0xffff)
		a := addrs[arg%4]
		data := bytes.Repeat([]byte{byte(arg)}, arg%70)
		switch op {
		case 0, 1: // a datagram
			na := *a
			f.reads = []packet{{data: data, addr: &na}}
			p := make([]byte, 64)
			n, err := u.Read(p)
			text += fmt.Sprintf("datagram of %d bytes from %v; ", len(data), a)
			want := len(data)
			if want > 64 {
				want = 64
			}
			if n != want || err != nil || !bytes.Equal(p[:n], data[:n]) {
				return fmt.Sprintf("%sreading gives %d, %v", text, n, err)
			}
			if peer == nil {
				peer = a
			}
		case 2: // a failing read, perhaps with an address
			x := packet{err: errLine, data: data}
			if arg%3 == 0 {
				na := *a
				x.addr = &na
			}
			f.reads = []packet{x}
			p := make([]byte, 64)
			n, err := u.Read(p)
			text += fmt.Sprintf("failing read (address %v); ", x.addr)
			want := len(data)
			if want > 64 {
				want = 64
			}
			if err != errLine || n != want {
				return fmt.Sprintf("%sreading gives %d, %v", text, n, err)
			}
		case 3:
			f.writes, f.wn, f.werr = nil, len(data), nil
			if arg%5 == 0 {
				f.wn, f.werr = arg%7, errLine
			}
			n, err := u.Write(append([]byte{}, data...))
			text += fmt.Sprintf("write of %d bytes; ", len(data))
			if peer == nil {
				if err != util.ErrNoAddress || n != 0 || len(f.writes) != 0 {
					return fmt.Sprintf("%sgives %d, %v before any datagram was received (%d sent)", text, n, err, len(f.writes))
				}
				continue
			}
			if len(f.writes) != 1 || !bytes.Equal(f.writes[0].data, data) {
				return fmt.Sprintf("%ssent %d datagrams: %v", text, len(f.writes), f.writes)
			}
			if f.writes[0].addr == nil || f.writes[0].addr.String() != peer.String() {
				return fmt.Sprintf("%swent to %v, the first peer is %v", text, f.writes[0].addr, peer)
			}
			if n != f.wn || err != f.werr {
				return fmt.Sprintf("%sgives %d, %v; the socket said %d, %v", text, n, err, f.wn, f.werr)
			}
		}
	}
	f.cerr = errClose
	if err := u.Close(); err != errClose || f.closed != 1 {
		return fmt.Sprintf("%sclosing gives %v", text, err)
	}
	return ""
}

// udpRace: reading and writing at the same time
func udpRace(c Case) string {
	u := &util.UDPReadWriteCloser{}
	f := &fakeConn{}
	if !setConn(u, f) {
		return ""
	}
	a := &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 14550}
	for i := 0; i < 50; i++ {
		f.reads = append(f.reads, packet{data: []byte{1}, addr: a})
	}
	what := make(chan string, 2)
	go func() {
		what <- guard(func() {
			p := make([]byte, 4)
			for i := 0; i < 50; i++ {
				u.Read(p)
			}
		})
	}()
	go func() {
		what <- guard(func() {
			for i := 0; i < 50; i++ {
				u.Write([]byte{2})
			}
		})
	}()
	w := <-what
	if x := <-what; w == "" {
		w = x
	}
	return w
}

func init() {
	reg("C05 C06 C07 C21", "stream", func(r *R, p string) Case { return r.stream(p) }, streamCase)
	reg("C07", "flood", func(r *R, p string) Case {
		n := int64(20)
		if !flooded { // once is enough
			flooded, n = true, 200000
		}
		return Case{N: []int64{n}}
	}, flood)
	reg("C20", "writeloop", func(r *R, p string) Case {
		var c Case
		for k := r.Intn(6); k > 0; k-- {
			if len(c.B) > 0 && r.one(3) {
				c.B = append(c.B, c.B[len(c.B)-1])
				continue
			}
			c.B = append(c.B, r.bytes(1+r.upto(30)))
		}
		fail, cancel := 0, 0
		if r.one(3) {
			fail = 1 + r.Intn(6)
		}
		if r.one(3) {
			cancel = 1 + r.Intn(6)
		}
		c.N = []int64{int64(r.Intn(8)), int64(fail), int64(cancel), int64(r.Intn(3)), int64(r.Intn(20))}
		return c
	}, writeLoop)
	reg("C22", "close", func(r *R, p string) Case { return Case{N: []int64{r.Int63()}} }, closeCase)
	reg("C26", "ctor", func(r *R, p string) Case {
		c := r.stream(p)
		c.N = []int64{int64(r.Intn(2)), int64(r.Intn(2))}
		if r.one(4) {
			c.D = nil
		}
		return c
	}, ctor)
	reg("C23", "udp", func(r *R, p string) Case {
		var c Case
		for k := 1 + r.Intn(8); k > 0; k-- {
			c.N = append(c.N, int64(r.Intn(4)), int64(r.Intn(3000)))
		}
		return c
	}, udp)
	reg("C23", "udprace", func(r *R, p string) Case { return Case{N: []int64{r.Int63()}} }, udpRace)
}
