// C05, C06, C07, C20, C21, C22, C26: the stream
package .

// ---- scanning. stream(r) is the whole byte sequence the transport will ever deliver; positions are absolute.
opaque stAt(r, k) := stream(r)[k] == 0xfe || stream(r)[k] == 0xfd
// the length of the frame announced at k
opaque flenAt(r, k) := ite(stream(r)[k] == 0xfe, 8 + stream(r)[k+1], 12 + stream(r)[k+1] + ite((stream(r)[k+2] & 1) == 1, 13, 0))
// pred(valid, k): the announced frame at k validates (Validate depends on the frame's bytes alone: lemma validateBytes)
opaque validAt(r, k) := stAt(r, k) && pred(valid, k)
opaque delivAt(s, r, k) := ite(s.returnInvalidFrames, stAt(r, k), validAt(r, k))
// the next position to look at: everything received but the bytes still in the window
def scanPos(s, r) := pos(r) - s.bufferIndex
def windowOK(s, r) := s.bufferIndex >= 0 && s.bufferIndex <= len(s.buffer) && scanPos(s, r) >= 0
def windowBytes(s, r) := forall(k, 0, s.bufferIndex, s.buffer[k] == stream(r)[scanPos(s, r) + k], s.buffer[k])

// what holds of a stream between any two steps of its read loop
def streamInv(s, r) := len(s.buffer) >= 280 && len(s.buffer) <= 65536 && windowOK(s, r) && forall(j, 0, len(s.dialects), s.dialects[j] != nil) && s.invalidLogged != nil && len(s.invalidLogged) <= 65536

// ---- closing (C22). Every function that touches the fields involved follows these rules, so that whatever the
// interleaving: the cause is stored before the closed signal and never again, the transport and both channels are
// closed once, and the frame channel is closed only when nobody is about to send.
// held: 0 no lock, 1 read lock, 2 write lock; openSeen: under the lock held now s.closed was seen open;
// inOnce: 0 outside, 1 inside the first call, 2 after it, 3 after a later call
confined [C22] FrameStream: RWMutex, inputFrames, outputFrames, rwc, closeErr, closeOnce, closed
confined [C05,C06] FrameStream: buffer, bufferIndex, reader, dialects, returnInvalidFrames, invalidLogged
protocol closing
  ghost held = 0
  ghost openSeen = 0
  ghost inOnce = 0
  ghost causeSet = 0
  ghost tclosed = 0
  ghost sig = 0
  ghost outc = 0
  ghost seen = 0
  ghost polled = 0
  requires [C22] id(s.closed) != id(s.outputFrames) && id(s.closed) != id(s.inputFrames) && id(s.inputFrames) != id(s.outputFrames)
  on lock(mu) if same(mu, &s.RWMutex) :: assert [C22] held == 0; set held = 2; set openSeen = 0
  on rlock(mu) if same(mu, &s.RWMutex) :: assert [C22] held == 0; set held = 1; set openSeen = 0
  on unlock(mu) if same(mu, &s.RWMutex) :: assert [C22] held == 2; set held = 0; set openSeen = 0
  on runlock(mu) if same(mu, &s.RWMutex) :: assert [C22] held == 1; set held = 0; set openSeen = 0
  on notready(ch) if id(ch) == id(s.closed) :: set openSeen = ite(held >= 1, 1, 0); set polled = 1
  on recv(ch, v, ok) if id(ch) == id(s.closed) :: assume !ok; set seen = 1
  on once.enter(o) if same(o, &s.closeOnce) :: assert [C22] held == 0 && inOnce != 1; assume inOnce == 0; set inOnce = 1
  on once.later(o) if same(o, &s.closeOnce) :: assert [C22] held == 0 && inOnce != 1; set inOnce = ite(inOnce == 2, 2, 3)
  on once.exit(o) if same(o, &s.closeOnce) :: assert [C22] causeSet == 1 && tclosed == 1 && sig == 1 && outc == 1 && held == 0; set inOnce = 2
  on store(a, v) if same(a, &s.closeErr) :: assert [C22] inOnce == 1 && sig == 0; set causeSet = 1
  on store(a, v) if same(a, &s.closed) || same(a, &s.outputFrames) || same(a, &s.closeOnce) || same(a, &s.rwc) :: assert [C22] false
  on load(a) if same(a, &s.closeErr) :: assert [C22] seen == 1 || inOnce == 1
  on call Close(r, e) :: assert [C22] id(r) == id(s.rwc) && inOnce == 1 && tclosed == 0; set tclosed = 1
  on close(ch) :: assert [C22] inOnce == 1;
     assert [C22] id(ch) == id(s.closed) && causeSet == 1 && sig == 0 || id(ch) == id(s.outputFrames) && sig == 1 && outc == 0 && held == 2;
     set outc = ite(id(ch) == id(s.outputFrames), 1, outc);
     set sig = ite(id(ch) == id(s.closed), 1, sig)
  on send(ch, v) :: assert [C22] id(ch) == id(s.outputFrames) && held >= 1 && openSeen == 1 && offersRecv(sel, s.closed)
  ensures [C22] held == 0 && inOnce != 1
  loop [C22] :: held == 0
  loop [C22] :: inOnce == 0
  loop [C22] :: inOnce != 1
  loop [C22] ?b:bool :: imp(?b, inOnce == 0)
  loop [C22] ?b:bool :: imp(!?b, inOnce == 0)
  loop [C22] :: openSeen == 0

func FrameStream.readFrame(s, reader) (frame, err)
  modular
  watch
  use closing
  props C05, C06, C07, C21, C22
  weaken Validate
  rounds 4
  opt ground
  requires reader != nil
  requires streamInv(s, reader)
  requires [C05,C06] windowBytes(s, reader)
  let a0 = scanPos(s, reader)
  ghost rerr = nil
  modifies elems(s.buffer, 0, cap(s.buffer)), s.bufferIndex, mapof(s.invalidLogged), rd(reader)
  returns [C05,C06,C07,C21] frame = FrameV1 | FrameV2 if err == nil
  // reading waits only for bytes the scan needs: the header at the next position, or the frame announced there
  on read(v, r, n, e) :: assert [C05,C06] id(r) == id(reader);
     set rerr = e;
     abstract [C05,C06] elems(s.buffer, 0, cap(s.buffer)) by forall(k, 0, s.bufferIndex + n, s.buffer[k] == stream(reader)[pos(r) - n - s.bufferIndex + k], s.buffer[k]);
     assert [C05,C06] forall(k, a0, pos(r) - n - s.bufferIndex, !delivAt(s, reader, k));
     assert [C05,C06] s.bufferIndex < 3 || stAt(reader, pos(r) - n - s.bufferIndex) && s.bufferIndex < flenAt(reader, pos(r) - n - s.bufferIndex)
  on call Validate(d, f, e) ::
     assert [C05,C06] same(d, s.dialects);
     assert [C05,C06] stAt(reader, scanPos(s, reader)) && s.bufferIndex >= flenAt(reader, scanPos(s, reader));
     check [C05,C06] eqb(bytes(f)[0 : flenAt(reader, scanPos(s, reader))], stream(reader)[scanPos(s, reader) : scanPos(s, reader) + flenAt(reader, scanPos(s, reader))]); assume [C05,C06] pred(valid, scanPos(s, reader)) == (e == nil);
     assert [C05,C06] imp(delivAt(s, reader, scanPos(s, reader)), first(k, a0, 0x2000000000000000, delivAt(s, reader, k)) == scanPos(s, reader))
  let q = first(k, a0, 0x2000000000000000, delivAt(s, reader, k))
  ensures streamInv(s, reader)
  ensures [C05,C06] imp(err == nil, windowBytes(s, reader))
  ensures [C05,C06,C21] imp(err != nil, err == rerr)
  ensures [C05,C06,C07,C21] imp(err == nil, frame != nil)
  ensures [C05,C06] imp(err == nil, eqb(bytes(frame), stream(reader)[q : q + flenAt(reader, q)]))
  ensures [C05,C06,C07] imp(err == nil, completeF(frame))
  ensures [C05,C06] imp(err == nil && validAt(reader, q), scanPos(s, reader) == q + flenAt(reader, q))
  ensures [C06] imp(err == nil && !validAt(reader, q), scanPos(s, reader) == q + 1)
  ensures [C05] imp(err == nil && !s.returnInvalidFrames, validAt(reader, q))
  ensures [C05,C06,C21] imp(err == nil, fresh(frame))
  loop :: pos(reader) < 0x1000000000000000
  loop :: windowOK(s, reader)
  loop [C05,C06] :: windowBytes(s, reader)
  loop [C05,C06] :: scanPos(s, reader) >= a0
  loop [C05,C06] :: forall(k, a0, scanPos(s, reader), !delivAt(s, reader, k))
  // a loop that looks further within the window
  loop inner ?i:int :: ?i <= s.bufferIndex
  loop inner ?i:int :: ?i >= 1
  loop [C05,C06] inner ?i:int :: forall(k, a0, scanPos(s, reader) + ?i, !delivAt(s, reader, k))
  loop [C05,C06] inner ?i:int :: forall(k, a0, scanPos(s, reader) + ?i + 1, !delivAt(s, reader, k))
  loop :: len(s.invalidLogged) <= 65536

// ---- the write loop
// phase: 0 ready for a frame, 1 a frame was taken, 2 the transport accepted it, 3 it was logged too,
// 8 cancelled, 9 failed or at the end of the queue; closing: the close request was made
func FrameStream.WriteContext(s, ctx)
  props C20, C22
  watch
  noframe
  use closing
  requires s.rwc != nil && ctx != nil
  requires id(ctx.Done()) != id(s.inputFrames)
  ghost phase = 0
  ghost cur = nil
  ghost cause = nil
  ghost closing = 0
  on recv(ch, v, ok) if id(ch) == id(s.inputFrames) ::
     assert [C20] closing == 0 && (phase == 0 || phase == 3 || phase == 2 && s.logger == nil);
     assert [C20] offersRecv(sel, ctx.Done()); assume imp(ok, v != nil);
     set cur = v;
     set cause = ErrWriteChannelClosed;
     set phase = ite(ok, 1, 9)
  on recv(ch, v, ok) if id(ch) == id(ctx.Done()) ::
     assert [C20] phase == 0 || phase == 3 || phase == 2 && s.logger == nil;
     set cause = nil;
     set phase = 8
  on call Err(c, e) if phase == 8 :: assume e != nil; set cause = e
  on call Write(w, p, n, e) ::
     assert [C20] id(w) == id(s.rwc) && phase == 1 && eqb(p, bytes(cur));
     set cause = e;
     set phase = ite(e == nil, 2, 9)
  on call LogWritten(l, p, e) ::
     assert [C20] id(l) == id(s.logger) && phase == 2 && eqb(p, bytes(cur));
     set phase = 3
  on once.enter(o) :: assert [C20] phase == 8 || phase == 9; set closing = 1
  on once.later(o) :: assert [C20] phase == 8 || phase == 9; set closing = 1
  on store(a, v) if same(a, &s.closeErr) :: assert [C20] closing == 1 && v == cause && cause != nil
  ensures [C20] closing == 1
  loop :: closing == 0
  loop :: phase == 0 || phase == 3 || phase == 2 && s.logger == nil
  // a loop that ends when it has a cause, or by a flag
  loop ?e:error :: imp(?e == nil, phase == 0 || phase == 3 || phase == 2 && s.logger == nil)
  loop ?e:error :: imp(?e != nil, (phase == 8 || phase == 9) && ?e == cause)
  loop ?b:bool :: imp(?b, closing == 0 && (phase == 0 || phase == 3 || phase == 2 && s.logger == nil))
  loop ?b:bool :: imp(!?b, closing == 1)
  loop ?b:bool :: imp(!?b, closing == 0 && (phase == 0 || phase == 3 || phase == 2 && s.logger == nil))
  loop ?b:bool :: imp(?b, closing == 1)

// ---- the read loop
// phase: 0 nothing pending, 1 a frame was found, 2 it was logged, 7 the closed signal was received, 8 cancelled, 9 reading failed
func FrameStream.ReadContext(s, ctx)
  props C05, C06, C07, C21, C22
  watch
  noframe
  use closing
  requires s.rwc != nil && ctx != nil && s.reader != nil
  requires id(ctx.Done()) != id(s.closed)
  requires streamInv(s, s.reader)
  requires [C05,C06] windowBytes(s, s.reader)
  ghost phase = 0
  ghost cur = nil
  ghost cause = nil
  ghost closing = 0
  ghost cancelPolled = 0
  on notready(ch) if id(ch) == id(ctx.Done()) :: set cancelPolled = 1
  on recv(ch, v, ok) if id(ch) == id(ctx.Done()) :: set cause = nil; set phase = 8
  on call Err(c, e) if id(c) == id(ctx) :: assume imp(phase == 8, e != nil); set cause = ite(e == nil, cause, e); set phase = ite(e == nil, phase, 8); set cancelPolled = 1
  on recv(ch, v, ok) if id(ch) == id(s.closed) :: set phase = ite(phase >= 8, phase, 7)
  on call readFrame(t, r, f, e) ::
     assert [C05,C06,C21] id(r) == id(s.reader) && phase == 0 && cancelPolled == 1;
     set cur = f;
     set cause = e;
     set cancelPolled = 0;
     set phase = ite(e == nil, 1, 9)
  on call LogRead(l, p, e) :: assert [C21] id(l) == id(s.logger) && phase == 1 && eqb(p, bytes(cur)); set phase = 2
  on send(ch, v) :: assert [C21] id(ch) == id(s.outputFrames) && (phase == 2 || phase == 1 && s.logger == nil);
     assert [C21] same(v, cur);
     set phase = 0
  on once.enter(o) :: assert [C21] phase == 8 || phase == 9; set closing = 1
  on once.later(o) :: assert [C21] phase == 8 || phase == 9; set closing = 1
  on store(a, v) if same(a, &s.closeErr) :: assert [C21] closing == 1 && v == cause && cause != nil
  ensures [C21] closing == 1 || phase == 7
  loop :: streamInv(s, s.reader)
  loop [C05,C06] :: windowBytes(s, s.reader)
  loop [C21] :: closing == 0
  loop [C05,C06,C21] :: phase == 0
  loop [C05,C06,C21] ?e:error :: imp(?e == nil, phase == 0)
  loop [C21] ?e:error :: imp(?e != nil, (phase == 8 || phase == 9) && ?e == cause || phase == 7)
  loop [C05,C06,C21] ?b:bool :: imp(?b, closing == 0 && phase == 0)
  loop [C05,C06,C21] ?b:bool :: imp(!?b, closing == 0 && phase == 0)
  loop [C21] ?b:bool :: imp(!?b, closing == 1 || phase == 7)
  loop [C21] ?b:bool :: imp(?b, closing == 1 || phase == 7)

// ---- closing and its observers
func FrameStream.close(s, err)
  props C22
  watch
  noframe
  use closing
  requires s.rwc != nil
  ensures [C22] inOnce == 3 || inOnce == 2 && s.closeErr == err

func FrameStream.Close(s)
  props C22
  watch
  noframe
  use closing
  requires s.rwc != nil
  ensures [C22] inOnce == 3 || inOnce == 2 && s.closeErr == ErrUserClosed

func FrameStream.GetCloseErr(s) (e)
  props C22
  watch
  use closing
  modifies nothing
  ensures [C22] seen == 1 && e == s.closeErr || seen == 0 && polled == 1 && e == nil

func FrameStream.Closed(s) (ch)
  props C22, C26
  watch
  use closing
  modifies nothing
  ensures [C22,C26] id(ch) == id(s.closed)

func FrameStream.Read(s) (ch)
  props C22, C26
  watch
  use closing
  modifies nothing
  ensures [C22,C26] id(ch) == id(s.outputFrames)

func FrameStream.Write(s) (ch)
  props C22, C26
  watch
  use closing
  modifies nothing
  ensures [C22,C26] id(ch) == id(s.inputFrames)

// ---- construction
protocol construction
  ghost made = 0
  on close(ch) :: assert [C26] false
  on send(ch, v) :: assert [C26] false
  on recv(ch, v, ok) :: assert [C26] false
  on call Close(r, e) :: assert [C26] false
  on read(v, r, n, e) :: assert [C26] false
  on call Read(r, p, n, e) :: assert [C26] false
  ensures [C26] s != nil && fresh(s) && fresh(s.buffer) && fresh(s.invalidLogged) && fresh(s.reader)
  ensures [C26] fresh(s.outputFrames) && fresh(s.closed) && id(s.outputFrames) != id(s.closed)

func NewFrameStreamWithLogger(rwc, inputFrames, dialects, returnInvalidFrames, logger) (s)
  props C05, C06, C07, C22, C26
  use construction
  ensures [C22,C26] id(s.inputFrames) == id(inputFrames)
  ensures [C22,C26] id(s.rwc) == id(rwc)
  ensures [C05,C06,C26] readerof(s.reader) == id(rwc) && s.reader != nil && pos(s.reader) == 0
  ensures [C05,C06,C26] same(s.dialects, dialects)
  ensures [C05,C06,C26] s.returnInvalidFrames == returnInvalidFrames
  ensures [C26] id(s.logger) == id(logger)
  ensures [C22,C26] s.closeErr == nil
  ensures [C26] s.bufferIndex == 0
  ensures [C05,C06,C07,C26] imp(forall(j, 0, len(dialects), dialects[j] != nil), streamInv(s, s.reader))
  ensures [C05,C06,C26] windowBytes(s, s.reader)

func NewFrameStream(rwc, inputFrames, dialects, returnInvalidFrames) (s)
  props C05, C06, C07, C22, C26
  use construction
  ensures [C22,C26] id(s.inputFrames) == id(inputFrames)
  ensures [C22,C26] id(s.rwc) == id(rwc)
  ensures [C05,C06,C26] readerof(s.reader) == id(rwc) && s.reader != nil && pos(s.reader) == 0
  ensures [C05,C06,C26] same(s.dialects, dialects)
  ensures [C05,C06,C26] s.returnInvalidFrames == returnInvalidFrames
  ensures [C26] id(s.logger) == id(nil)
  ensures [C22,C26] s.closeErr == nil
  ensures [C26] s.bufferIndex == 0
  ensures [C05,C06,C07,C26] imp(forall(j, 0, len(dialects), dialects[j] != nil), streamInv(s, s.reader))
  ensures [C05,C06,C26] windowBytes(s, s.reader)
