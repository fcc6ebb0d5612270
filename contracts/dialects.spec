// C04, C17, C16, C08, C09: the list of dialects, validation and frame building
package .

// completeness of either kind of frame
def isV1(f) := typeis(f, "mavlink2.FrameV1")
def isV2(f) := typeis(f, "mavlink2.FrameV2")
def complete(f) := ite(isV1(f), completeV1(bytes(f)), completeV2(bytes(f)))
def flenb(b) := ite(b[0] == 0xfe, v1len(b), v2len(b))
def msgid(f) := ite(isV1(f), bytes(f)[5], u24le(bytes(f), 7))
def msglen(f) := bytes(f)[1]
def hdr(f) := ite(isV1(f), 6, 10)
def sumin(f) := bytes(f)[1 : hdr(f) + msglen(f)]
def sum(f) := u16le(bytes(f), hdr(f) + msglen(f))
def payload(f) := bytes(f)[hdr(f) : hdr(f) + msglen(f)]
def ver(f) := ite(isV1(f), 1, 2)

// the first dialect that knows id (or fails otherwise); len(d) when there is none
def J(d, id) := first(j, 0, len(d), ret(d[j].GetMeta(id), 1) != ErrUnknownMessage)
def Jerr(d, id) := ret(d[J(d, id)].GetMeta(id), 1)
def Jmeta(d, id) := ret(d[J(d, id)].GetMeta(id), 0)
def none(d, id) := J(d, id) >= len(d)
def known(d, id) := !none(d, id) && Jerr(d, id) == nil

func Dialects.Validate(d, frame) (err)
  props C04, C17
  modular
  cases frame = FrameV1 | FrameV2
  requires complete(frame)
  requires forall(j, 0, len(d), d[j] != nil)
  let i = msgid(frame)
  let m = Jmeta(d, i)
  let shortF = isV1(frame) && msglen(frame) < m.MinimumLength
  let longF = msglen(frame) > m.MaximumLength
  let sumok = crcb(crc(0xffff, sumin(frame)), m.CRCExtra) == sum(frame)
  modifies [C04] nothing
  ensures [C04,C05,C06,C17] imp(none(d, i), err == ErrUnknownMessage)
  ensures [C04,C05,C06,C17] imp(!none(d, i) && Jerr(d, i) != nil, err == Jerr(d, i))
  ensures [C04,C05,C06,C17] imp(known(d, i) && shortF, err == ErrMessageTooShort)
  ensures [C04,C05,C06,C17] imp(known(d, i) && !shortF && longF, err == ErrMessageTooLong)
  ensures [C04,C05,C06,C17] imp(known(d, i) && !shortF && !longF && !sumok, err == ErrInvalidChecksum)
  ensures [C04,C05,C06,C17] imp(known(d, i) && !shortF && !longF && sumok, err == nil)
  loop ?i:int :: forall(j, 0, ?i, ret(d[j].GetMeta(i), 1) == ErrUnknownMessage)
  loop ?i:int :: forall(j, 0, ?i+1, ret(d[j].GetMeta(i), 1) == ErrUnknownMessage)

// The message interface is abstract here: any implementation, whose methods do not modify the caller's
// data and answer the same way when asked again during one call.
func Dialects.GetFrame(d, version, sys, comp, seq, message) (frame, err)
  props C08, C09, C17
  cases message = nonnil
  requires forall(j, 0, len(d), d[j] != nil)
  let i = message.GetID()
  let m = Jmeta(d, i)
  let enc = ret(message.Write(version), 0)
  let encerr = ret(message.Write(version), 1)
  // GetID returns MAVLink ids, which have 24 bits
  requires i < 0x1000000
  modifies [C09] nothing
  returns [C08,C09] frame = FrameV1 | FrameV2 | nil
  let badver = version != 1 && version != 2
  let toolong = len(enc) > 255
  let noroom = version == 1 && i > 255
  ensures [C09,C17] imp(none(d, i), frame == nil && err == ErrUnknownMessage)
  ensures [C09,C17] imp(!none(d, i) && Jerr(d, i) != nil, frame == nil && err == Jerr(d, i))
  ensures [C09] imp(known(d, i) && badver, frame == nil && err == ErrUnsupportedVersion)
  ensures [C09] imp(known(d, i) && !badver && encerr != nil, frame == nil && err == encerr)
  ensures [C09] imp(known(d, i) && !badver && encerr == nil && toolong && !noroom, frame == nil && err == ErrMessageTooLong)
  ensures [C09] imp(known(d, i) && !badver && encerr == nil && noroom, frame == nil && (err == ErrEncodeV2MessageV1Frame || toolong && err == ErrMessageTooLong))
  let ok = known(d, i) && !badver && encerr == nil && !toolong && !noroom
  ensures [C08,C09] imp(ok, frame != nil && err == nil)
  ensures [C08] imp(ok && version == 1, isV1(frame))
  ensures [C08] imp(ok && version == 2, isV2(frame))
  ensures [C08] imp(frame != nil, completeF(frame) && len(bytes(frame)) == hdr(frame) + len(enc) + 2)
  ensures [C08] imp(frame != nil, msglen(frame) == len(enc))
  ensures [C08] imp(frame != nil, eqb(payload(frame), enc))
  ensures [C08] imp(frame != nil, msgid(frame) == i)
  ensures [C08] imp(frame != nil, bytes(frame)[ite(isV1(frame), 2, 4)] == seq)
  ensures [C08] imp(frame != nil, bytes(frame)[ite(isV1(frame), 3, 5)] == sys)
  ensures [C08] imp(frame != nil, bytes(frame)[ite(isV1(frame), 4, 6)] == comp)
  ensures [C08] imp(isV2(frame), bytes(frame)[2] == 0 && bytes(frame)[3] == 0)
  ensures [C08,C17] imp(frame != nil, sum(frame) == crcb(crc(0xffff, sumin(frame)), m.CRCExtra))
  ensures [C08] imp(frame != nil, fresh(frame))
  loop ?i:int :: forall(j, 0, ?i, ret(d[j].GetMeta(i), 1) == ErrUnknownMessage)
  loop ?i:int :: forall(j, 0, ?i+1, ret(d[j].GetMeta(i), 1) == ErrUnknownMessage)
def completeF(f) := complete(f)

def JM(d, f) := first(j, 0, len(d), ret(d[j].GetMessage(f), 1) != ErrUnknownMessage)

func Dialects.GetMessage(d, frame) (message, err)
  props C16, C17, C07
  cases frame = FrameV1 | FrameV2
  requires complete(frame)
  requires forall(j, 0, len(d), d[j] != nil)
  let k = JM(d, frame)
  modifies [C16] nothing
  ensures [C16,C17] imp(k < len(d), err == ret(d[k].GetMessage(frame), 1) && message == ret(d[k].GetMessage(frame), 0))
  ensures [C16,C17] imp(k >= len(d), err == ErrUnknownMessage)
  ensures [C16] imp(k >= len(d), typeis(message, "mavlink2.UnknownMessage"))
  ensures [C16] imp(k >= len(d), message.ID == msgid(frame) && message.Version == ver(frame))
  ensures [C16] imp(k >= len(d), eqb(message.Raw, payload(frame)) && fresh(message.Raw))
  loop ?i:int :: forall(j, 0, ?i, ret(d[j].GetMessage(frame), 1) == ErrUnknownMessage)
  loop ?i:int :: forall(j, 0, ?i+1, ret(d[j].GetMessage(frame), 1) == ErrUnknownMessage)

func UnknownMessage.GetVersion(m) (r)
  modifies [C16] nothing
  ensures [C16] r == m.Version
func UnknownMessage.GetID(m) (r)
  modifies [C16] nothing
  ensures [C16] r == m.ID
func UnknownMessage.GetDialect(m) (r)
  modifies [C16] nothing
  ensures [C16] r == "unknown"
func UnknownMessage.GetMessageName(m) (r)
  modifies [C16] nothing
  ensures [C16] r == "unknown"
func UnknownMessage.Read(m, frame) (err)
  props C16, C07
  cases frame = FrameV1 | FrameV2
  requires complete(frame)
  modifies [C16] *m
  ensures [C16] err == nil
  ensures [C16] m.ID == msgid(frame) && m.Version == ver(frame)
  ensures [C16] eqb(m.Raw, payload(frame)) && fresh(m.Raw)
func UnknownMessage.Write(m, version) (out, err)
  modifies [C16] nothing
  ensures [C16] imp(version == 1 || version == 2, err == nil && eqb(out, m.Raw))
func UnknownMessage.String(m) (r)
  props C07
  modifies nothing
