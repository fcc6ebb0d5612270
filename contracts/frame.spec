// C01, C02, C24: frame accessors and construction from bytes
package .

def v1len(f) := 8 + f[1]
def signed(f) := (f[2] & 1) == 1
def v2len(f) := 12 + f[1] + ite(signed(f), 13, 0)
// a complete frame: header, announced payload, checksum and, if flagged, signature are all there
def completeV1(f) := len(f) >= 8 && f[0] == 0xfe && len(f) >= v1len(f)
def completeV2(f) := len(f) >= 12 && f[0] == 0xfd && len(f) >= v2len(f)

func FrameV1.Bytes(f) (r)
  modifies [C01] nothing
  ensures [C01] same(r, f)
func FrameV1.GetVersion(f) (r)
  modifies [C01] nothing
  ensures [C01] r == 1
func FrameV1.GetMessageLength(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] r == f[1]
func FrameV1.GetMessageSequence(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] r == f[2]
func FrameV1.GetSenderSystemID(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] r == f[3]
func FrameV1.GetSenderComponentID(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] r == f[4]
func FrameV1.GetMessageID(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] r == f[5]
func FrameV1.GetMessageBytes(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] eqb(r, f[6 : 6 + f[1]])
func FrameV1.GetChecksum(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] r == u16le(f, 6 + f[1])
func FrameV1.GetChecksumInput(f) (r)
  requires completeV1(f)
  modifies [C01] nothing
  ensures [C01] eqb(r, f[1 : 6 + f[1]])
func FrameV1.String(f) (r)
  requires completeV1(f)
  props C24, C07
  modifies nothing

func FrameV2.Bytes(f) (r)
  modifies [C01] nothing
  ensures [C01] same(r, f)
func FrameV2.GetVersion(f) (r)
  modifies [C01] nothing
  ensures [C01] r == 2
func FrameV2.GetMessageLength(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == f[1]
func FrameV2.GetIncompatibilityFlags(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == f[2]
func FrameV2.GetCompatibilityFlags(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == f[3]
func FrameV2.GetMessageSequence(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == f[4]
func FrameV2.GetSenderSystemID(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == f[5]
func FrameV2.GetSenderComponentID(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == f[6]
func FrameV2.GetMessageID(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == u24le(f, 7)
func FrameV2.GetMessageBytes(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] eqb(r, f[10 : 10 + f[1]])
func FrameV2.GetChecksum(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] r == u16le(f, 10 + f[1])
func FrameV2.GetChecksumInput(f) (r)
  requires completeV2(f)
  modifies [C01] nothing
  ensures [C01] eqb(r, f[1 : 10 + f[1]])
func FrameV2.GetSignature(f) (r)
  requires completeV2(f)
  modifies [C01,C24] nothing
  ensures [C24] imp(!signed(f), r == nil)
  ensures [C24] imp(signed(f), r != nil && len(r) == 13 && eqb(r, f[12 + f[1] : 25 + f[1]]))
func FrameV2.String(f) (r)
  requires completeV2(f)
  props C24, C07
  modifies nothing

func FrameFromBytes(raw, n, makeCopy) (frame, err)
  props C02
  modifies [C02] nothing
  returns [C02] frame = FrameV1 | FrameV2 | nil
  ensures [C02] imp(len(raw) == 0 || makeCopy && n > len(raw), frame == nil && err == ErrFrameTooShort)
  let ok = len(raw) > 0 && !(makeCopy && n > len(raw))
  ensures [C02] imp(ok && raw[0] != 0xfe && raw[0] != 0xfd, frame == nil && err == ErrUnknownStartByte)
  ensures [C02] imp(ok && raw[0] == 0xfe, err == nil && typeis(frame, "mavlink2.FrameV1"))
  ensures [C02] imp(ok && raw[0] == 0xfd, err == nil && typeis(frame, "mavlink2.FrameV2"))
  ensures [C02] imp(frame != nil && makeCopy, eqb(bytes(frame), old(raw)[0:n]) && fresh(frame))
  ensures [C02] imp(frame != nil && !makeCopy, same(bytes(frame), raw))

// C24: the length of the frame that a buffer announces
func peekHeader(buffer) (n, found)
  optional
  props C24
  requires len(buffer) >= 3
  modifies [C24] nothing
  ensures [C24] found == (buffer[0] == 0xfe || buffer[0] == 0xfd)
  ensures [C24] imp(buffer[0] == 0xfe, n == v1len(buffer))
  ensures [C24] imp(buffer[0] == 0xfd, n == v2len(buffer))
