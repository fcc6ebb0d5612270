// C05, C06: whether a frame validates depends on the bytes of the announced frame alone, so that "the announced frame
// at stream position k validates" (pred(valid, k) in stream.spec) is a property of the position. Validate's contract
// (dialects.spec) makes its result validV1/validV2 of the frame; the checksum lemma is by induction on the length.
package .

lemma crcEmpty(a []byte)
  ensures [C05,C06] crc(0xffff, a[0:0]) == 0xffff

lemma crcStep(a []byte, b []byte, n int)
  requires n >= 1 && n <= len(a) && n <= len(b)
  requires eqb(a[0:n], b[0:n])
  requires crc(0xffff, a[0:n-1]) == crc(0xffff, b[0:n-1])
  ensures [C05,C06] crc(0xffff, a[0:n]) == crc(0xffff, b[0:n])

def vok(d, id, n, shortF, s, sumv) := known(d, id) && !shortF && !(n > Jmeta(d, id).MaximumLength) && crcb(crc(0xffff, s), Jmeta(d, id).CRCExtra) == sumv
def validV1(d, f) := vok(d, f[5], f[1], f[1] < Jmeta(d, f[5]).MinimumLength, f[1 : 6 + f[1]], u16le(f, 6 + f[1]))
def validV2(d, f) := vok(d, u24le(f, 7), f[1], false, f[1 : 10 + f[1]], u16le(f, 10 + f[1]))

lemma validateBytesV1(d Dialects, f FrameV1, g FrameV1)
  requires completeV1(f) && len(g) >= v1len(f) && eqb(f[0:v1len(f)], g[0:v1len(f)])
  requires crc(0xffff, f[1 : 6 + f[1]]) == crc(0xffff, g[1 : 6 + f[1]])
  requires forall(j, 0, len(d), d[j] != nil)
  ensures [C05,C06] completeV1(g) && v1len(g) == v1len(f)
  ensures [C05,C06] validV1(d, f) == validV1(d, g)

lemma validateBytesV2(d Dialects, f FrameV2, g FrameV2)
  requires completeV2(f) && len(g) >= v2len(f) && eqb(f[0:v2len(f)], g[0:v2len(f)])
  requires crc(0xffff, f[1 : 10 + f[1]]) == crc(0xffff, g[1 : 10 + f[1]])
  requires forall(j, 0, len(d), d[j] != nil)
  ensures [C05,C06] completeV2(g) && v2len(g) == v2len(f)
  ensures [C05,C06] validV2(d, f) == validV2(d, g)
