// C03: the checksum. crc(seed, s) is the CRC-16/MCRF4XX fold defined in gocv (crc of the empty
// sequence is the seed; crc of s followed by b is one table-free MCRF4XX step applied to crc(seed, s)).
package .

func X25CRC.Write(hash, input) (n, err)
  props C03
  modular
  modifies [C03] hash.value
  ensures [C03] n == len(input)
  ensures [C03] err == nil
  ensures [C03] hash.value == crc(old(hash.value), old(input))
  // feeding in pieces: the running value after input[:i] is crc(value, input[:i])
  loop ?a:uint16 ?i:int :: ?a == crc(old(hash.value), old(input)[0:?i+1])
  loop ?a:uint16 ?i:int :: ?a == crc(old(hash.value), old(input)[0:?i])
  loop ?i:int :: hash.value == crc(old(hash.value), old(input)[0:?i+1])
  loop ?i:int :: hash.value == crc(old(hash.value), old(input)[0:?i])
  // or what is left of the input is kept
  loop ?s:[]byte :: eqb(?s, old(input)[len(input)-len(?s):])
  loop ?a:uint16 ?s:[]byte :: ?a == crc(old(hash.value), old(input)[0:len(input)-len(?s)])
  loop ?a:uint16 ?i:int ?s:[]byte :: ?a == crc(old(hash.value), old(input)[0:len(input)-len(?s)+?i+1])

func X25CRC.Sum(hash, b) (r)
  props C03
  modifies [C03] elems(b, len(b), cap(b))
  ensures [C03] len(r) == len(b) + 2
  ensures [C03] eqb(r[0:len(b)], old(b))
  ensures [C03] r[len(b)] == byte(hash.value & 0xff)
  ensures [C03] r[len(b)+1] == byte(hash.value >> 8)

func X25CRC.Reset(hash)
  props C03
  modifies [C03] hash.value
  ensures [C03] hash.value == 0xffff

func X25CRC.Size(hash) (n)
  ensures [C03] n == 2
  modifies [C03] nothing

func X25CRC.BlockSize(hash) (n)
  ensures [C03] n == 1
  modifies [C03] nothing
