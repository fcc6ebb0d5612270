// C12: trimming and C-string measuring
package util

func TruncateV2(message) (r)
  props C12
  modular
  modifies [C12] nothing
  returns [C12] r = message[0:_] if len(message) > 0
  ensures [C12] len(r) <= len(message)
  ensures [C12] imp(len(message) > 0, len(r) >= 1)
  ensures [C12] imp(len(r) > 1, r[len(r)-1] != 0)
  ensures [C12] forall(k, len(r), len(message), message[k] == 0)
  loop ?i:int :: forall(k, ?i, len(message), message[k] == 0)
  loop ?i:int :: forall(k, ?i+1, len(message), message[k] == 0)
  loop ?i:int :: imp(len(message) > 0, ?i >= 1)
  loop ?i:int :: imp(len(message) > 0, ?i >= 0)

func CStrLen(str) (n)
  props C12
  modular
  modifies [C12] nothing
  ensures [C12] 0 <= n && n <= len(str)
  ensures [C12] forall(k, 0, n, str[k] != 0)
  ensures [C12] n == len(str) || str[n] == 0
  loop ?i:int :: forall(k, 0, ?i, str[k] != 0)
  loop ?i:int :: forall(k, 0, ?i+1, str[k] != 0)
