// signingblock/frosting.go

// ---- variable-length integers: 7 bits per byte, at most 31 bits
def vMore(v, i) = v[i] >= 128
def viLen(v) = ite(!vMore(v, 0), 1, ite(!vMore(v, 1), 2, ite(!vMore(v, 2), 3, ite(!vMore(v, 3), 4, 5))))
def viVal(v) = ite(!vMore(v, 0), v[0], v[0] - 128 + 128 * ite(!vMore(v, 1), v[1], v[1] - 128 + 128 * ite(!vMore(v, 2), v[2], v[2] - 128 + 128 * ite(!vMore(v, 3), v[3], v[3] - 128 + 128 * v[4]))))
def viOK(v) = len(v) >= 1 && len(v) >= viLen(v) && imp(viLen(v) == 5, v[4] <= 7)

func signingblock.(*frostingInfo).readInt8(f, r) (v, err)
  inline

def rdrWF(q) = q != nil && 0 <= q.i && q.i <= len(q.s)

func signingblock.(*frostingInfo).readInt32(f, r) (v, err)
  panics C14
  requires typeis(r, "*bytes.Reader") && rdrWF(as(r, "*bytes.Reader"))
  modifies as(r, "*bytes.Reader").i, as(r, "*bytes.Reader").prevRune
  cases err == nil
  let q = as(r, "*bytes.Reader")
  let b = old(rem(as(r, "*bytes.Reader")))
  ensures [C17] iff(err == nil, viOK(b))
  ensures [C17] imp(err == nil, v == viVal(b))
  ensures imp(err == nil, v >= 0 && q.i >= old(q.i) + 1)
  ensures [C17] imp(err == nil, q.i == old(q.i) + viLen(b))
  ensures 0 <= q.i && q.i <= len(q.s) && old(q.i) <= q.i && q.i <= old(q.i) + 5

func signingblock.(*frostingInfo).parse(f, block) (key, proto, err)
  panics C14
  trusted
  requires f != nil
  modifies f.fileSha256, f.protobufInfo, f.usedKeySha256
