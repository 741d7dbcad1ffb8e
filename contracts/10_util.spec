// signingblock/utils.go

func signingblock.getLenghtPrefixedSlice(r) (ret, err)
  panics C14
  requires r != nil
  modifies r.buf, r.off, r.lastRead
  let n = int32(le32(old(rem(r))))
  let ok = len(old(rem(r))) >= 4 && n >= 0 && n <= len(old(rem(r))) - 4
  cases err == nil
  ensures iff(err == nil, ok)
  ensures imp(err == nil, ret != nil)
  fresh ret when err == nil
  sets ret.buf = old(rem(r))[4:4+n] when err == nil
  sets ret.off = 0 when err == nil
  ensures imp(err == nil, sameview(rem(r), old(rem(r))[4+n:]))
  ensures imp(err == nil, lpStep(old(rem(r)), rem(r)))
  ensures 0 <= r.off && r.off <= len(r.buf)
