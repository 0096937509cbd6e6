func (*LRC).Reset(sf) (res)
  nopanic [C11]
  frame [C11]
  modifies sf.sum
  [C11] new(sf.sum) == 0
  res == sf

func (*LRC).Push(sf, data) (res)
  loop $w8 == sum(sf.sum, data[:$k])
  nopanic [C11]
  frame [C11]
  modifies sf.sum
  loop new(sf.sum) == sum(sf.sum, data[:$k])
  [C11] new(sf.sum) == sum(sf.sum, data)
  res == sf

func (*LRC).Value(sf) (res)
  nopanic [C11]
  frame [C11]
  [C11] res == (256 - sf.sum) & 255
