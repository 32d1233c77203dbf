// Order book. Asks ascend, bids descend.

macro ascending(s) = forall(i, j, 0, len(s), s[i].Price < s[j].Price)
macro descending(s) = forall(i, j, 0, len(s), s[i].Price > s[j].Price)
macro accumulated(s) = forall(k, 0, len(s), s[k].AccumVolume == ite(k == 0, s[k].Volume, s[k].Volume + s[k-1].AccumVolume))
macro separate(ob) = ref(ob.Asks) != ref(ob.Bids) || ob.Asks == nil
macro oldAsk(ob, i) = old(ob.Asks[i])
macro oldBid(ob, i) = old(ob.Bids[i])
macro sameRow(a, b) = a.Price == b.Price && a.Volume == b.Volume
macro asksKept(ob) = forall(k, 0, len(ob.Asks), sameRow(ob.Asks[k], oldAsk(ob, k)))
macro bidsKept(ob) = forall(k, 0, len(ob.Bids), sameRow(ob.Bids[k], oldBid(ob, k)))

func market.(*OrderBook).accumulate(ob)
  requires receiver: ob != nil && separate(ob)
  modifies elems(ob.Asks), elems(ob.Bids)
  ensures asks: accumulated(ob.Asks) && asksKept(ob)
  ensures bids: accumulated(ob.Bids) && bidsKept(ob)
  inv () :: asksKept(ob)
  inv () :: bidsKept(ob)
  inv (I int) :: forall(k, 0, I, ob.Asks[k].AccumVolume == ite(k == 0, ob.Asks[k].Volume, ob.Asks[k].Volume + ob.Asks[k-1].AccumVolume))
  inv (I int) :: forall(k, 0, I, ob.Bids[k].AccumVolume == ite(k == 0, ob.Bids[k].Volume, ob.Bids[k].Volume + ob.Bids[k-1].AccumVolume))
  inv () :: accumulated(ob.Asks)
  inv () :: accumulated(ob.Bids)
  inv (F float64, I int, R any []market.OrderBookRow) :: F == ite(I == 0, 0, R[I-1].AccumVolume)

func market.(*OrderBook).limit(ob)
  requires receiver: ob != nil && separate(ob) && ob.MaxDepth >= 0
  modifies ob.Asks, ob.Bids, elems(ob.Asks), elems(ob.Bids)
  ensures asks: ref(ob.Asks) == old(ref(ob.Asks)) && off(ob.Asks) == old(off(ob.Asks)) && len(ob.Asks) == min(old(len(ob.Asks)), ob.MaxDepth) && accumulated(ob.Asks) && asksKept(ob)
  ensures bids: ref(ob.Bids) == old(ref(ob.Bids)) && off(ob.Bids) == old(off(ob.Bids)) && len(ob.Bids) == min(old(len(ob.Bids)), ob.MaxDepth) && accumulated(ob.Bids) && bidsKept(ob)

// what is left of the opposite side: exactly the rows that do not cross the price
macro askSuffix(ob, P) = len(ob.Asks) <= old(len(ob.Asks)) &&
      forall(k, 0, len(ob.Asks), sameRow(ob.Asks[k], oldAsk(ob, k + old(len(ob.Asks)) - len(ob.Asks)))) &&
      forall(k, 0, old(len(ob.Asks)) - len(ob.Asks), oldAsk(ob, k).Price <= P) &&
      forall(k, 0, len(ob.Asks), ob.Asks[k].Price > P)
macro bidSuffix(ob, P) = len(ob.Bids) <= old(len(ob.Bids)) &&
      forall(k, 0, len(ob.Bids), sameRow(ob.Bids[k], oldBid(ob, k + old(len(ob.Bids)) - len(ob.Bids)))) &&
      forall(k, 0, old(len(ob.Bids)) - len(ob.Bids), oldBid(ob, k).Price >= P) &&
      forall(k, 0, len(ob.Bids), ob.Bids[k].Price < P)

// the same, in terms of the representation: the slice is a tail of what it was, or a new empty one
macro askTail(ob, P) = len(ob.Asks) <= old(len(ob.Asks)) && ((fresh(ob.Asks) && len(ob.Asks) == 0) ||
      (ref(ob.Asks) == old(ref(ob.Asks)) && off(ob.Asks) == old(off(ob.Asks)) + old(len(ob.Asks)) - len(ob.Asks))) &&
      forall(k, 0, old(len(ob.Asks)) - len(ob.Asks), oldAsk(ob, k).Price <= P) && forall(k, 0, len(ob.Asks), ob.Asks[k].Price > P)
macro bidTail(ob, P) = len(ob.Bids) <= old(len(ob.Bids)) && ((fresh(ob.Bids) && len(ob.Bids) == 0) ||
      (ref(ob.Bids) == old(ref(ob.Bids)) && off(ob.Bids) == old(off(ob.Bids)) + old(len(ob.Bids)) - len(ob.Bids))) &&
      forall(k, 0, old(len(ob.Bids)) - len(ob.Bids), oldBid(ob, k).Price >= P) && forall(k, 0, len(ob.Bids), ob.Bids[k].Price < P)

func market.(*OrderBook).removeInvalid(ob, side, price) (n)
  requires receiver: ob != nil
  requires sorted: ascending(ob.Asks) && descending(ob.Bids)
  modifies ob.Asks, ob.Bids
  ensures asks: implies(side == "ask", ob.Bids == old(ob.Bids) && askTail(ob, price))
  ensures bids: implies(side == "bid", ob.Asks == old(ob.Asks) && bidTail(ob, price))
  ensures other: implies(side != "ask" && side != "bid", ob.Asks == old(ob.Asks) && ob.Bids == old(ob.Bids))
  inv (I int) :: forall(k, 0, I, ob.Asks[k].Price <= price)
  inv (I int) :: forall(k, 0, I, ob.Bids[k].Price >= price)

macro hasAsk(ob, P) = exists(i, 0, old(len(ob.Asks)), oldAsk(ob, i).Price == P)
macro hasBid(ob, P) = exists(i, 0, old(len(ob.Bids)), oldBid(ob, i).Price == P)

// the updated side, position by position
macro askPut(ob, P, V, n) = len(ob.Asks) == min(ob.MaxDepth, ite(hasAsk(ob, P), n, n + 1)) &&
      forall(k, 0, len(ob.Asks), implies(k < n && oldAsk(ob, k).Price < P, sameRow(ob.Asks[k], oldAsk(ob, k)))) &&
      forall(k, 0, len(ob.Asks), implies((k == 0 || oldAsk(ob, k-1).Price < P) && (k >= n || oldAsk(ob, k).Price >= P), ob.Asks[k].Price == P && ob.Asks[k].Volume == V)) &&
      forall(k, 0, len(ob.Asks), implies(hasAsk(ob, P) && k < n && oldAsk(ob, k).Price > P, sameRow(ob.Asks[k], oldAsk(ob, k)))) &&
      forall(k, 1, len(ob.Asks), implies(!hasAsk(ob, P) && oldAsk(ob, k-1).Price > P, sameRow(ob.Asks[k], oldAsk(ob, k-1))))
macro askDeleted(ob, P, n) = len(ob.Asks) == ite(hasAsk(ob, P), n - 1, n) &&
      forall(k, 0, len(ob.Asks), implies(oldAsk(ob, k).Price < P, sameRow(ob.Asks[k], oldAsk(ob, k)))) &&
      forall(k, 0, len(ob.Asks), implies(oldAsk(ob, k).Price >= P, sameRow(ob.Asks[k], oldAsk(ob, k + n - len(ob.Asks)))))
macro bidPut(ob, P, V, n) = len(ob.Bids) == min(ob.MaxDepth, ite(hasBid(ob, P), n, n + 1)) &&
      forall(k, 0, len(ob.Bids), implies(k < n && oldBid(ob, k).Price > P, sameRow(ob.Bids[k], oldBid(ob, k)))) &&
      forall(k, 0, len(ob.Bids), implies((k == 0 || oldBid(ob, k-1).Price > P) && (k >= n || oldBid(ob, k).Price <= P), ob.Bids[k].Price == P && ob.Bids[k].Volume == V)) &&
      forall(k, 0, len(ob.Bids), implies(hasBid(ob, P) && k < n && oldBid(ob, k).Price < P, sameRow(ob.Bids[k], oldBid(ob, k)))) &&
      forall(k, 1, len(ob.Bids), implies(!hasBid(ob, P) && oldBid(ob, k-1).Price < P, sameRow(ob.Bids[k], oldBid(ob, k-1))))
macro bidDeleted(ob, P, n) = len(ob.Bids) == ite(hasBid(ob, P), n - 1, n) &&
      forall(k, 0, len(ob.Bids), implies(oldBid(ob, k).Price > P, sameRow(ob.Bids[k], oldBid(ob, k)))) &&
      forall(k, 0, len(ob.Bids), implies(oldBid(ob, k).Price <= P, sameRow(ob.Bids[k], oldBid(ob, k + n - len(ob.Bids)))))
macro stillAsks(ob) = len(ob.Asks) == old(len(ob.Asks)) && asksKept(ob)
macro stillBids(ob) = len(ob.Bids) == old(len(ob.Bids)) && bidsKept(ob)
macro accumsKept(ob) = forall(k, 0, len(ob.Asks), ob.Asks[k].AccumVolume == oldAsk(ob, k).AccumVolume) && forall(k, 0, len(ob.Bids), ob.Bids[k].AccumVolume == oldBid(ob, k).AccumVolume)

func market.(*OrderBook).ApplyUpdate(ob, u) (err)
  requires receiver: ob != nil && ob.MaxDepth >= 0
  requires sorted: ascending(ob.Asks) && descending(ob.Bids)
  requires limited: len(ob.Asks) <= ob.MaxDepth && len(ob.Bids) <= ob.MaxDepth
  requires separate-sides: separate(ob)
  modifies [C02,C04] ob.Asks, ob.Bids, ob.Time, elems(ob.Asks), elems(ob.Bids)
  ensures [C02] sorted: ascending(ob.Asks) && descending(ob.Bids)
  ensures [C02] limited: len(ob.Asks) <= ob.MaxDepth && len(ob.Bids) <= ob.MaxDepth
  ensures [C02,C03,C04,C05] separate-sides: separate(ob)
  ensures [C03] bids-below-ask: implies(u.Side == "ask" && u.Volume != 0, bidSuffix(ob, u.Price))
  ensures [C03] asks-above-bid: implies(u.Side == "bid" && u.Volume != 0, askSuffix(ob, u.Price))
  ensures [C03] deletion-keeps-other-side: implies(u.Volume == 0, implies(u.Side == "ask", stillBids(ob)) && implies(u.Side == "bid", stillAsks(ob)))
  ensures [C03] uncrossed-stays: implies(forall(i, 0, old(len(ob.Asks)), implies(old(len(ob.Bids)) > 0, oldAsk(ob, i).Price > oldBid(ob, 0).Price)),
      implies(len(ob.Asks) > 0 && len(ob.Bids) > 0, ob.Asks[0].Price > ob.Bids[0].Price))
  ensures [C04] ask-put: implies(u.Side == "ask" && u.Volume != 0, askPut(ob, u.Price, u.Volume, old(len(ob.Asks))))
  ensures [C04] bid-put: implies(u.Side == "bid" && u.Volume != 0, bidPut(ob, u.Price, u.Volume, old(len(ob.Bids))))
  ensures [C04] ask-deleted: implies(u.Side == "ask" && u.Volume == 0, askDeleted(ob, u.Price, old(len(ob.Asks))))
  ensures [C04] bid-deleted: implies(u.Side == "bid" && u.Volume == 0, bidDeleted(ob, u.Price, old(len(ob.Bids))))
  ensures [C04] error-iff-bad-side: iff(err != nil, u.Side != "ask" && u.Side != "bid")
  ensures [C04] error-changes-nothing: implies(err != nil, stillAsks(ob) && stillBids(ob) && accumsKept(ob) && ob.Time == old(ob.Time))
  ensures [C05] accumulated: implies(err == nil && (u.Volume != 0 || (u.Side == "ask" && hasAsk(ob, u.Price)) || (u.Side == "bid" && hasBid(ob, u.Price))),
      accumulated(ob.Asks) && accumulated(ob.Bids))
  ensures [C05] unchanged: implies(err != nil || (u.Volume == 0 && u.Side == "ask" && !hasAsk(ob, u.Price)) || (u.Volume == 0 && u.Side == "bid" && !hasBid(ob, u.Price)), accumsKept(ob))
  inv (I int) :: forall(k, 0, I, ob.Asks[k].Price != u.Price)
  inv (I int) :: forall(k, 0, I, ob.Bids[k].Price != u.Price)
  inv (I int) :: forall(k, 0, I, ob.Asks[k].Price < u.Price)
  inv (I int) :: forall(k, 0, I, ob.Bids[k].Price > u.Price)
  inv () :: forall(k, 0, len(ob.Asks), ob.Asks[k].Price != u.Price)
  inv () :: forall(k, 0, len(ob.Bids), ob.Bids[k].Price != u.Price)

// src and srcinv: where a row of the sorted side was in the given list, and back
func market.NewOrderBook(asks, bids, maxDepth) (r)
  requires separate-sides: ref(asks) != ref(bids) || asks == nil
  requires depth: maxDepth >= 0
  modifies [C01] elems(asks), elems(bids)
  ensures [C01] asks-ascend: forall(i, j, 0, len(r.Asks), r.Asks[i].Price <= r.Asks[j].Price)
  ensures [C01] bids-descend: forall(i, j, 0, len(r.Bids), r.Bids[i].Price >= r.Bids[j].Price)
  ensures [C01] counts: len(r.Asks) == min(len(asks), maxDepth) && len(r.Bids) == min(len(bids), maxDepth) && r.MaxDepth == maxDepth
  ensures [C01] asks-are-given: forall(k, 0, len(r.Asks), 0 <= src(asks, k) && src(asks, k) < len(asks) && srcinv(asks, src(asks, k)) == k &&
      sameRow(r.Asks[k], old(asks[src(asks, k)])))
  ensures [C01] bids-are-given: forall(k, 0, len(r.Bids), 0 <= src(bids, k) && src(bids, k) < len(bids) && srcinv(bids, src(bids, k)) == k &&
      sameRow(r.Bids[k], old(bids[src(bids, k)])))
  ensures [C01] asks-left-out: forall(i, 0, len(asks), 0 <= srcinv(asks, i) && srcinv(asks, i) < len(asks) && src(asks, srcinv(asks, i)) == i &&
      implies(srcinv(asks, i) >= len(r.Asks), forall(k, 0, len(r.Asks), r.Asks[k].Price <= old(asks[i]).Price)))
  ensures [C01] bids-left-out: forall(i, 0, len(bids), 0 <= srcinv(bids, i) && srcinv(bids, i) < len(bids) && src(bids, srcinv(bids, i)) == i &&
      implies(srcinv(bids, i) >= len(r.Bids), forall(k, 0, len(r.Bids), r.Bids[k].Price >= old(bids[i]).Price)))
  test [C01] asks-are-given-ones: forall(k, 0, len(r.Asks), count(i, 0, len(r.Asks), sameRow(r.Asks[i], r.Asks[k])) <= count(i, 0, len(asks), sameRow(old(asks[i]), r.Asks[k])))
  test [C01] best-asks-kept: forall(k, 0, len(asks), implies(len(r.Asks) > 0 && old(asks[k]).Price < r.Asks[len(r.Asks)-1].Price,
      count(i, 0, len(r.Asks), sameRow(r.Asks[i], old(asks[k]))) == count(i, 0, len(asks), sameRow(old(asks[i]), old(asks[k])))))
  test [C01] bids-are-given-ones: forall(k, 0, len(r.Bids), count(i, 0, len(r.Bids), sameRow(r.Bids[i], r.Bids[k])) <= count(i, 0, len(bids), sameRow(old(bids[i]), r.Bids[k])))
  test [C01] best-bids-kept: forall(k, 0, len(bids), implies(len(r.Bids) > 0 && old(bids[k]).Price > r.Bids[len(r.Bids)-1].Price,
      count(i, 0, len(r.Bids), sameRow(r.Bids[i], old(bids[k]))) == count(i, 0, len(bids), sameRow(old(bids[i]), old(bids[k])))))
  ensures [C01] separate: separate2(r)
  ensures [C05] accumulated: accumulated(r.Asks) && accumulated(r.Bids)

macro separate2(r) = ref(r.Asks) != ref(r.Bids) || r.Asks == nil

rec sumVol(a arr[market.OrderBookRow], lo int, hi int) float64 = ite(hi <= lo, 0, sumVol(a, lo, hi-1) + a[hi-1].Volume)

lemma accumIsSum(a arr[market.OrderBookRow], lo int, hi int) [C06] induct hi from lo+1 when
      forall(k, lo, hi, a[k].AccumVolume == ite(k == lo, a[k].Volume, a[k].Volume + a[k-1].AccumVolume)):
      a[hi-1].AccumVolume == sumVol(a, lo, hi)

macro inAsks(ob, P) = len(ob.Asks) > 0 && ob.Asks[0].Price <= P && P <= ob.Asks[len(ob.Asks)-1].Price
macro inBids(ob, P) = len(ob.Bids) > 0 && ob.Bids[len(ob.Bids)-1].Price <= P && P <= ob.Bids[0].Price

func market.(*OrderBook).GetDepth(ob, price) (d, err)
  requires receiver: ob != nil
  requires sorted: forall(i, j, 0, len(ob.Asks), ob.Asks[i].Price <= ob.Asks[j].Price) && forall(i, j, 0, len(ob.Bids), ob.Bids[i].Price >= ob.Bids[j].Price)
  requires uncrossed: len(ob.Asks) == 0 || len(ob.Bids) == 0 || ob.Asks[0].Price > ob.Bids[0].Price
  modifies [C06] nothing
  ensures [C06] error-iff: iff(err != nil, price <= 0 || (!inAsks(ob, price) && !inBids(ob, price)))
  ensures [C06] asks: implies(price > 0 && inAsks(ob, price), forall(k, 0, len(ob.Asks),
      implies(ob.Asks[k].Price <= price && (k == len(ob.Asks)-1 || ob.Asks[k+1].Price > price), d == ob.Asks[k].AccumVolume)))
  ensures [C06] bids: implies(price > 0 && inBids(ob, price), forall(k, 0, len(ob.Bids),
      implies(ob.Bids[k].Price >= price && (k == len(ob.Bids)-1 || ob.Bids[k+1].Price < price), d == ob.Bids[k].AccumVolume)))
  inv (I int) :: forall(k, 0, I, ob.Asks[k].Price <= price)
  inv (I int) :: forall(k, 0, I, ob.Bids[k].Price >= price)

// Cost and volume of the leading asks not above P, and the position after the leading bids
// not below P. In a sorted book these are all such rows (lemmas below).
rec askCost(a arr[market.OrderBookRow], i int, hi int, P float64) float64 = ite(i >= hi || a[i].Price > P, 0, a[i].Price * a[i].Volume + askCost(a, i+1, hi, P))
rec askVol(a arr[market.OrderBookRow], i int, hi int, P float64) float64 = ite(i >= hi || a[i].Price > P, 0, a[i].Volume + askVol(a, i+1, hi, P))
rec bidEnd(a arr[market.OrderBookRow], i int, hi int, P float64) int = ite(i >= hi || a[i].Price < P, i, bidEnd(a, i+1, hi, P))
// value of the rows [lo, hi) filled from the last one backwards until the volume V is used
rec bidFill(a arr[market.OrderBookRow], lo int, hi int, V float64) float64 = ite(hi <= lo, 0,
      ite(a[hi-1].Volume > V, V * a[hi-1].Price, a[hi-1].Volume * a[hi-1].Price + bidFill(a, lo, hi-1, V - a[hi-1].Volume)))

rec allAskCost(a arr[market.OrderBookRow], i int, hi int, P float64) float64 = ite(i >= hi, 0, ite(a[i].Price > P, 0, a[i].Price * a[i].Volume) + allAskCost(a, i+1, hi, P))
rec allAskVol(a arr[market.OrderBookRow], i int, hi int, P float64) float64 = ite(i >= hi, 0, ite(a[i].Price > P, 0, a[i].Volume) + allAskVol(a, i+1, hi, P))
lemma noAsksBeyond(a arr[market.OrderBookRow], n int, hi int, P float64) [C07] induct n from 0 when forall(k, hi-n, hi, a[k].Price > P):
      allAskCost(a, hi-n, hi, P) == 0 && allAskVol(a, hi-n, hi, P) == 0
lemma leadingAsksAreAll(a arr[market.OrderBookRow], n int, hi int, P float64) [C07] induct n from 0 when forall(i, j, hi-n, hi, a[i].Price <= a[j].Price):
      askCost(a, hi-n, hi, P) == allAskCost(a, hi-n, hi, P) && askVol(a, hi-n, hi, P) == allAskVol(a, hi-n, hi, P) using noAsksBeyond(a, n, hi, P)
lemma leadingBidsAreAll(a arr[market.OrderBookRow], n int, hi int, P float64) [C07] induct n from 0 when forall(i, j, hi-n, hi, a[i].Price >= a[j].Price):
      hi-n <= bidEnd(a, hi-n, hi, P) && bidEnd(a, hi-n, hi, P) <= hi && forall(k, hi-n, hi, iff(a[k].Price >= P, k < bidEnd(a, hi-n, hi, P)))

macro costAll(asks, P) = askCost(arr(asks), off(asks), off(asks) + len(asks), P)
macro volAll(asks, P) = askVol(arr(asks), off(asks), off(asks) + len(asks), P)
macro fillAll(bids, P, V) = bidFill(arr(bids), off(bids), bidEnd(arr(bids), off(bids), off(bids) + len(bids), P), V)
macro overlapValue(asks, bids) = abs(costAll(asks, bids[0].Price) - fillAll(bids, asks[0].Price, volAll(asks, bids[0].Price)))
macro overlaps(asks, bids) = len(asks) > 0 && len(bids) > 0 && asks[0].Price < bids[0].Price
macro uncrossed(o) = len(o.Asks) == 0 || len(o.Bids) == 0 || o.Asks[0].Price > o.Bids[0].Price
macro sides(o) = forall(i, j, 0, len(o.Asks), o.Asks[i].Price <= o.Asks[j].Price) && forall(i, j, 0, len(o.Bids), o.Bids[i].Price >= o.Bids[j].Price)

func market.CalculateOverlap(obA, obB) (v, err)
  requires sorted: sides(obA) && sides(obB)
  modifies [C07] nothing
  ensures [C07] error-iff: iff(err != nil, !overlaps(obA.Asks, obB.Bids) && !overlaps(obB.Asks, obA.Bids))
  ensures [C07] value: implies(overlaps(obA.Asks, obB.Bids) && !overlaps(obB.Asks, obA.Bids), v == overlapValue(obA.Asks, obB.Bids))
  ensures [C07] value-swapped: implies(overlaps(obB.Asks, obA.Bids) && !overlaps(obA.Asks, obB.Bids), v == overlapValue(obB.Asks, obA.Bids))
  ensures [C07] one-of-them: implies(overlaps(obB.Asks, obA.Bids) && overlaps(obA.Asks, obB.Bids), v == overlapValue(obB.Asks, obA.Bids) || v == overlapValue(obA.Asks, obB.Bids))
  ensures [C07] one-way: implies(uncrossed(obA) && uncrossed(obB), !overlaps(obB.Asks, obA.Bids) || !overlaps(obA.Asks, obB.Bids))

func market.overlapCalculation(obA, obB) (v, err)
  requires sorted: sides(obA) && sides(obB)
  requires overlap: overlaps(obA.Asks, obB.Bids)
  modifies nothing
  ensures value: v == overlapValue(obA.Asks, obB.Bids) && err == nil
  inv (I int, F float64) :: volAll(obA.Asks, obB.Bids[0].Price) == F + askVol(arr(obA.Asks), off(obA.Asks)+I, off(obA.Asks)+len(obA.Asks), obB.Bids[0].Price)
  inv (I int, F float64) :: costAll(obA.Asks, obB.Bids[0].Price) == F + askCost(arr(obA.Asks), off(obA.Asks)+I, off(obA.Asks)+len(obA.Asks), obB.Bids[0].Price)
  inv (I int) :: forall(k, 0, I, obA.Asks[k].Price <= obB.Bids[0].Price)
  inv (I int) :: bidEnd(arr(obB.Bids), off(obB.Bids), off(obB.Bids)+len(obB.Bids), obA.Asks[0].Price) == bidEnd(arr(obB.Bids), off(obB.Bids)+I, off(obB.Bids)+len(obB.Bids), obA.Asks[0].Price)
  inv (I int, F float64, G float64) :: fillAll(obB.Bids, obA.Asks[0].Price, volAll(obA.Asks, obB.Bids[0].Price)) ==
      F + bidFill(arr(obB.Bids), off(obB.Bids), off(obB.Bids)+I+1, volAll(obA.Asks, obB.Bids[0].Price) - G)
