// Positions. Floating point is modelled as the real numbers.

func market.NewPosition(trade) (p)
  requires trade: trade != nil
  modifies [C10] ghostvar("xid.n")
  ensures [C10] new: p != nil && fresh(p) && p.Open
  ensures [C10] long-for-buy: implies(trade.Action == market.BuyAction, p.Type == market.LongPosition)
  ensures [C10] short-for-sell: implies(trade.Action == market.SellAction, p.Type == market.ShortPosition)
  ensures [C10,C08] from-trade: p.Pair == trade.Pair && p.OpenPrice == trade.Price && p.Quantity == trade.Quantity && p.OpenTime == trade.ExecutionTime
  ensures [C10] log: len(p.Trades) == 1 && p.Trades[0] == trade.ID
  ensures [C10] generated-id: xidnum(p.ID) >= old(ghost("xid.n"))

func market.(*Position).UnrealizedProfit(p, currentPrice) (r)
  requires receiver: p != nil
  modifies [C11] nothing
  ensures [C11] long: implies(p.Type == market.LongPosition, r == p.Quantity * (currentPrice - p.OpenPrice))
  ensures [C11] other: implies(p.Type != market.LongPosition, r == p.Quantity * (p.OpenPrice - currentPrice))

macro sameDirection(p, trade) = (p.Type == market.LongPosition && trade.Action == market.BuyAction) || (p.Type == market.ShortPosition && trade.Action == market.SellAction)
macro opposite(p, trade) = (p.Type == market.LongPosition && trade.Action == market.SellAction) || (p.Type == market.ShortPosition && trade.Action == market.BuyAction)
macro consumes(p, trade) = p.Pair == trade.Pair && opposite(p, trade) && p.Quantity - trade.Quantity <= 0 && p.Quantity - trade.Quantity >= -0.0001
macro untouched(p) = *p == old(*p)
macro identity(p) = p.ID == old(p.ID) && p.Type == old(p.Type) && p.Pair == old(p.Pair) && p.OpenTime == old(p.OpenTime) &&
      p.TakeProfit == old(p.TakeProfit) && p.StopLoss == old(p.StopLoss) && p.ExecutionID == old(p.ExecutionID) && p.Data == old(p.Data)
macro logged(p, trade) = len(p.Trades) == old(len(p.Trades)) + 1 && p.Trades[len(p.Trades)-1] == old(trade.ID) &&
      forall(k, 0, old(len(p.Trades)), p.Trades[k] == old(p.Trades[k]))

func market.(*Position).Modify(p, trade) (err)
  requires args: p != nil && trade != nil
  requires sizes: p.Quantity > 0 && trade.Quantity > 0
  // spare capacity of the log may be overwritten
  modifies [C09,C10] *p, elems(p.Trades)
  ensures [C08] add-size: implies(err == nil && old(sameDirection(p, trade)), p.Quantity == old(p.Quantity) + old(trade.Quantity))
  ensures [C08] add-cost: implies(err == nil && old(sameDirection(p, trade)),
      p.Quantity * p.OpenPrice == old(p.Quantity * p.OpenPrice) + old(trade.Price * trade.Quantity))
  ensures [C08] reduce-size: implies(err == nil && old(opposite(p, trade) && trade.Quantity < p.Quantity), p.Quantity == old(p.Quantity) - old(trade.Quantity))
  ensures [C08] reduce-cost: implies(err == nil && old(opposite(p, trade) && trade.Quantity < p.Quantity),
      p.Quantity * p.OpenPrice == old(p.Quantity * p.OpenPrice) - old(trade.Price * trade.Quantity))
  ensures [C08,C09] applied-or-error: iff(err == nil, old(p.Pair == trade.Pair && (sameDirection(p, trade) ||
      (opposite(p, trade) && p.Quantity - trade.Quantity >= -0.0001))))
  ensures [C08] size-stays-positive: p.Quantity > 0
  ensures [C08,C09] size-and-price-at-close: implies(old(consumes(p, trade)), p.Quantity == old(p.Quantity) && p.OpenPrice == old(p.OpenPrice))
  ensures [C09] closes-iff: implies(old(p.Open), iff(!p.Open, old(consumes(p, trade))))
  ensures [C09] never-reopened: implies(!old(p.Open), !p.Open)
  ensures [C09,C11] close-price: implies(old(consumes(p, trade)), p.ClosePrice == old(trade.Price) && p.CloseTime == old(trade.ExecutionTime))
  ensures [C09,C11] close-profit-long: implies(old(consumes(p, trade) && p.Type == market.LongPosition), p.Profit == old(p.Quantity * (trade.Price - p.OpenPrice)))
  ensures [C09,C11] close-profit-short: implies(old(consumes(p, trade) && p.Type != market.LongPosition), p.Profit == old(p.Quantity * (p.OpenPrice - trade.Price)))
  ensures [C09] refused-untouched: implies(err != nil, untouched(p) && len(p.Trades) == old(len(p.Trades)) && forall(k, 0, len(p.Trades), p.Trades[k] == old(p.Trades[k])))
  ensures [C09] open-keeps-close-data: implies(!old(consumes(p, trade)), p.ClosePrice == old(p.ClosePrice) && p.CloseTime == old(p.CloseTime) && p.Profit == old(p.Profit))
  ensures [C10] log: implies(err == nil, logged(p, trade))
  ensures [C10] identity: identity(p)
  ensures [C10] trade-kept: *trade == old(*trade)
