// Trades, orders and order requests.

func market.NewTrade(id, executionTime, actionType, orderType, pair, price, quantity, cost) (t)
  modifies nothing
  ensures [C12] created: t != nil && fresh(t)
  ensures [C12] buy-balance: implies(actionType == market.BuyAction, cost == price*quantity + t.Fee)
  ensures [C12] other-balance: implies(actionType != market.BuyAction, cost == price*quantity - t.Fee)
  ensures [C12] recorded: t.ID == id && t.ExecutionTime == executionTime && t.Action == actionType &&
      t.OrderType == orderType && t.Pair == pair && t.Price == price && t.Quantity == quantity && t.Cost == cost
  ensures [C12] no-execution-id: t.ExecutionID == ""

func market.NewOrderRequest(pair, action, orderType, quantity, price, total) (r, err)
  modifies nothing
  ensures [C13] refused-iff-incomplete: iff(err != nil, pair.Base.Symbol == "" || action == "" || orderType == "" ||
      (orderType == market.LimitOrder && price == 0) || (quantity == 0 && total == 0))
  ensures [C13] error-without-request: implies(err != nil, r == nil)
  ensures [C13] exactly-as-given: implies(err == nil, r != nil && fresh(r) && *r == market.OrderRequest{Action: action,
      Type: orderType, Pair: pair, Price: price, Quantity: quantity, Total: total, TakeProfit: 0, StopLoss: 0})

macro execPrice(o, currentPrice) = ite(o.Type == market.MarketOrder || o.Type == market.ClosePosition, currentPrice, o.Price)

func market.(*OrderRequest).CalculateFields(o, currentPrice) (r, err)
  requires receiver: o != nil
  requires price-to-divide-by: implies(o.Quantity == 0, execPrice(o, currentPrice) != 0)
  modifies [C14] nothing
  ensures [C14] error-iff-both-or-neither: iff(err != nil, (o.Total == 0 && o.Quantity == 0) || (o.Total != 0 && o.Quantity != 0))
  ensures [C14] error-without-request: implies(err != nil, r == nil)
  ensures [C14] new-request: implies(err == nil, r != nil && fresh(r))
  ensures [C14] balance: implies(err == nil, r.Total == r.Quantity * execPrice(o, currentPrice))
  ensures [C14] quantity-kept: implies(err == nil && o.Quantity != 0, r.Quantity == o.Quantity)
  ensures [C14] total-kept: implies(err == nil && o.Total != 0, r.Total == o.Total)
  ensures [C14] rest-kept: implies(err == nil, r.Action == o.Action && r.Type == o.Type && r.Pair == o.Pair && r.Price == o.Price &&
      r.TakeProfit == o.TakeProfit && r.StopLoss == o.StopLoss)

func market.(*Order).IsOpen(o) (open)
  requires receiver: o != nil
  modifies [C31] nothing
  ensures [C31] open-iff: iff(open, o.Status != market.FulfilledOrder && o.Status != market.CanceledOrder)
