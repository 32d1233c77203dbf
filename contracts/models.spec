// Stored models, assets, pairs, times and text.

// ---- updates --------------------------------------------------------------------------

func market.(*Order).Update(o, i) (err)
  requires receiver: o != nil
  requires no-nil-order: implies(typeis(i, "*market.Order"), as(i, "*market.Order") != nil)
  modifies [C28] *o
  ensures [C28] takes-everything: implies(typeis(i, "*market.Order"), err == nil && *o == old(*as(i, "*market.Order")))
  ensures [C28] source-kept: implies(typeis(i, "*market.Order"), *as(i, "*market.Order") == old(*as(i, "*market.Order")))
  ensures [C28] refused: implies(!typeis(i, "*market.Order"), err != nil && *o == old(*o))

func market.(*Order).GetID(o) (r)
  requires receiver: o != nil
  modifies [C28] nothing
  ensures [C28] id: r == o.ID

func market.(*Order).GetSchema(o) (r)
  modifies [C28] nothing
  ensures [C28] table: r != nil && r.Name == "orders" && r.PKey == "id"

func market.(*Position).Update(o, i) (err)
  requires receiver: o != nil
  requires no-nil-position: implies(typeis(i, "*market.Position"), as(i, "*market.Position") != nil)
  modifies [C28] *o
  ensures [C28] takes-everything: implies(typeis(i, "*market.Position"), err == nil && *o == old(*as(i, "*market.Position")))
  ensures [C28] source-kept: implies(typeis(i, "*market.Position"), *as(i, "*market.Position") == old(*as(i, "*market.Position")))
  ensures [C28] refused: implies(!typeis(i, "*market.Position"), err != nil && *o == old(*o))

func market.(*Position).GetID(o) (r)
  requires receiver: o != nil
  modifies [C28] nothing
  ensures [C28] id: r == o.ID

func market.(*Position).GetSchema(o) (r)
  modifies [C28] nothing
  ensures [C28] table: r != nil && r.Name == "positions" && r.PKey == "id"

func market.(*Trade).Update(o, i) (err)
  requires receiver: o != nil
  requires no-nil-trade: implies(typeis(i, "*market.Trade"), as(i, "*market.Trade") != nil)
  modifies [C28] *o
  ensures [C28] takes-everything: implies(typeis(i, "*market.Trade"), err == nil && *o == old(*as(i, "*market.Trade")))
  ensures [C28] source-kept: implies(typeis(i, "*market.Trade"), *as(i, "*market.Trade") == old(*as(i, "*market.Trade")))
  ensures [C28] refused: implies(!typeis(i, "*market.Trade"), err != nil && *o == old(*o))

func market.(*Trade).GetID(o) (r)
  requires receiver: o != nil
  modifies [C28] nothing
  ensures [C28] id: r == o.ID

func market.(*Trade).GetSchema(o) (r)
  modifies [C28] nothing
  ensures [C28] table: r != nil && r.Name == "trades" && r.PKey == "id"

func strategy.(*Annotation).Update(o, i) (err)
  requires receiver: o != nil
  requires no-nil-annotation: implies(typeis(i, "*strategy.Annotation"), as(i, "*strategy.Annotation") != nil)
  modifies [C28] *o
  ensures [C28] takes-everything: implies(typeis(i, "*strategy.Annotation"), err == nil && *o == old(*as(i, "*strategy.Annotation")))
  ensures [C28] source-kept: implies(typeis(i, "*strategy.Annotation"), *as(i, "*strategy.Annotation") == old(*as(i, "*strategy.Annotation")))
  ensures [C28] refused: implies(!typeis(i, "*strategy.Annotation"), err != nil && *o == old(*o))

func strategy.(*Annotation).GetID(o) (r)
  requires receiver: o != nil
  modifies [C28] nothing
  ensures [C28] id: r == o.ID

func strategy.(*Annotation).GetSchema(o) (r)
  modifies [C28] nothing
  ensures [C28] table: r != nil && r.Name == "annotations" && r.PKey == "id"

// ---- assets ---------------------------------------------------------------------------

func market.NewAsset(symbol, name) (a, err)
  modifies [C29] nothing
  ensures [C29] accepted-iff: iff(err == nil, symbol != "" && name != "")
  ensures [C29] carries: implies(err == nil, a.Symbol == symbol && a.Name == name && a.AltSymbol == "")

func market.NewCryptoAsset(symbol) (a, err)
  modifies [C29] nothing
  ensures [C29] asked-for: implies(err == nil, a.Symbol == symbol && a.Name != "")
  ensures [C29] unknown: implies(err != nil, a.Symbol == "" && a.Name == "" && a.AltSymbol == "")
  with [C29] same-each-time: market.NewCryptoAsset(symbol2) (a2, err2) : implies(symbol == symbol2, iff(err == nil, err2 == nil) && a == a2)
  with [C29] own-name: market.NewCryptoAsset(symbol2) (a2, err2) : implies(err == nil && err2 == nil && symbol != symbol2, a.Name != a2.Name)
  with [C29] not-forex: market.NewForexAsset(symbol2) (a2, err2) : implies(err == nil && err2 == nil, symbol != symbol2 && a.Name != a2.Name)
  with [C29] not-stock: market.NewStockAsset(symbol2) (a2, err2) : implies(err == nil && err2 == nil, symbol != symbol2 && a.Name != a2.Name)

func market.NewForexAsset(symbol) (a, err)
  modifies [C29] nothing
  ensures [C29] asked-for: implies(err == nil, a.Symbol == symbol && a.Name != "")
  ensures [C29] unknown: implies(err != nil, a.Symbol == "" && a.Name == "" && a.AltSymbol == "")
  with [C29] same-each-time: market.NewForexAsset(symbol2) (a2, err2) : implies(symbol == symbol2, iff(err == nil, err2 == nil) && a == a2)
  with [C29] own-name: market.NewForexAsset(symbol2) (a2, err2) : implies(err == nil && err2 == nil && symbol != symbol2, a.Name != a2.Name)
  with [C29] not-stock: market.NewStockAsset(symbol2) (a2, err2) : implies(err == nil && err2 == nil, symbol != symbol2 && a.Name != a2.Name)

func market.NewStockAsset(symbol) (a, err)
  modifies [C29] nothing
  ensures [C29] asked-for: implies(err == nil, a.Symbol == symbol && a.Name != "")
  ensures [C29] unknown: implies(err != nil, a.Symbol == "" && a.Name == "" && a.AltSymbol == "")
  with [C29] same-each-time: market.NewStockAsset(symbol2) (a2, err2) : implies(symbol == symbol2, iff(err == nil, err2 == nil) && a == a2)
  with [C29] own-name: market.NewStockAsset(symbol2) (a2, err2) : implies(err == nil && err2 == nil && symbol != symbol2, a.Name != a2.Name)

// ---- pairs ----------------------------------------------------------------------------

func market.(*Pair).Symbol(p, separator) (r)
  requires receiver: p != nil
  modifies [C30] nothing
  ensures [C30] no-quote: implies(p.Quote.Symbol == "", r == p.Base.Symbol)
  ensures [C30] quoted: implies(p.Quote.Symbol != "", r == p.Base.Symbol + separator + p.Quote.Symbol)

func market.NewPair(base, quote) (r)
  modifies [C30] nothing
  ensures [C30] kept: r.Base == base && r.Quote == quote

table market.PairMappings(key, pair)
  ensures [C30] listed-under-its-symbol: key == pair.Base.Symbol + pair.Quote.Symbol
  ensures [C30] both-assets: pair.Base.Symbol != "" && pair.Quote.Symbol != ""

// ---- times ----------------------------------------------------------------------------

func strategy.(*Tick).GetLocalTime(t) (r)
  requires tick: t != nil && t.Candle != nil
  modifies [C32] nothing
  ensures [C32] instant: instant(r) == instant(timeunix(t.Candle.Time, 0))

func strategy.(*Tick).GetLocationTime(t, location) (r, err)
  requires tick: t != nil && t.Candle != nil
  modifies [C32] nothing
  ensures [C32] known-location: iff(err == nil, locknown(location))
  ensures [C32] instant: implies(err == nil, instant(r) == instant(timeunix(t.Candle.Time, 0)))

func utils.RawDateToRFC3339(date) (r, err)
  modifies [C32] nothing
  ensures [C32] accepted-iff: iff(err == nil, timeparseok("2006-01-02T15:04:05Z07:00", date + "T00:00:00Z"))
  ensures [C32] instant: implies(err == nil, instant(r) == instant(timeparse("2006-01-02T15:04:05Z07:00", date + "T00:00:00Z")))

// ---- text -----------------------------------------------------------------------------

func market.(*Asset).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*BalanceSnapshot).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*AssetsSnapshot).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*Balance).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*Candle).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*Order).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*OrderRequest).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*OrderBook).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*OrderBook).Print(x)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*OrderBookRow).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*Pair).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*PositionCloseOrder).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*Position).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*Ticker).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func market.(*Trade).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func indicators.(*WilliamFractal).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func strategy.(*Annotation).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
func strategy.(*AddAnnotationsAction).String(x) (r)
  requires receiver: x != nil
  safety [C33]
  modifies [C33] nothing
