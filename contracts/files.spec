// Candle files: one line {time open high low close volume} per candle.
macro inner(t) = substr(t, 1, len(t)-1)
macro candleLine(t) = len(t) >= 2 && splitlen(inner(t), " ") == 6 && isint(splitat(inner(t), " ", 0)) && isfloat(splitat(inner(t), " ", 1)) &&
      isfloat(splitat(inner(t), " ", 2)) && isfloat(splitat(inner(t), " ", 3)) && isfloat(splitat(inner(t), " ", 4)) && isfloat(splitat(inner(t), " ", 5))
macro candleOf(t, c) = c.Time == parseint(splitat(inner(t), " ", 0)) && c.Open == parsefloat(splitat(inner(t), " ", 1)) && c.High == parsefloat(splitat(inner(t), " ", 2)) &&
      c.Low == parsefloat(splitat(inner(t), " ", 3)) && c.Close == parsefloat(splitat(inner(t), " ", 4)) && c.Volume == parsefloat(splitat(inner(t), " ", 5))

func market.SaveCandlesToFile(candles, filepath) (err)
  norun
  requires list: candles != nil
  modifies [C18] ghostvar("fs.n"), ghostvar("fs.lines"), ghostvar("fs.fails")
  ensures [C18] fails-only-with-file: implies(err != nil, ghost("fs.fails") > old(ghost("fs.fails")))
  ensures [C18] one-line-each: implies(err == nil, nlines(filepath) == len(*candles))
  ensures [C18] lines: implies(err == nil, forall(j, 0, len(*candles), candleLine(line(filepath, j)) && candleOf(line(filepath, j), (*candles)[j])))
  then [C18] round-trip: market.LoadCandlesFromFile(filepath) (loaded, failed) : implies(err == nil && openok(filepath) && readok(filepath), failed == nil && len(loaded) == len(*candles) &&
      forall(j, 0, len(*candles), loaded[j] == (*candles)[j]))
  inv (I int) :: nlines(filepath) == I
  inv (I int) :: forall(j, 0, I, candleLine(line(filepath, j)) && candleOf(line(filepath, j), (*candles)[j]))
  inv (I int) :: ghost("wbuf.n") == I
  inv (I int) :: forall(j, 0, I, candleLine(bufline(j)) && candleOf(bufline(j), (*candles)[j]))

func market.LoadCandlesFromFile(filepath) (candles, err)
  norun
  modifies [C18,C19] ghostvar("fs.fails")
  safety [C19]
  ensures [C18] good-file-loads: implies(openok(filepath) && readok(filepath) && forall(j, 0, nlines(filepath), candleLine(line(filepath, j))), err == nil)
  ensures [C18,C19] one-candle-each: implies(err == nil, len(candles) == nlines(filepath))
  ensures [C18,C19] fields: implies(err == nil, forall(j, 0, nlines(filepath), candleOf(line(filepath, j), candles[j])))
  ensures [C19] failures-reported: implies(err == nil, openok(filepath) && readok(filepath))
  ensures [C19] bad-lines-reported: implies(err == nil, forall(j, 0, nlines(filepath), candleLine(line(filepath, j))))
  inv (R []market.Candle) :: len(R) == ghost("scan.pos")
  inv (R []market.Candle) :: forall(j, 0, len(R), candleLine(line(filepath, j)) && candleOf(line(filepath, j), R[j]))
