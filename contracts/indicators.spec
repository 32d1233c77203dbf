// Indicators. Indices of arr(...) are absolute positions in the backing array.

rec sumClose(a arr[market.Candle], lo int, hi int) float64 = ite(hi <= lo, 0, sumClose(a, lo, hi-1) + a[hi-1].Close)

lemma sumCloseFront(a arr[market.Candle], lo int, hi int) induct hi from lo+1:
      sumClose(a, lo, hi) == a[lo].Close + sumClose(a, lo+1, hi)

macro mean(c, i, j) = sumClose(arr(c), off(c)+i, off(c)+j) / real(j-i)

func indicators.average(candles) (r)
  requires some: len(candles) > 0
  modifies nothing
  ensures mean: r == mean(candles, 0, len(candles))
  inv (F float64, I int, C any []market.Candle) :: F == sumClose(arr(C), off(C), off(C)+I)
  inv (F float64, I int, J any int, C any []market.Candle) :: F == sumClose(arr(C), off(C)+J, off(C)+I)

func indicators.closingSum(candles, period) (sum, err)
  requires positive: period >= 0
  modifies nothing
  ensures error-iff-short: iff(err != nil, len(candles) < period)
  ensures sum: implies(err == nil, sum == sumClose(arr(candles), off(candles)+len(candles)-period, off(candles)+len(candles)))
  inv (F float64, I int, C any []market.Candle) :: F == sumClose(arr(C), off(C), off(C)+I)
  inv (F float64, I int, J any int, C any []market.Candle) :: F == sumClose(arr(C), off(C)+J, off(C)+I)

func indicators.MovingAverage(candles, period) (r, err)
  modifies [C20,C26] nothing
  safety [C26]
  ensures [C20] error-iff: iff(err != nil, period < 1 || period > len(candles))
  ensures [C20,C26] error-without-values: implies(err != nil, r == nil)
  ensures [C20] length: implies(err == nil, len(r) == len(candles) - period + 1)
  ensures [C20] means: implies(err == nil, forall(k, 0, len(r), r[k] == mean(candles, k, k+period)))
  ensures [C26] separate: implies(err == nil, fresh(r))
  inv (R []float64) :: forall(k, 0, len(R), R[k] == mean(candles, k, k+period))
  inv (F float64, I int, J any int, C any []market.Candle) :: F == sumClose(arr(C), off(C)+J, off(C)+I)
  inv (F float64, I int) :: F == sumClose(arr(candles), off(candles)+I, off(candles)+I+period)

macro alpha(period) = 2 / (real(period) + 1)

func indicators.ExponentialMovingAverage(candles, period) (r, err)
  modifies [C21,C26] nothing
  safety [C26]
  ensures [C21] error-iff: iff(err != nil, period < 1 || period > len(candles))
  ensures [C21,C26] error-without-values: implies(err != nil, r == nil)
  ensures [C21] length: implies(err == nil, len(r) == len(candles) - period)
  ensures [C21] recurrence: implies(err == nil, forall(k, 0, len(r), r[k] == alpha(period) * candles[period+k].Close +
      (1 - alpha(period)) * ite(k == 0, mean(candles, 0, period), r[k-1])))
  ensures [C26] separate: implies(err == nil, r == nil || fresh(r))
  inv (R []float64) :: forall(k, 0, len(R), R[k] == alpha(period) * candles[period+k].Close +
      (1 - alpha(period)) * ite(k == 0, mean(candles, 0, period), R[k-1]))
  inv (R []float64, F float64) :: F == ite(len(R) == 0, mean(candles, 0, period), R[len(R)-1])
  inv (R []float64, I int) :: len(R) == max(0, I - period)
  inv (F float64, I int, J any int, C any []market.Candle) :: F == sumClose(arr(C), off(C)+J, off(C)+I)

func indicators.SmoothedMovingAverage(candles, period) (r, err)
  modifies [C22,C26] nothing
  safety [C26]
  ensures [C22] error-iff: iff(err != nil, period < 1 || period > len(candles))
  ensures [C22,C26] error-without-values: implies(err != nil, r == nil)
  ensures [C22] length: implies(err == nil, len(r) == len(candles) - period + 1)
  ensures [C22] first: implies(err == nil, r[0] == mean(candles, 0, period))
  ensures [C22] recurrence: implies(err == nil, forall(k, 1, len(r), r[k] * real(period) == r[k-1] * (real(period) - 1) + candles[period-1+k].Close))
  ensures [C26] separate: implies(err == nil, fresh(r))
  inv (R []float64) :: implies(len(R) > 0, R[0] == mean(candles, 0, period))
  inv (R []float64) :: forall(k, 1, len(R), R[k] * real(period) == R[k-1] * (real(period) - 1) + candles[period-1+k].Close)
  inv (R []float64, I int) :: len(R) == max(0, I - period + 1)
  inv (R []float64, F float64) :: implies(len(R) > 0, F == R[len(R)-1])
  inv (F float64, I int, J any int, C any []market.Candle) :: F == sumClose(arr(C), off(C)+J, off(C)+I)

rec gains(a arr[market.Candle], lo int, hi int) float64 = ite(hi <= lo + 1, 0, gains(a, lo, hi-1) + max(0, a[hi-1].Close - a[hi-2].Close))
rec losses(a arr[market.Candle], lo int, hi int) float64 = ite(hi <= lo + 1, 0, losses(a, lo, hi-1) + max(0, a[hi-2].Close - a[hi-1].Close))

macro rsiOf(up, down) = ite(down == 0, ite(up == 0, 50, 100), r32(100 - 100 / (1 + up / down)))

func indicators.calculateRSI(candles) (r)
  modifies nothing
  ensures value: r == rsiOf(gains(arr(candles), off(candles), off(candles)+len(candles)), losses(arr(candles), off(candles), off(candles)+len(candles)))
  ensures range: 0 <= r && r <= 100
  inv (F float64, I int) :: F == gains(arr(candles), off(candles), off(candles)+I)
  inv (F float64, I int) :: F == losses(arr(candles), off(candles), off(candles)+I)
  inv (F float64) :: F >= 0

func indicators.RSI(candles, period) (r, err)
  modifies [C23,C26] nothing
  safety [C26]
  ensures [C23] error-iff: iff(err != nil, len(candles) < 14 || period < 1 || period > len(candles) - 1)
  ensures [C23,C26] error-without-values: implies(err != nil, r == nil)
  ensures [C23] length: implies(err == nil, len(r) == len(candles) - period)
  ensures [C23] values: implies(err == nil, forall(k, 0, len(r), r[k] ==
      rsiOf(gains(arr(candles), off(candles)+k, off(candles)+k+period+1), losses(arr(candles), off(candles)+k, off(candles)+k+period+1))))
  ensures [C23] range: implies(err == nil, forall(k, 0, len(r), 0 <= r[k] && r[k] <= 100))
  ensures [C26] separate: implies(err == nil, fresh(r))
  inv (R []float32) :: forall(k, 0, len(R), R[k] ==
      rsiOf(gains(arr(candles), off(candles)+k, off(candles)+k+period+1), losses(arr(candles), off(candles)+k, off(candles)+k+period+1)))
  inv (R []float32) :: forall(k, 0, len(R), 0 <= R[k] && R[k] <= 100)
  inv (F float64, I int, J any int, C any []market.Candle) :: F == gains(arr(C), off(C)+J, off(C)+I)
  inv (F float64, I int, J any int, C any []market.Candle) :: F == losses(arr(C), off(C)+J, off(C)+I)
  inv (F float64) :: F >= 0

rec ewv(a arr[market.Candle], lo int, hi int, beta float64) float64 = ite(hi <= lo, 0, beta * ewv(a, lo, hi-1, beta) + (1 - beta) * (a[hi-1].High - a[hi-1].Low))
rec maxSpread(a arr[market.Candle], lo int, hi int) float64 = ite(hi <= lo, 0, max(maxSpread(a, lo, hi-1), a[hi-1].High - a[hi-1].Low))

lemma ewvRange(a arr[market.Candle], lo int, hi int, beta float64) [C24] induct hi from lo when 0 <= beta && beta <= 1, forall(k, lo, hi, a[k].High >= a[k].Low):
      0 <= ewv(a, lo, hi, beta) && ewv(a, lo, hi, beta) <= maxSpread(a, lo, hi)

func indicators.ExponentialWeightedVolatility(candles, beta) (v)
  modifies [C24,C26] nothing
  safety [C26]
  ensures [C24] recurrence: v == ewv(arr(candles), off(candles), off(candles)+len(candles), beta)
  ensures [C24] range: implies(0 <= beta && beta <= 1 && forall(k, 0, len(candles), candles[k].High >= candles[k].Low),
      0 <= v && v <= maxSpread(arr(candles), off(candles), off(candles)+len(candles)))
  use ewvRange(arr(candles), off(candles), off(candles)+len(candles), beta)
  inv (F float64, I int) :: F == ewv(arr(candles), off(candles), off(candles)+I, beta)

// Fractals. After position j-1, two candles strictly below h come before any above h (c of them seen so far).
rec upAfter(a arr[market.Candle], j int, end int, h float64, c int) bool = c >= 2 || (j < end && a[j].High <= h && upAfter(a, j+1, end, h, c + ite(a[j].High < h, 1, 0)))
rec downAfter(a arr[market.Candle], j int, end int, l float64, c int) bool = c >= 2 || (j < end && a[j].Low >= l && downAfter(a, j+1, end, l, c + ite(a[j].Low > l, 1, 0)))
macro isUp(a, i, end) = a[i-1].High < a[i].High && a[i-2].High < a[i].High && upAfter(a, i+1, end, a[i].High, 0)
macro isDown(a, i, end) = a[i-1].Low > a[i].Low && a[i-2].Low > a[i].Low && downAfter(a, i+1, end, a[i].Low, 0)
// number of fractals reported for the candles before position i
rec fcount(a arr[market.Candle], lo int, i int, end int) int = ite(i <= lo+2, 0, fcount(a, lo, i-1, end) + ite(isUp(a, i-1, end), 1, 0) + ite(isDown(a, i-1, end), 1, 0))
macro upAt(c, i) = isUp(arr(c), off(c)+i, off(c)+len(c))
macro downAt(c, i) = isDown(arr(c), off(c)+i, off(c)+len(c))
macro before(c, i) = fcount(arr(c), off(c), off(c)+i, off(c)+len(c))
macro upReport(f, c) = f.Time == c.Time && f.Price == c.High && f.Type == indicators.FractalUp
macro downReport(f, c) = f.Time == c.Time && f.Price == c.Low && f.Type == indicators.FractalDown

func indicators.findFractal(candles, start, fType) (f, err)
  requires window: 0 <= start && start + 5 <= len(candles)
  requires type: fType == indicators.FractalUp || fType == indicators.FractalDown
  modifies nothing
  ensures up: implies(fType == indicators.FractalUp, iff(err == nil, upAt(candles, start+2)) && upReport(f, candles[start+2]))
  ensures down: implies(fType == indicators.FractalDown, iff(err == nil, downAt(candles, start+2)) && downReport(f, candles[start+2]))
  inv (I int, C int) :: implies(fType == indicators.FractalUp, upAfter(arr(candles), off(candles)+start+3, off(candles)+len(candles), candles[start+2].High, 0) ==
      upAfter(arr(candles), off(candles)+I, off(candles)+len(candles), candles[start+2].High, C))
  inv (I int, C int) :: implies(fType == indicators.FractalDown, downAfter(arr(candles), off(candles)+start+3, off(candles)+len(candles), candles[start+2].Low, 0) ==
      downAfter(arr(candles), off(candles)+I, off(candles)+len(candles), candles[start+2].Low, C))
  inv (I int) :: implies(fType == indicators.FractalUp, forall(k, 0, I, candles[start+k].High < candles[start+2].High))
  inv (I int) :: implies(fType == indicators.FractalDown, forall(k, 0, I, candles[start+k].Low > candles[start+2].Low))
  inv (C int) :: 0 <= C && C <= 2
  inv (C int) :: 0 <= C && C < 2

func indicators.findFractals(candles, start) (r)
  requires window: 0 <= start && start + 5 <= len(candles)
  modifies nothing
  ensures count: len(r) == ite(upAt(candles, start+2), 1, 0) + ite(downAt(candles, start+2), 1, 0)
  ensures up: implies(upAt(candles, start+2), upReport(r[0], candles[start+2]))
  ensures down: implies(downAt(candles, start+2), downReport(r[ite(upAt(candles, start+2), 1, 0)], candles[start+2]))
  ensures separate: r == nil || fresh(r)

func indicators.WilliamFractals(candles) (r)
  modifies [C25,C26] nothing
  safety [C26]
  ensures [C25] count: len(r) == before(candles, max(2, len(candles)-2))
  ensures [C25] up: forall(i, 2, len(candles)-2, implies(upAt(candles, i), 0 <= before(candles, i) && before(candles, i) < len(r) && upReport(r[before(candles, i)], candles[i])))
  ensures [C25] down: forall(i, 2, len(candles)-2, implies(downAt(candles, i), 0 <= before(candles, i) && before(candles, i) + ite(upAt(candles, i), 1, 0) < len(r) &&
      downReport(r[before(candles, i) + ite(upAt(candles, i), 1, 0)], candles[i])))
  ensures [C26] separate: r == nil || fresh(r)
  inv (I int, R []indicators.WilliamFractal) :: len(R) == before(candles, I+2)
  inv (I int, R []indicators.WilliamFractal) :: forall(i, 2, I+2, implies(upAt(candles, i), 0 <= before(candles, i) && before(candles, i) < len(R) && upReport(R[before(candles, i)], candles[i])))
  inv (I int, R []indicators.WilliamFractal) :: forall(i, 2, I+2, implies(downAt(candles, i), 0 <= before(candles, i) && before(candles, i) + ite(upAt(candles, i), 1, 0) < len(R) &&
      downReport(R[before(candles, i) + ite(upAt(candles, i), 1, 0)], candles[i])))
