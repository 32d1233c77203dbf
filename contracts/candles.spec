// Resampling of candles.

macro okTimes(candles) = forall(k, 0, len(candles), -4503599627370496 <= candles[k].Time && candles[k].Time <= 4503599627370496)
macro okPrices(candles) = forall(k, 0, len(candles), -1e308 < candles[k].High && candles[k].Low < 1e308)

rec highest(a arr[market.Candle], lo int, hi int) float64 = ite(hi <= lo + 1, a[lo].High, max(highest(a, lo, hi-1), a[hi-1].High))
rec lowest(a arr[market.Candle], lo int, hi int) float64 = ite(hi <= lo + 1, a[lo].Low, min(lowest(a, lo, hi-1), a[hi-1].Low))
rec volumes(a arr[market.Candle], lo int, hi int) float64 = ite(hi <= lo, 0, volumes(a, lo, hi-1) + a[hi-1].Volume)

// c summarises candles[lo:hi]
macro summary(c, candles, lo, hi) = c.Time == old(candles[lo].Time) && c.Open == old(candles[lo].Open) && c.Close == old(candles[hi-1].Close) &&
      c.High == highest(old(arr(candles)), off(candles)+lo, off(candles)+hi) && c.Low == lowest(old(arr(candles)), off(candles)+lo, off(candles)+hi) &&
      c.Volume == rounded5(volumes(old(arr(candles)), off(candles)+lo, off(candles)+hi))

func market.compressCandle(candles, start, end) (c, err)
  requires range: 0 <= start && start < end && end <= len(candles)
  requires finite: okPrices(candles)
  modifies nothing
  ensures no-error: err == nil
  ensures summary: summary(c, candles, start, end)
  inv (F float64, I int, J any int, C any []market.Candle) :: F == ite(I <= J, pre(F), highest(arr(C), off(C)+J, off(C)+I))
  inv (F float64, I int, J any int, C any []market.Candle) :: F == ite(I <= J, pre(F), lowest(arr(C), off(C)+J, off(C)+I))
  inv (F float64, I int, C any []market.Candle) :: F == ite(I <= 0, pre(F), highest(arr(C), off(C), off(C)+I))
  inv (F float64, I int, C any []market.Candle) :: F == ite(I <= 0, pre(F), lowest(arr(C), off(C), off(C)+I))
  inv (F float64, I int, J any int, C any []market.Candle) :: F == volumes(arr(C), off(C)+J, off(C)+I)
  inv (F float64, I int, C any []market.Candle) :: F == volumes(arr(C), off(C), off(C)+I)

// minutes of the clock at which a series may start
rec fitMod(iv int) int = ite(iv > 60, ite(iv % 60 == 0, 60, iv % 60), iv)
rec fits(t int64, iv int) bool = minute(timeunix(t, 0)) % fitMod(iv) == 0 || minute(timeunix(t, 0)) == 0
rec firstFit(a arr[market.Candle], i int, n int, iv int) int = ite(i >= n, n, ite(fits(a[i].Time, iv), i, firstFit(a, i+1, n, iv)))

func market.findFirstIndex(candles, minuteInterval) (r, err)
  requires interval: minuteInterval > 0
  modifies nothing
  ensures first: implies(err == nil, 0 <= r && r < len(candles) && off(candles) + r == firstFit(old(arr(candles)), off(candles), off(candles)+len(candles), minuteInterval))
  ensures none: implies(err != nil, firstFit(old(arr(candles)), off(candles), off(candles)+len(candles), minuteInterval) == off(candles)+len(candles))
  inv (I int) :: firstFit(old(arr(candles)), off(candles), off(candles)+len(candles), minuteInterval) == firstFit(old(arr(candles)), off(candles)+I, off(candles)+len(candles), minuteInterval)

func market.GetMinInterval(candles) (r)
  requires times: okTimes(candles)
  modifies [C17] nothing
  ensures [C17] few: implies(len(candles) < 2, r == 0)
  ensures [C17] smallest: implies(len(candles) >= 2, r == minDiff(old(arr(candles)), off(candles), off(candles)+len(candles)) / 60)
  inv (F float64, I int) :: F == ite(I < 2, pre(F), real(minDiff(old(arr(candles)), off(candles), off(candles)+I)))
  inv (F float64, I int) :: F == real(minDiff(old(arr(candles)), off(candles), off(candles)+I))
  inv (F int, I int) :: F == minDiff(old(arr(candles)), off(candles), off(candles)+I)
  inv (F int, I int) :: F == ite(I < 2, pre(F), minDiff(old(arr(candles)), off(candles), off(candles)+I))

rec minDiff(a arr[market.Candle], lo int, hi int) int = ite(hi <= lo + 2, abs(a[lo+1].Time - a[lo].Time), min(minDiff(a, lo, hi-1), abs(a[hi-1].Time - a[hi-2].Time)))

// candle k starts a new group: its distance from the first candle is a multiple of the interval
rec startsAt(a arr[market.Candle], f int, k int, iv int) bool = abs((a[k].Time - a[f].Time) / 60) % iv == 0
// groups after the first among candles f..k
rec groupOf(a arr[market.Candle], f int, k int, iv int) int = ite(k <= f, 0, groupOf(a, f, k-1, iv) + ite(startsAt(a, f, k, iv), 1, 0))
// first candle of the group of candle k
rec groupStart(a arr[market.Candle], f int, k int, iv int) int = ite(k <= f, f, ite(startsAt(a, f, k, iv), k, groupStart(a, f, k-1, iv)))

macro first(candles, iv) = firstFit(old(arr(candles)), off(candles), off(candles)+len(candles), iv)
macro group(candles, k, iv) = groupOf(old(arr(candles)), first(candles, iv), off(candles)+k, iv)
macro start(candles, k, iv) = groupStart(old(arr(candles)), first(candles, iv), off(candles)+k, iv) - off(candles)
// the groups that end before candle n are all in r
macro compressed(r, candles, iv, n) = forall(k, first(candles, iv) - off(candles) + 1, n, implies(startsAt(old(arr(candles)), first(candles, iv), off(candles)+k, iv),
      0 <= group(candles, k, iv) - 1 && group(candles, k, iv) - 1 < len(r) && summary(r[group(candles, k, iv) - 1], candles, start(candles, k-1, iv), k)))

macro spacing(candles) = (candles[1].Time - candles[0].Time) / 60

func market.ModifyInterval(candles, minuteInterval) (r, err)
  opaque firstFit by market.findFirstIndex
  requires times: okTimes(candles)
  requires finite: okPrices(candles)
  modifies [C15] nothing
  ensures [C16] refused: implies(len(candles) == 0 || minuteInterval <= 0, err != nil)
  ensures [C16] refused-spacing: implies(len(candles) >= 2 && minuteInterval > 0 && spacing(candles) == 0, err != nil)
  ensures [C16] refused-multiple: implies(len(candles) >= 2 && minuteInterval > 0 && spacing(candles) != 0 && minuteInterval % spacing(candles) != 0, err != nil)
  ensures [C16] refused-unaligned: implies(len(candles) >= 2 && minuteInterval > 0 && first(candles, minuteInterval) == off(candles) + len(candles), err != nil)
  ensures [C16] accepted: implies(len(candles) >= 2 && minuteInterval > 0 && spacing(candles) > 0 && minuteInterval % spacing(candles) == 0 &&
      first(candles, minuteInterval) < off(candles) + len(candles), err == nil)
  ensures [C16] single: implies(len(candles) == 1 && minuteInterval > 0, err == nil && len(r) == 1 && r[0] == candles[0])
  ensures [C16] count: implies(err == nil && len(candles) >= 2, len(r) == group(candles, len(candles)-1, minuteInterval) + 1)
  ensures [C15,C16] groups: implies(err == nil && len(candles) >= 2, compressed(r, candles, minuteInterval, len(candles)))
  ensures [C15,C16] last-group: implies(err == nil && len(candles) >= 2, summary(r[len(r)-1], candles, start(candles, len(candles)-1, minuteInterval), len(candles)))
  inv (R []market.Candle, I int) :: len(R) == group(candles, I - 1, minuteInterval)
  inv+ (R []market.Candle, I int) :: implies(I <= len(candles), len(R) == group(candles, I - 1, minuteInterval))
  inv (S int, I int) :: S == start(candles, I - 1, minuteInterval)
  inv+ (S int, I int) :: implies(I <= len(candles), S == start(candles, I - 1, minuteInterval))
  inv (R []market.Candle, I int) :: compressed(R, candles, minuteInterval, I)
  inv+ (R []market.Candle, I int) :: implies(I <= len(candles), compressed(R, candles, minuteInterval, I))
  inv+ (R []market.Candle, I int) :: implies(I > len(candles), len(R) == group(candles, len(candles)-1, minuteInterval) + 1)
  inv+ (R []market.Candle, I int) :: implies(I > len(candles), compressed(R, candles, minuteInterval, len(candles)) &&
      summary(R[len(R)-1], candles, start(candles, len(candles)-1, minuteInterval), len(candles)))
  inv (S int) :: first(candles, minuteInterval) - off(candles) <= S
  inv (S int, I int) :: S < I
