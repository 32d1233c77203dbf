import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=[]):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
OB='market/orderbook.go'
obstate=[('OrderBook.Asks','sell levels, best (lowest) price first',OB),('OrderBook.Bids','buy levels, best (highest) price first',OB),('OrderBook.MaxDepth','most levels kept per side',OB)]
p('C01','A new order book holds the best levels of each side, best price first',
 'An order book built from any two lists of rows with finite prices and a non-negative maximum depth lists asks by non-decreasing price and bids by non-increasing price. Each side has min(rows given, maximum depth) rows, every one of them a row that was given with its price and volume unaltered, and no row that was left out has a better price than one that was kept. The two sides never exchange rows and the maximum depth is recorded as given.',
 ['inputs'],'all row lists of any length, any finite prices and volumes (ties and unsorted input included), all maximum depths >= 0',
 'TestNewOrderBook builds one book of 10 asks and 9 bids and prints it; it asserts nothing.',
 [OB],[('stable sort of both sides','OrderBook.sort'),('truncation to the maximum depth','OrderBook.sort')],['NewOrderBook'],obstate)
p('C02','Order book sides stay sorted, duplicate-free and depth-limited after updates',
 'Starting from a book whose sides are strictly sorted best-first (asks ascending, bids descending) and hold at most the maximum depth, every update - on either side, of any finite price and volume, accepted or rejected - leaves both sides strictly sorted, free of duplicate prices and within the maximum depth. By induction this holds after every sequence of updates.',
 ['inputs','histories'],'all well-formed books, all updates, hence all update sequences of any length',
 'TestApplyUpdate applies one bid that clears all asks and TestFillOrderBook two updates to an empty book; neither asserts the resulting order.',
 [OB],[('insert / replace / delete at the position of the price','OrderBook.ApplyUpdate'),('truncation','OrderBook.limit')],['OrderBook.ApplyUpdate'],obstate)
p('C03','An order book update never leaves the book crossed and drops only crossed rows',
 'After an ask (bid) update with non-zero volume at price P, no bid (ask) at or beyond P is left, and every bid below P (ask above P) is still there with its price and volume, in the same order. Hence a book whose best bid is below its best ask keeps that after every sequence of updates. A deletion (volume zero) leaves the opposite side exactly as it was.',
 ['inputs','histories'],'all well-formed books and all updates on either side, hence all update sequences',
 'The only crossing case in the tests crosses the whole opposite side; a partial cross, an exact touch and a crossed last row are never exercised.',
 [OB],[('removal of the rows of the opposite side that the update crosses','OrderBook.removeInvalid')],['OrderBook.ApplyUpdate'],obstate)
p('C04','An order book update changes exactly the level it names',
 'An accepted update with non-zero volume at price P leaves exactly one level at P with that volume on its side (unless P is worse than a full book can hold), and an update with volume zero leaves no level at P. Every other level of that side keeps its price and volume; a level may only disappear when it is the worst one pushed out by the maximum depth. An update whose side is neither "ask" nor "bid" is reported as an error and changes nothing.',
 ['inputs','histories'],'all well-formed books with any number of levels, all updates (new best, in between, new worst, existing price, deletion of existing and missing price, unknown side)',
 'The tests apply three updates in total and assert only that no error is returned; replacement, insertion in the middle and deletion are commented out.',
 [OB],[('replace / insert / remove of the row','OrderBook.ApplyUpdate'),('in-place removal','removeElement'),('truncation','OrderBook.limit')],['OrderBook.ApplyUpdate'],obstate)
p('C05','Accumulated volumes always are the running sums of the level volumes',
 'In a book that was just built, and after every accepted update that stores a level or deletes an existing one, the accumulated volume of the k-th level of either side is the sum of the volumes of the first k levels of that side. An update that changes nothing leaves the accumulated volumes as they were.',
 ['inputs','histories'],'all books and all updates of any sequence, both sides, any number of levels',
 'No test reads an accumulated volume.',
 [OB],[('running sum over both sides','OrderBook.accumulate'),('called after construction and after every update','OrderBook.sort, OrderBook.limit')],['NewOrderBook','OrderBook.ApplyUpdate'],obstate)
p('C06','Depth at a price is the volume available up to that price',
 'For a well-formed uncrossed book, the depth at a positive price that lies between the best and worst ask (bid) is the accumulated volume of the last level whose price is not beyond the requested price, that is the total volume of the asks at or below (bids at or above) it. A price that is not positive, or that lies in neither range, is reported as an error. The query never panics, even with an empty side, and does not change the book.',
 ['inputs'],'all well-formed books including empty sides, all finite prices (on a level, between levels, at the ends, outside)',
 'No test calls GetDepth.',
 [OB],[('scan for the last level not beyond the price','OrderBook.GetDepth')],['OrderBook.GetDepth'],obstate)
p('C07','Book overlap is found iff it exists, is symmetric and values all crossing rows',
 'The overlap of two books exists exactly when the best ask of one is below the best bid of the other; otherwise (including empty sides) an error is returned, and never a panic. When it exists the result is the absolute difference between the cost of all asks not above the best bid and the value of the bids not below the best ask, filled from the worst of them upwards up to the volume of those asks. For books that are not crossed themselves the result does not depend on the order of the arguments, and the books are not changed.',
 ['inputs'],'all pairs of books with any number of levels, including empty and fully overlapping sides',
 'Four calls on two fixed pairs are compared with a one-sided inequality that any smaller result satisfies; full overlap and empty sides are not reached.',
 [OB],[('choice of the overlapping direction','CalculateOverlap'),('sums over the overlapping rows','overlapCalculation')],['CalculateOverlap'],obstate)
PO='market/position.go'
postate=[('Position.Quantity','open size',PO),('Position.OpenPrice','average price such that OpenPrice*Quantity is the net amount paid (long) or received (short)',PO),('Position.Trades','IDs of the applied trades, in order',PO)]
p('C08','Position size and net cost account for every applied trade',
 'While a position is open, a trade in its direction adds the trade quantity to the size and price times quantity to size times open price; a smaller trade in the opposite direction subtracts both. So, up to floating-point rounding, over every sequence of trades the size is the net traded quantity and size times open price is the net amount of money traded.',
 ['inputs','histories'],'all open positions with positive size, all trades with positive quantity and any finite price, long and short, hence all trade sequences',
 'TestModifyPosition replays two fixed sequences of three trades.',
 [PO],[('weighted average on increase','Position.add'),('net cost on decrease','Position.substract')],['Position.Modify'],postate)
p('C09','A trade closes a position exactly when it consumes it; larger ones are refused',
 'An opposite trade whose quantity reaches the size of the position (within 0.0001 above it) closes it: it is marked closed with the price and time of the trade and the profit equals size times the price difference, positive for a long position when the price rose and for a short one when it fell. An opposite trade larger than that, a trade of another pair, or one that is neither buy nor sell returns an error and changes nothing at all. A smaller trade never closes the position, and no trade ever reopens one.',
 ['inputs','histories'],'all positions and trades, in particular quantities around the size and around the tolerance',
 'Each of the two fixed sequences closes once with an equal quantity; no test makes a refused trade.',
 [PO],[('pair check and dispatch on type and action','Position.Modify'),('close / refuse decision','Position.substract')],['Position.Modify'],postate)
p('C10','A position keeps its identity and logs every applied trade once, in order',
 'A position created from a trade is open, long for a buy and short for a sell, takes pair, price, quantity and time from the trade, and its log holds just that trade. Every later trade that is applied without error appends its own ID to the log, earlier entries stay, and ID, type, pair, open time and all other descriptive fields never change; the trade itself is not modified.',
 ['inputs','histories'],'all trades and positions, hence all sequences of modifications',
 'Log length and last entry are asserted on two fixed sequences; unchanged fields and earlier entries are not.',
 [PO],[('initialisation','NewPosition'),('append of the trade ID','Position.add, Position.substract')],['NewPosition','Position.Modify'],postate)
p('C11','Unrealized profit is the mark-to-market gain and agrees with the realized one',
 'The unrealized profit of a long position is size times (price - open price), that of any other position is size times (open price - price), and asking for it changes nothing. When a trade closes a position, the recorded profit equals the unrealized profit the position had at the price of that trade.',
 ['inputs'],'all positions and all finite prices',
 'No test calls UnrealizedProfit; realized profit is compared on two closings.',
 [PO],[('gain by direction','Position.UnrealizedProfit'),('realized profit','Position.substract')],['Position.UnrealizedProfit','Position.Modify'],postate)
p('C12','Trade cost, notional and fee always balance',
 'A trade created from price, quantity and cost has a fee such that for a buy cost = price * quantity + fee and for any other action cost = price * quantity - fee. Every other attribute is recorded exactly as given.',
 ['inputs'],'all IDs, times, actions, order types, pairs and finite prices, quantities and costs',
 'TestNewTrade checks one buy; no sell is checked.',
 ['market/trade.go'],[('fee by direction','NewTrade')],['NewTrade'])
p('C13','Order requests are accepted exactly when they are complete',
 'An order request is refused, with an error and no request, exactly when the pair has no base symbol, the action or the order type is missing, a limit order has price zero, or quantity and total are both zero. Otherwise it is created with exactly the given pair, action, type, price, quantity and total and no take-profit or stop-loss.',
 ['inputs'],'all pairs, actions, order types (known or not) and finite amounts',
 'Only valid requests are created in the tests; no refusal is checked.',
 ['market/order_request.go'],[('validation','NewOrderRequest')],['NewOrderRequest'])
p('C14','Completing an order request makes total equal quantity times execution price',
 'Completing a request that has exactly one of quantity and total returns a new request in which total = quantity * execution price (up to rounding), where the execution price is the current price for market and close-position orders and the price of the request for all others. The given amount and every other attribute are unchanged and the original request is never modified. With both or neither amount given an error and no request is returned.',
 ['inputs'],'all requests, all finite non-zero execution prices, all amounts including negative ones',
 'Ten cases with three different numbers; the original is only compared with the copy.',
 ['market/order_request.go'],[('copy, then fill in the missing amount','OrderRequest.CalculateFields')],['OrderRequest.CalculateFields'])
CA='market/candle.go'
p('C15','Each resampled candle summarises exactly the candles it replaces',
 'Every candle produced by resampling has the time and open of the first and the close of the last candle it replaces, their highest high and lowest low, and the sum of their volumes rounded to five decimals. The input candles are not modified.',
 ['inputs'],'all series of candles with timestamps and finite prices below 1e308, any length, spacing, gaps and intervals',
 'TestModifyInterval compares three intervals of one gap-free data set whose highs and lows never lie in a special position.',
 [CA],[('aggregation of one run of candles','compressCandle'),('calls per run','ModifyInterval')],['ModifyInterval'])
p('C16','Resampling partitions the series at the interval boundaries, losing nothing',
 'Resampling two or more candles starts at the first candle whose clock minute fits the interval and from there assigns every candle, in order, to exactly one output candle; a new output candle starts exactly at each candle whose distance in minutes from the first one is a multiple of the interval, and a single candle is returned as it is. It is refused with an error, and never panics, when there are no candles, the interval is not positive, the first two candles are less than a minute apart or their distance in minutes does not divide the interval, or no candle fits.',
 ['inputs'],'all series (with gaps, any length) with bounded timestamps, all intervals',
 'One regular data set starting at a full hour; no gaps, no unaligned start, no empty input.',
 [CA],[('alignment','findFirstIndex'),('boundary test and run bookkeeping','ModifyInterval')],['ModifyInterval'])
p('C17','The minimum interval is the smallest spacing of adjacent candles in minutes',
 'For two or more candles the minimum interval is the smallest absolute time difference between adjacent candles in whole minutes, wherever in the series it occurs; for fewer candles it is zero. The candles are not modified.',
 ['inputs'],'all series of any length and order with bounded timestamps',
 'No test calls GetMinInterval.',
 [CA],[('minimum over adjacent differences','GetMinInterval')],['GetMinInterval'])
CL='market/candle_load.go'
p('C18','Candles saved to a file are loaded back unchanged',
 'When saving a list of candles reports success, loading that file reports success and returns the same candles in the same order, with every time (full 64-bit range) and every price and volume exactly as they were. A file that cannot be created or written is reported, and nothing else makes saving fail.',
 ['inputs','fault_sequences'],'all candle lists with finite values of any magnitude, all times, any failing write',
 'The tests only load four prepared files with 2021 timestamps; nothing is ever saved.',
 [CL],[('one line per candle, all fields in order','SaveCandlesToFile'),('field-wise parsing','LoadCandlesFromFile')],['SaveCandlesToFile','LoadCandlesFromFile'],[('candle file','one line {time open high low close volume} per candle',CL)])
p('C19','Loading candles never panics and never hides a malformed file',
 'Loading any readable file returns either one candle per line or an error; lines that are too short, have a wrong number of fields or a field that is not a number, and failures to open or read the file, are reported as errors and never panic.',
 ['inputs','fault_sequences'],'all file contents and read failures',
 'Only four well-formed files are loaded.',
 [CL],[('line and field checks','LoadCandlesFromFile')],['LoadCandlesFromFile'])
MA='indicators/ma.go'
p('C20','Moving average: one mean per full window, in order',
 'For n candles and a period between 1 and n the simple moving average has exactly n - period + 1 values and the k-th is the arithmetic mean of the closes of candles k to k + period - 1. No candles, a period larger than n, or a period below 1 give an error and no values.',
 ['inputs'],'all candle lists of any length with finite closes and all periods',
 'One data set with period 20, compared with tolerance 0.1.',
 [MA],[('sliding window','MovingAverage'),('mean','average')],['MovingAverage'])
p('C21','Exponential moving average follows its recurrence over every candle',
 'For n candles and a period between 1 and n the exponential moving average has exactly n - period values, one for each candle after the first period ones; with p = 2/(period+1) each is p * close + (1-p) * previous, where the previous of the first value is the mean of the first period closes. No candles, a period larger than n, or a period below 1 give an error and no values.',
 ['inputs'],'all candle lists of any length with finite closes and all periods',
 'TestExponentialMovingAverage fails on the base commit (expected values from a longer history) and only checks one period otherwise.',
 [MA],[('seed and recurrence','ExponentialMovingAverage')],['ExponentialMovingAverage'])
p('C22','Smoothed moving average follows its recurrence over every candle',
 'For n candles and a period between 1 and n the smoothed moving average has exactly n - period + 1 values; the first is the mean of the first period closes and each further one is (previous * (period - 1) + close) / period with the close of the next candle. No candles, a period larger than n, or a period below 1 give an error and no values.',
 ['inputs'],'all candle lists of any length with finite closes and all periods',
 'One 12-candle list with period 2, checked with a one-sided tolerance.',
 [MA],[('seed and recurrence','SmoothedMovingAverage'),('window sum','closingSum')],['SmoothedMovingAverage'])
p('C23','RSI: one value in [0,100] per window, from gains and losses only',
 'For at least 14 candles and a period between 1 and n - 1 the RSI has exactly n - period values, the k-th computed from the period price changes of candles k to k + period: 100 - 100/(1 + gains/losses), 100 without losses, 50 without any change, always between 0 and 100. Fewer candles or any other period give an error and no values.',
 ['inputs'],'all candle lists of any length with finite closes and all periods',
 'TestRSI only checks that something is returned for one data set.',
 ['indicators/rsi.go'],[('windowing','RSI'),('gains and losses of a window','calculateRSI')],['RSI'])
p('C24','Weighted volatility follows its recurrence and stays within the range of spreads',
 'The exponentially weighted volatility starts at zero and after each candle is beta * previous + (1 - beta) * (high - low), over all candles in order. For a beta in [0,1] and candles whose high is at least their low it is never negative and never exceeds the largest spread.',
 ['inputs'],'all candle lists of any length, all finite betas',
 'One data set with beta 0.5.',
 ['indicators/ewv.go'],[('recurrence','ExponentialWeightedVolatility')],['ExponentialWeightedVolatility'])
p('C25','Fractals are reported exactly where the pattern is, in order',
 'An up (down) fractal is reported for a candle exactly when the two candles before it have strictly lower highs (higher lows) and, after it, two candles with strictly lower highs (higher lows) come before any candle with a higher high (lower low), and the candle has at least two before and two after it. Reports come in candle order, up before down for the same candle, and carry the time and the high (low) of that candle.',
 ['inputs'],'all candle lists of any length (ties, pattern at the end of the data, interleaved equal highs included)',
 'Two lists; only the number of fractals is compared.',
 ['indicators/williams_fractals.go'],[('pattern test','findFractal'),('ordering','findFractals, WilliamFractals')],['WilliamFractals'])
p('C26','Indicators are total and leave their input untouched',
 'Every indicator returns - a value or an error - for every candle list, nil and empty included, and every period; none of them panics, reads outside the list, or modifies a candle, and a returned error always comes with no values.',
 ['inputs'],'all candle lists of any length and all integer periods',
 'Tests use ample well-formed data and valid periods; no test passes nil, an empty list or a non-positive period.',
 ['indicators/ma.go','indicators/rsi.go','indicators/ewv.go','indicators/williams_fractals.go'],[('argument checks and loop bounds','all indicators')],['MovingAverage','ExponentialMovingAverage','SmoothedMovingAverage','RSI','ExponentialWeightedVolatility','WilliamFractals'])
ST='strategy/actions.go'
p('C27','Queued strategy actions are all kept, each under its own fresh ID',
 'Adding any number of create-order, update-order, cancel-order, update-position or close-position actions keeps every action queued before and adds one entry per given action, stored under a newly generated ID that the entry also carries, with all its other attributes as given. Adding annotations appends them in order after the existing ones; a new annotation has a newly generated ID and carries the given time, price, label and tooltip. The other kinds of actions and the caller\'s own list are not changed.',
 ['inputs','histories'],'all action lists of any length, all previous contents, nil collections included',
 'The strategy package has no tests.',
 [ST,'strategy/order_actions.go','strategy/position_actions.go','strategy/annotation.go'],[('ID generation','GenerateID'),('store under the ID','Actions.Add*')],['Actions.AddCreateOrders','Actions.AddUpdateOrders','Actions.AddCancelOrders','Actions.AddUpdatePositions','Actions.AddClosePositions','Actions.AddAnnotations','NewAnnotation'])
p('C28','Stored models replace their whole state, or nothing, on update',
 'Updating an order, position, trade or annotation from another one of the same kind makes it equal to that one in every field and leaves the source unchanged; updating it from anything else returns an error and changes nothing. The ID reported for a model is always its ID field and its schema is the table "orders", "positions", "trades" or "annotations", whichever is for its kind, with primary key "id".',
 ['inputs'],'all models and all values passed as an update',
 'No test calls Update, GetID or GetSchema.',
 ['market/order.go','market/position.go','market/trade.go','strategy/annotation.go'],[('type check and assignment','Update'),('identity','GetID, GetSchema')],['Order.Update','Position.Update','Trade.Update','Annotation.Update'])
p('C29','Asset constructors return exactly the asset that was asked for',
 'Creating an asset succeeds exactly when symbol and name are both non-empty and then carries precisely them. Looking up a crypto, forex or stock symbol returns an asset with that very symbol and a non-empty name, the same one each time and a different name for each symbol, or an error and an empty asset; no symbol is known to two of the three catalogues.',
 ['inputs'],'all strings as symbol and name',
 'Three symbols are looked up by the tests, ignoring errors.',
 ['market/asset.go','market/asset_helpers.go'],[('validation','NewAsset'),('catalogues','NewCryptoAsset, NewForexAsset, NewStockAsset')],['NewAsset','NewCryptoAsset','NewForexAsset','NewStockAsset'])
p('C30','Pair symbols are base, separator, quote - and the pair table agrees with them',
 'The symbol of a pair is its base symbol followed by the separator and the quote symbol, or just the base symbol when it has no quote. Every entry of the pair table is listed under the symbol, with empty separator, of the very pair it maps to, and has a non-empty base and quote; creating a pair keeps both assets as given.',
 ['inputs','configurations'],'all pairs and separators, and each of the nearly 2000 table entries',
 'Two pairs are formatted; no test looks at the table.',
 ['market/pair.go','market/pair_mappings.go'],[('formatting','Pair.Symbol'),('table','PairMappings')],['Pair.Symbol','PairMappings','NewPair'])
p('C31','An order is open unless it was fulfilled or canceled',
 'An order counts as open exactly when its status is neither fulfilled nor canceled - whatever its other fields - and asking does not change it.',
 ['inputs'],'all orders and all status values, unknown ones included',
 'No test calls IsOpen.',
 ['market/order.go'],[('status test','Order.IsOpen')],['Order.IsOpen'])
p('C32','Candle times and raw dates denote the right instant',
 'The local time of a tick and its time in any named location are the instant of its candle; an unknown location is reported as an error. A raw date is accepted exactly when the date followed by midnight UTC is a valid RFC 3339 timestamp and then denotes that very instant.',
 ['inputs'],'all candle times, locations and date strings',
 'Neither package has tests.',
 ['strategy/strategy.go','utils/date.go'],[('conversion','Tick.GetLocalTime, Tick.GetLocationTime'),('parsing','RawDateToRFC3339')],['Tick.GetLocalTime','Tick.GetLocationTime','RawDateToRFC3339'])
p('C33','Describing any value as text never fails',
 'Formatting any order, order request, order book, row, position, trade, ticker, candle, balance, asset, pair, fractal or annotation as text never panics - whatever the contents, short or empty IDs and missing references included - and never changes the value.',
 ['inputs'],'all values of all printable types',
 'Only an order book is printed by the tests.',
 ['market','strategy/annotation.go','indicators/williams_fractals.go'],[('String methods','all String methods')],['String methods of all packages'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
