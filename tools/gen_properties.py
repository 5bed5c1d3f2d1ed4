#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
OB="program/src/state/orderbook.rs"; CB="program/src/state/critbit.rs"; EQ="program/src/state/event_queue.rs"
NO="program/src/processor/new_order.rs"; CO="program/src/processor/cancel_order.rs"; MC="program/src/processor/mass_cancel_orders.rs"
CE="program/src/processor/consume_events.rs"; CM="program/src/processor/create_market.rs"; CL="program/src/processor/close_market.rs"
MS="program/src/state/market_state.rs"; ST="program/src/state.rs"; UT="program/src/utils.rs"; IN="program/src/instruction.rs"
ER="program/src/error.rs"; PR="program/src/processor.rs"; EN="program/src/entrypoint.rs"
SCEN = "The unit tests run four hand-written order histories (test_ob_0, test_ob_small_prices, two booting tests) and one functional history of five instructions; "
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

BOOK=("resting orders","one critbit tree of orders per side: leaf nodes carry order id and remaining base quantity, callback info sits beside them","bids and asks accounts; "+CB)
QUEUE=("event queue","circular buffer of fill and out events with head, count and order sequence number","event queue account; "+EQ)

add("C01","Price-time priority: best price first, then oldest first, within the limit",
 "Every trade of an incoming order is against the resting order of the opposite side that, at that moment, has the best price and, among orders of that price, was accepted earliest; no better or older order is ever skipped or left behind a worse one. No trade happens against an order whose price is worse than the incoming order's limit price. This holds whatever was posted, cancelled, traded or evicted before and however large the prices and the market's order sequence numbers are.",
 ["histories","inputs"],"every reachable order book, every incoming order, every position of the market's order sequence counter",
 SCEN+"they never hold more than two orders per side and never two orders of one price, so the order of orders at one price level, and the order across many levels after removals, is never exercised.",
 [OB,CB,EQ],[("OrderBookState::find_bbo / new_order matching loop",OB),("order id = price << 64 | (bid: !seq, ask: seq)",EQ+" gen_order_id"),("find_min / find_max",CB)],[BOOK,QUEUE],["fill events appended by new_order","resting orders before the instruction"])

add("C02","Each trade has the exact size and rounded quote; matching never stops early",
 "The base size of each trade is the largest possible: the minimum of the resting order's remaining size, the incoming order's remaining base budget and what its remaining quote budget buys at the resting order's price (rounded down). The quote size is that base size times the resting order's price (32-bit fixed point), rounded up when the incoming order is a bid and down when it is an ask, and neither size is ever zero. The incoming order goes on trading with the best crossing order until no order crosses, its match limit is reached, or one of its budgets (or rounding) makes the next trade's base or quote size zero.",
 ["inputs","histories"],"every resting book, every base/quote budget, limit price, tick and minimum size, including values near 0 and near 2^64",
 SCEN+"all but one use whole-number prices, so rounding, quote-limited trades, tiny and huge quantities are sampled at one or two points.",
 [OB],[("base_trade_qty / quote_maker_qty computation in new_order",OB),("fp32_div, fp32_mul_ceil, fp32_mul_floor","bonfida-utils fp_math")],[BOOK],["fill events","remaining size of the resting orders"])

add("C03","The order summary is exact and never exceeds the order's caps",
 "For every successful new order the returned totals equal the sum of the trades it made plus what it posted (posted quote = posted base times limit price, rounded up for a bid and down for an ask), and never exceed the maximum base and quote quantities of the order. The reported posted quantity and order id describe exactly the order that was added to the book, and no order id is reported if and only if nothing was added.",
 ["inputs","histories"],"every resting book and every new order, with every combination of post-only, post-allowed, self-trade behaviour, match limit and budgets",
 SCEN+"the summary is asserted for about a dozen concrete orders, none of which trades and posts with a fractional price, is evicting after trading, or is refused by a full book after trading.",
 [OB,NO],[("OrderSummary construction at the three exits of new_order",OB)],[BOOK,QUEUE],["OrderSummary returned by new_order","fill events","resting orders before and after"])

add("C04","The resting book is never crossed or locked",
 "After every instruction, the best resting bid price is strictly below the best resting ask price whenever both sides are non-empty.",
 ["histories"],"every sequence of new orders (all flags, limits and budgets), cancellations, evictions and event consumption",
 SCEN+"no test checks the spread after an order stopped by its match limit, by a zero-size trade, or by a self-trade cancellation.",
 [OB],[("crossed flag in new_order",OB)],[BOOK],["resting orders of both sides after each instruction"])

add("C05","Events, summaries and cancellations fully account for every resting order",
 "A mirror of the book maintained only from the program's outputs (orders reported as posted, fill and out events read from the event queue in order, and cancelled orders) always equals the real book: same orders, same remaining sizes. So each order's posted base quantity equals the sum of its fills, plus the quantity reported when it was removed or cancelled, plus what still rests; every order leaves the book exactly once and is reported with its own id, side and quantity; orders not named by an output are untouched.",
 ["histories"],"every history of new orders, cancellations, mass cancellations and event consumption on a market",
 SCEN+"events are compared in three places, each time one event; no test reconciles events with the book over a history.",
 [OB,EQ,CB],[("push_back of FillEvent / OutEvent next to each change of a leaf",OB),("remove_by_key / insert_leaf",CB)],[BOOK,QUEUE],["event queue contents","OrderSummary","resting orders"])

add("C06","Posting rules: what may rest on the book, and with which size",
 "A post-only order never trades, and an order that may not post never rests. Otherwise, when an order stops matching because nothing on the other side crosses its limit price, it is posted (room permitting) with base quantity equal to the smaller of its remaining base and the base its remaining quote buys at its limit price (rounded down) if that is at least the market's minimum order size, and is not posted if it is less; an order that still crosses is never posted. An order whose limit price is not a multiple of the tick size, or which may post with a limit price below one tick, is rejected, so every resting order has a price that is a positive multiple of the tick size.",
 ["inputs","histories"],"every book, order flags, budgets, limit price, tick size and minimum order size",
 SCEN+"post_only is false in every test and post_allowed is true in all but two, so refusal, post-only crossing and quote-limited posting are never exercised.",
 [OB,NO],[("post_only / crossed / post_allowed decision",OB),("limit_price checks",NO+" process"),("base_qty_to_post",OB)],[BOOK],["resting orders before and after","error codes"])

add("C07","Self-trade behaviour is honoured for orders of the same owner",
 "Two orders belong to the same owner exactly when their callback identifiers are equal, whatever else the callback information contains. When an incoming order reaches an order of its own owner that it would trade with: with decrement-take they trade as if the owners differed; with cancel-provide the resting order is removed with an out event carrying its full remaining size and no trade, and matching goes on behind it; with abort the whole instruction fails with the self-trade error. Orders of other owners are matched normally under all three, and own orders that are not reached are left alone.",
 ["histories","inputs"],"every placement of own and foreign orders in the book, every self-trade behaviour, match limit and budget, and callback information whose identifier is only a part of it",
 SCEN+"cancel-provide is reached once with a single own order; abort is never reached; callback information is always its own identifier.",
 [OB],[("self-trade branch of new_order",OB),("CallbackInfo::as_callback_id",OB)],[BOOK],["fill and out events","error code","resting orders after"])

add("C08","The match limit bounds the orders touched, and nothing is posted past it",
 "An incoming order makes at most its match limit of trades and self-trade removals in total; the removal of an order that a trade emptied or left too small counts with that trade. If matching stops because the limit is reached, everything the order did not trade is dropped: nothing is posted. Matching does not stop for the limit before that many trades and self-trade removals were made.",
 ["inputs","histories"],"every book and every match limit from 0 up, with all self-trade behaviours and flags",
 SCEN+"the match limit is 10 in unit tests that have at most two orders to match, so the limit is never the reason to stop.",
 [OB],[("match_limit countdown in new_order",OB)],[BOOK],["number of makers in the new events","OrderSummary.posted_order_id"])

add("C09","A full side evicts only its least aggressive order, and only for a better price",
 "When an order is to be posted on a side whose account is full, it is posted only if its price is strictly better than that side's worst price; then exactly one order is evicted, the one of worst price (and, at that price, the most recently accepted), it is reported by an out event with its full remaining size, and every other order stays. If its price is not strictly better the order is not posted and the book stays as it was after the order's trades. While a side has room nothing is ever evicted or refused for lack of space.",
 ["histories"],"every reachable full or nearly full side, after any history of posts, fills, cancellations and evictions, and every incoming order",
 SCEN+"eviction is tested once per side on a book of two orders of different prices that never saw a removal.",
 [OB,CB],[("SlabOutOfSpace branch of new_order",OB),("allocate_leaf / free_leaf, allocate_inner_node / free_inner_node",CB)],[BOOK],["out events with the incoming order's side","resting orders after"])

add("C10","Cancelling removes exactly that order, or reports that it does not exist",
 "Cancelling the id of a resting order removes that order and nothing else, and reports its remaining base quantity and the quote value of it at its price (rounded down). Cancelling any other id (never issued, already filled, evicted or cancelled, or with only some bits in common with a resting one) fails with the order-not-found error and changes nothing. The event queue is not affected either way.",
 ["histories","inputs"],"every reachable book and every 128-bit order id, in particular ids of orders that were removed before",
 SCEN+"one order is cancelled in the functional test, on a book that holds only it; cancelling an id that does not exist is never tried.",
 [CO,CB],[("remove_by_key",CB),("get_side_from_order_id",ST)],[BOOK],["result of cancel_order","resting orders after"])

add("C11","Mass cancellation equals cancelling each id in turn, all or nothing",
 "Cancelling a list of order ids has the same effect on the book as cancelling them one by one in the given order, for any mix of bids and asks, and reports the sums of their remaining base quantities and quote values. If any id in the list does not exist or occurs twice, the instruction fails with the order-not-found error; if a sum does not fit in 64 bits it fails with an error too; a failed instruction never aborts the program. The empty list succeeds with zero totals.",
 ["inputs","histories"],"every reachable book and every list of ids up to the explored length, with duplicates, missing ids and extreme quantities",
 "No test calls mass cancellation at all.",
 [MC,CB],[("loop over order_ids in process",MC)],[BOOK],["result of mass_cancel_orders","resting orders after"])

add("C12","The event queue is first-in first-out and exactly-once",
 "Events are recorded in the order in which they happened and are seen by readers exactly once each until consumed: consuming n events removes the min(n, length) oldest events and changes nothing else, and no instruction alters, reorders, drops or duplicates an unconsumed event. This holds for every fill level and every wrap-around position of the queue.",
 ["histories"],"every history of event-producing instructions and consumptions, every queue capacity, head position, fill level and every count to consume up to 2^64-1",
 "test_event_queue_0 fills a queue of 100 once, never pops and never wraps; the functional test consumes from an unwrapped queue.",
 [EQ,CE],[("push_back, pop_n, peek_at, iter",EQ),("consume_events::process",CE)],[QUEUE],["event queue contents before and after each instruction"])

add("C13","A full event queue never loses an event: the instruction fails instead",
 "An instruction whose events do not all fit in the free slots of the event queue fails with the queue-full error, and one whose events do fit never fails for that reason. Unconsumed events are never overwritten, and as many events as the queue account has slots can be outstanding at once.",
 ["histories","inputs"],"every fill level and head position of the queue, every instruction that produces 0 to many events, every queue capacity",
 "Only the internal push on a full queue is tested; no test drives an order into a queue that is full or almost full.",
 [EQ,OB],[("EventQueue::full / push_back",EQ),("EventQueueFull mapping at the four push sites",OB)],[QUEUE],["error code","event queue contents"])

add("C14","Order ids are unique for the life of the market and encode price and side",
 "No two orders posted on a market ever get the same id, even after the earlier one is gone. The upper 64 bits of an id are the order's limit price, and the id tells the side of the book on which the order rests.",
 ["histories"],"every history on a market, every limit price, every position of the order sequence counter up to 2^63",
 SCEN+"ids are only compared with themselves.",
 [EQ,ST],[("gen_order_id / gen_seq_num",EQ),("get_side_from_order_id",ST)],[QUEUE],["posted_order_id in OrderSummary","ids in the book"])

add("C15","Instructions only accept the market's own accounts, each in its own role",
 "Every instruction on a market (new order, cancel, mass cancel, consume events, close) succeeds only if the market account is owned by the program and is a live market, and the event queue, bids and asks accounts it takes are exactly the ones the market was created with, each in its role; the trading instructions and consume events also require each of these accounts to be owned by the program. Any other combination (accounts of another market, swapped roles, look-alikes owned by someone else, uninitialised or closed accounts) is rejected and changes no account.",
 ["inputs","configurations"],"every assignment of accounts from several markets, look-alikes and junk to the account roles of every instruction",
 "No test passes a wrong account to any instruction.",
 [NO,CO,MC,CE,CL,UT,MS],[("perform_checks / check_accounts in every processor",NO),("account tags in from_buffer",MS)],[("MarketState","keys of the event queue, bids and asks accounts, tick size, minimum size",MS)],["result of each instruction","account bytes before and after"])

add("C16","Market creation: only on fresh, valid accounts; result is empty, usable, fixed",
 "Creating a market succeeds only if tick size and minimum order size are positive, the queue, bids and asks accounts are owned by the program, all four accounts are rent-exempt, distinct, do not carry the tag of an account in use or closed, and are sized so that the market is usable; anything else, including creating over an existing or closed market, is rejected and changes nothing. A market created on zeroed accounts is empty, immediately accepts orders on both sides, and records exactly the given parameters and accounts, which no later instruction other than closing ever changes. Accounts of the sizes the crate computes for n orders or n events hold exactly that many.",
 ["inputs","histories","configurations"],"every combination of parameters, account sizes, owners, balances, initial tags and aliasing, and every later history",
 "Tests only create markets with one valid configuration.",
 [CM,MS,EQ,CB],[("create_market::process",CM),("check_buffer_size",EQ)],[("MarketState","market configuration",MS)],["result of create_market","market account bytes","result of the first orders"])

add("C17","Closing needs an empty drained market, returns all lamports, and is final",
 "Closing a market succeeds if and only if both sides of the book and the event queue are empty; otherwise it fails with the market-still-active error and changes nothing. On success the whole lamport balance of the market, event queue, bids and asks accounts moves to the target account and none is lost or created. After that no instruction on these accounts ever succeeds again, including creating a market on them, and no reader of the crate takes any of the four accounts for a live one.",
 ["histories","inputs"],"every reachable market state, every lamport distribution, every later instruction",
 "The functional test closes one empty market once and does not look at balances or try anything afterwards.",
 [CL,MS,ST],[("close_market::process",CL),("AccountTag::Disabled",ST)],[("lamport balances","account balances of market, queue, bids, asks and target",CL)],["result of close_market","lamports","results of later instructions","results of the from_buffer readers"])

add("C18","Each side of the book is an exact ordered map for any set of keys",
 "After any sequence of insertions and removals of distinct 128-bit order ids, one side of the book holds exactly the orders inserted and not removed, each with its own quantity and callback information; its minimum, maximum, lookup by id and ordered traversal agree with a sorted map; and its internal nodes are conserved: none is lost, shared or doubly free, and every tree edge is consistent with the ids below it.",
 ["histories","inputs"],"every insertion and removal sequence over adversarial id sets (ids that differ in any bit position, share long prefixes, or are extreme), for every small capacity and for books of hundreds to tens of thousands of orders",
 "simulate_operations runs one random history in a slab of 10,000 uniformly random keys: it never fills the slab, and random 128-bit keys share only short prefixes.",
 [CB],[("insert_leaf, remove_by_key, find_min_max, walk_down",CB),("free lists and bump indexes",CB)],[BOOK],["slab account bytes","find_min/find_max/find_by_key/into_iter"])

add("C19","Removed orders leave no trace: behaviour depends only on visible state",
 "How a market responds to an instruction depends only on its parameters, the resting orders, the unconsumed events and the order sequence counter, not on the history that led there. A market whose orders were posted, filled, cancelled and evicted many times accepts as many orders as a fresh one of the same size and gives the same results, events and book for every instruction as a freshly created market holding the same resting orders.",
 ["histories"],"every history up to the explored depth, every next instruction of the probe alphabet",
 SCEN+"no test compares a used market with a fresh one or refills a book after removals.",
 [CB,EQ,OB],[("free_leaf / allocate_leaf / free_inner_node / allocate_inner_node",CB),("pop_n",EQ)],[BOOK,QUEUE],["results, events and book of the used and of the fresh market"])

add("C20","No valid instruction on a reachable market ever aborts the program",
 "Every new order, cancellation, mass cancellation, event consumption and close with well-formed accounts and arbitrary parameter values returns either success or an error code on every reachable market state; it never panics, overflows, indexes out of bounds or runs forever.",
 ["histories","inputs"],"every reachable market state and every parameter value from a boundary alphabet covering 0, 1, powers of two, minimum/tick neighbours and 2^64-1 (2^128-1 for ids)",
 SCEN+"parameters are mid-range values; no error path except the full book is taken.",
 [OB,CB,EQ,NO,CO,MC,CE,CL],[("unwrap / indexing / unchecked arithmetic in the processors and data structures",OB)],[BOOK,QUEUE],["outcome of each instruction (success, error, panic)"])

add("C21","Instructions survive the wire: builders, encoding and dispatch agree",
 "An instruction built with the crate's instruction builders, executed by the program's entry point, has the effect of the operation it was built for with exactly the given parameters and accounts, and the return register receives exactly the order summary that operation produces (or none). Instruction data with an unknown operation code, truncated or (for operations that take parameters) trailing parameter bytes, or an invalid enumeration or flag byte is rejected without any effect.",
 ["inputs","programs"],"every instruction builder, every parameter from the boundary alphabet, every operation byte, every truncation and extension of valid data, every value of every enumeration and flag byte",
 "The functional test drives five of the six builders once each with one parameter set; the mass-cancel builder and malformed data are never tried.",
 [IN,PR,EN],[("instruction builders",IN),("process_instruction dispatch",PR),("register serialisation",EN)],[],["account bytes and register after process_instruction versus the direct call"])

add("C22","Read-side queries agree with the true contents of the book and the queue",
 "On every reachable market: the reported spread and best bid/ask are the true best prices of each side (none when empty); iterating a side in ascending or descending order yields every resting order exactly once in that order; looking up an id finds exactly the resting order with that id; the reported tree depth is the true depth; and peeking, iterating and measuring the event queue agree with each other and with the unconsumed events.",
 ["histories"],"every reachable market state and every query argument from its alphabet",
 SCEN+"queries are exercised on one or two states; get_spread's value is never asserted; the public ordered iterator is never called.",
 [UT,OB,CB,EQ],[("get_spread, find_bbo",OB),("SlabIterator, find_by_key, get_depth",CB),("peek_at, iter, len, is_empty",EQ)],[BOOK,QUEUE],["return values of the public read functions"])

add("C23","Tick rounding returns the nearest valid tick multiple on the right side",
 "Rounding a price for a bid returns the largest multiple of the tick size not above it, and for an ask the smallest multiple not below it, for every tick size and every price for which that multiple fits in 64 bits. The result is never a price the program would reject as not being a tick multiple, and rounding an already valid price returns it unchanged.",
 ["inputs"],"every tick size and price in an exhaustive small range and around every power of two and the top of the 64-bit range",
 "test_round_price checks one price and one tick size.",
 [UT],[("round_price",UT)],[],["return value of round_price"])

add("C24","Dust rule: an order too small after a trade leaves the book, others stay",
 "After a trade, the resting order stays on the book with its size reduced by the traded base if what is left is at least the market's minimum order size; if less is left (including nothing), it is removed immediately and an out event for it, carrying exactly the left-over size, directly follows its fill event. So at every moment every resting order's size is at least the market's minimum order size.",
 ["histories","inputs"],"every book, every trade, every minimum order size",
 SCEN+"partial fills leaving exactly the minimum size, one less or one more are not covered.",
 [OB],[("base_quantity < min_base_order_size branch of new_order",OB)],[BOOK,QUEUE],["fill and out events","resting orders after"])

add("C25","Callback information always stays with its order and reaches its events",
 "Every fill event carries the maker's and the taker's callback information exactly as given when those orders were created, each in its place, and every out event carries that of the removed order; a resting order keeps its callback information unchanged from posting to removal. This holds when order and event slots are reused and when the queue wraps around.",
 ["histories"],"every history with orders of distinct callback information, slot reuse in the book and wrap-around in the queue",
 SCEN+"events' callback information is compared for single out events; no test compares both parties of a fill produced by matching.",
 [OB,EQ,CB],[("callback_infos arrays parallel to leaves and events",CB),("push_back callback slots",EQ)],[BOOK,QUEUE],["callback info in the events and beside the leaves"])

add("C26","The JavaScript client decodes the same market, book and queue as the program",
 "For every market state the program can produce, the JavaScript library's decoders report the kind of each account, the market parameters and accounts, the resting orders of each side in both orders with their sizes, prices and callback information, lookups by id, the top-of-book lists and the aggregated price levels, and the unconsumed events (by position, and as the list of fills) that are actually there; and it computes the same account sizes as the program, and its market-creation helper creates each account with that size, its rent and the program as owner and names it in its role.",
 ["histories","inputs"],"every market state reached in the bounded exploration, every query argument from its alphabet",
 "Nothing runs the TypeScript code: its only test needs a validator and imports a file that is not in the repository.",
 ["js/src/slab.ts","js/src/event_queue.ts","js/src/market_state.ts","js/src/utils.ts",CB,EQ,MS],[("Slab, EventQueue, MarketState decoders","js/src")],[BOOK,QUEUE],["values returned by the JavaScript decoders on the program's account bytes"])

add("C27","The WebAssembly book queries agree with the tree they are given",
 "For every well-formed tree in the node format of the WebAssembly library, the minimum and maximum queries return the handle of the leaf with the smallest and largest id (none for an empty tree), and the price-level query returns the first levels in the asked direction, as many as there are but at most the asked number, however large, each with the sum of all the sizes resting at that price.",
 ["inputs"],"every order set over the id alphabet up to the explored size, every node placement order, every depth and direction",
 "The crate's only test asserts 2 + 2 = 4.",
 ["js/wasm/src/lib.rs","js/wasm/src/critbit.rs"],[("find_min_max, find_l2_depth","js/wasm/src/critbit.rs")],[],["return values of find_min, find_max, find_l2_depth"])

add("C28","The program behaves on the chain as its host build does",
 "The source holds two versions of the order book's and queue's inner workings, one compiled for the chain (target_os \"solana\") and one compiled everywhere else, where tests run. For every market state and every instruction, whether sent through the entry point or called in process, the code selected for the chain accepts and rejects the same calls with the same error, returns the same summaries, leaves the same bytes in every account, moves the same lamports, and its read functions return the same answers, as the code selected for the host.",
 ["histories","inputs"],"every state and call of the bounded exploration, made on both versions",
 "Tests compile only the host version: about thirty conditional branches of the program, the ones that run on chain, are never executed by any test.",
 [CB,OB,EQ],[("conditional branches on target_os in the slab","program/src/state/critbit.rs"),("conditional branches on target_os in matching","program/src/state/orderbook.rs")],[BOOK,QUEUE],["account bytes, results and return values of the two versions"])

add("C29","Every refusal names a cause that holds",
 "When an instruction is refused with an error, the condition that error stands for really holds, for every operation, whether sent through the entry point or called in process: a wrong-account error means that account (and not another one) is not the market's, a wrong-owner error means that account is not owned by the program, a tag mismatch or already-initialised error means one of the given accounts is not of the expected kind (or, at creation, is in use or given twice), InvalidLimitPrice means the limit price is not a tick multiple or is too low to be posted, WouldSelfTrade that the order reaches an order of the same owner under abort-on-self-trade, EventQueueFull that the order's events do not fit in the queue, OrderNotFound that some named id does not rest (or is named twice), NumericalOverflow that the cancelled totals do not fit in 64 bits, MarketStillActive that orders or events are left; at creation InvalidArgument means a zero parameter, InvalidAccountData a wrong account size and AccountNotRentExempt a balance that is too low; InvalidInstructionData means the data is malformed, and malformed data is refused with nothing else. Where several conditions hold any of them may be named; no other error is returned.",
 ["histories","inputs"],"every reached market state and instruction of the alphabets, every wrong-account and creation configuration, every malformed encoding",
 "Tests assert an error value in two places (a self-trade abort and one tag mismatch); no test looks at which account or which condition a refusal names.",
 [ER,OB,PR,UT],[("error codes",ER),("check_accounts and perform_checks of every instruction",PR),("error returns of new_order",OB)],[BOOK,QUEUE],["error returned by each refused instruction"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
