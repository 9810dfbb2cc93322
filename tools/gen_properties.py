#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one entry each)."""
import json, os
C="programs/core/src/"
LIB=C+"lib.rs"; CTX=C+"context.rs"; ACC=C+"access_control.rs"
POOL=C+"states/pool.rs"; TICK=C+"states/tick.rs"; BM=C+"states/tick_bitmap.rs"; POS=C+"states/position.rs"
NFT=C+"states/tokenized_position.rs"; OBS=C+"states/oracle.rs"; FAC=C+"states/factory.rs"; FEE=C+"states/fee.rs"
L=C+"libraries/"
SW=L+"swap_math.rs"; SQ=L+"sqrt_price_math.rs"; TM=L+"tick_math.rs"; FM=L+"full_math.rs"; LA=L+"liquidity_amounts.rs"; LM=L+"liquidity_math.rs"
CPI=C+"../Cargo.toml"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    mech=[{"name":n,"where":w} for n,w in mech]
    a={"files":files,"mechanism":mech,"hook_needed":None}
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T0="The unit tests exercise single functions with sample numbers; no test runs an instruction against accounts, let alone a sequence of them."

p("C01","Every pool can always pay everything it owes",
 "After any sequence of operations, each pool's two token vaults hold at least the sum of what all positions could withdraw (principal, accrued fees and amounts already credited) plus the uncollected protocol fees. In particular, all owners can withdraw everything they are entitled to, in any order (an unused tick account that was closed is created again where needed), and every one of those withdrawals succeeds and pays in full.",
 ["histories","inputs"],"every sequence of pool creation, minting, burning, collecting, swapping, routing, fee and admin operations by several users, with amounts from single units to nearly 2^63, at prices across the whole range",
 T0+" Solvency is a statement about sums over all positions after arbitrary histories.",
 [LIB,POOL,POS,TICK,SQ,SW,FM],[("amounts are rounded up on deposit and down on withdrawal",SQ),("fees are credited through per-range fee growth",TICK),("vault balance checks around the payment callbacks",LIB)],["vault token accounts","pool, tick and position accounts"])
p("C02","Adding and at once removing liquidity never pays out more than was paid in",
 "For every pool state, range and liquidity amount, minting liquidity and immediately burning and collecting it returns at most what was paid, in each token separately. The deposit is the exact value of the liquidity at the current price rounded up to whole tokens, and the withdrawal is the same value rounded down.",
 ["inputs","histories"],"all pool states reachable within the explored histories, all ranges below, around and above the price, liquidity from 1 unit to near the 64-bit limit",
 "Tests check the amount formulas at a few points; rounding and overflow must work for every price, range and liquidity.",
 [LIB,SQ,FM,LM],[("liquidity to token amounts with directed rounding",SQ),("balance check after the mint callback",LIB)],["token account balances before and after"])
p("C03","A swap respects its direction, its amount and its price limit",
 "A successful swap moves the price only in the requested direction and never beyond the caller's limit, and an exact-input swap takes at most the given input while an exact-output swap pays at most the requested output. It stops short of the full amount only when the price limit has been reached; zero amounts and limits on the wrong side of the current price or outside the supported price range are rejected.",
 ["inputs","histories"],"all swaps (both directions, exact input and exact output, amounts from 1 unit to the 63-bit maximum, limits at, next to and between initialized ticks and at the ends of the price range) in every explored pool state",
 "No existing test executes a swap; a limit can only be missed in particular combinations of price, tick and amount.",
 [LIB,SW,SQ,TM],[("swap loop with per-step price targets",LIB),("limit validation",LIB),("single-step computation",SW)],["token balances","pool price"])
p("C04","Swaps trade exactly along the liquidity curve",
 "The amounts exchanged, the resulting price and active tick, and the fee charged by every swap equal those of trading through each liquidity segment in turn, where a segment's liquidity is the sum of the positions covering it, with input rounded up and output rounded down in the pool's favour. Swapping forth and immediately back never yields a profit.",
 ["inputs","histories"],"all swaps and routes across zero, one or several initialized ticks, across empty and partially initialized bitmap regions, after every explored history of liquidity changes",
 "Multi-tick swaps need pools with several overlapping positions; the tests only cover one step of the computation at a time.",
 [LIB,SW,SQ,BM,TICK],[("next initialized tick search",BM),("tick crossing updates active liquidity",TICK),("step math",SW)],["token balances","pool account"])
p("C05","Active liquidity and tick records always match the open positions",
 "At all times the pool's active liquidity is the total liquidity of the positions whose range contains the current tick, each tick records exactly the gross and net liquidity of the positions that start or end there, and a tick is marked as initialized in the bitmap exactly while some position uses it. A position's liquidity is exactly what its owner has minted minus what was burned, and nobody can burn more than is there. Liquidity can be added only to ranges whose lower end lies below the upper one.",
 ["histories","inputs"],"every sequence of mints, burns, position-NFT operations and swaps by several users on overlapping, nested and adjacent ranges",
 "It is an invariant over histories of overlapping positions and swaps; tests look at one tick update in isolation.",
 [LIB,TICK,BM,POS,LM],[("tick update with flip detection",TICK),("bitmap flip",BM),("position update",POS),("liquidity added or removed when the range is active",LIB)],["pool, tick, bitmap and position accounts"])
p("C06","Swap fees go to in-range liquidity in proportion, and to nothing else",
 "Each swap step's fee, less the protocol's share, accrues to the positions that are in range during that step in proportion to their liquidity, and never to a position that is out of range or was opened later. A position is credited exactly the accrual since it was last touched, rounded down, even when the fee counters wrap around.",
 ["histories","inputs"],"every explored sequence of mints, burns, pokes, collects and swaps in both directions over overlapping ranges, including counters close to wrap-around and re-opened ranges",
 "Fee attribution depends on the order of crossings and position changes; the tests only check the growth-inside formula on hand-made ticks.",
 [LIB,TICK,POS],[("outside fee growth flipped on crossing",TICK),("fee growth inside a range",TICK),("position fee credit",POS)],["position and tick accounts","collected amounts"])
p("C07","Positions are isolated: owners collect what they are owed and nothing else",
 "Collecting pays each token out of the matching vault and at most what is credited to that position, reduces the credit by exactly the amount paid and sends it only to the accounts named by the owner. No operation on one position changes another position's liquidity or credited amounts, and only a position's owner can burn or collect from it.",
 ["histories","inputs"],"every sequence of burns and (full, partial, zero and excessive) collects by several owners sharing ranges, and every substitution of another account of the system for each account of these calls",
 "No test executes burn or collect; isolation is a statement about all other accounts in all histories.",
 [LIB,CTX,POS,ACC],[("position address derived from owner and range",CTX),("vault address constraints",CTX),("collect capped at owed amounts",LIB)],["token and position accounts"])
p("C08","Only a position NFT's holder or delegate controls it, on its own pool and range",
 "Liquidity and fees of a position represented by an NFT can be withdrawn only by the current holder of that NFT or by a delegate the holder approved, and control follows the NFT when it is transferred. Every operation on it acts on the pool, price range and record created together with that NFT; the NFT stays unique, with a supply of exactly one.",
 ["histories","inputs"],"all sequences of NFT minting, transfer, approval, increase, decrease, collect and metadata operations by several users, and all substitutions of other NFTs, NFT token accounts, pools, ranges and signers",
 "No test executes a position-manager instruction; authority must hold against every combination of foreign accounts.",
 [LIB,CTX,ACC,NFT],[("authority check on the NFT account",ACC),("record address derived from the NFT mint",CTX),("range check against the record",NFT)],["NFT record, token accounts"])
p("C09","Each position NFT is credited exactly its own share",
 "For every range, the liquidity recorded for all position NFTs adds up to the liquidity that the position manager holds in the pool. Each NFT is credited precisely the principal of its own withdrawals and the fees earned by its own liquidity since its last update, rounded down, no matter how operations on other NFTs of the same range are interleaved.",
 ["histories","inputs"],"all interleavings of mint, increase, decrease, collect and swaps over several NFTs that share a range (and a range shared with directly held positions)",
 "The record's arithmetic has no test with two NFTs on one range; errors show only in interleavings.",
 [LIB,NFT,POS],[("per-NFT fee checkpoint",LIB),("shared core position of the manager",LIB)],["NFT records, manager's position account"])
p("C10","Exact-input trades deliver at least the stated minimum or change nothing",
 "An exact-input trade through at least one pool either fails without effect or takes exactly the given input (less only if the caller's own price limit was hit) and delivers at least the stated minimum output to the trader. Along a route every hop spends exactly what the previous hop produced, and a result of exactly the minimum is accepted while one unit below it is rejected.",
 ["inputs","histories"],"routes of one to three hops through four pools in both directions, including the same pool twice, with minimums at, one above and one below the true result, in every explored pool state",
 "No test executes the router; slippage bounds must hold in every pool state.",
 [LIB],[("minimum output check",LIB),("hop chaining by balance difference",LIB)],["trader token balances"])
p("C11","Liquidity operations respect the caller's maximum and minimum amounts",
 "Minting or increasing a position NFT spends at most the desired amount of each token and adds the greatest liquidity those amounts can buy at the current price (up to the fixed-point precision), and decreasing it credits at least the stated minimums. Minimums exactly equal to the true amounts are accepted and minimums one unit higher are rejected without effect.",
 ["inputs","histories"],"mint, increase and decrease with all combinations of minimums at, below and above the true amounts of either token, below, inside and above the range, in every explored pool state",
 "Slippage bounds are never executed by tests and must hold in every pool state.",
 [LIB,LA],[("amounts compared with minimums",LIB),("liquidity from amounts",LA)],["token balances, NFT record"])
p("C12","Expired transactions have no effect",
 "Every operation that takes a deadline succeeds up to and including that time and is rejected without any effect afterwards. The deadline changes nothing else about the operation.",
 ["inputs","histories"],"every deadline-carrying operation with deadlines at the extremes of the type and one second around the current time, in explored states",
 "The comparison is only reachable through instruction execution, which no test does.",
 [LIB,ACC],[("deadline check",ACC)],["any account"])
p("C13","The price oracle integrates the true past tick and liquidity",
 "Every stored observation carries the time it was written, the integral over time of the pool's active tick since the pool's creation, and the integral of the inverse of its active liquidity, up to that time. Price or liquidity changes made at a moment never affect the integral for the time before that moment.",
 ["histories","schedules"],"every sequence of swaps, liquidity changes, waiting (inside and across observation windows) and oracle growth up to the depth bound",
 "The oracle's unit tests feed hand-made values; they do not tie stored values to the pool's actual history.",
 [LIB,OBS,POOL],[("observation written before price or liquidity changes",LIB),("accumulator transform",OBS)],["observation accounts"])
p("C14","The oracle ring keeps one observation per time window and never loses its order",
 "Within one time window at most one observation is kept, a new window uses the next slot of the ring, and once the ring has been enlarged each added slot is used before an old one is overwritten. The pool always points to its most recent observation, and growing the ring adds exactly the requested slots, in order, without disturbing stored ones.",
 ["histories","schedules"],"every sequence of observation-writing operations, waits of 1, 13, 14, 15, 29 and 100 seconds and ring growth by one or two slots, also repeated, up to the depth bound",
 "Ring behaviour depends on the interleaving of growth, wrap-around and writes; the tests only check single calls.",
 [LIB,OBS,POOL],[("slot selection by time window",LIB),("next cardinality",OBS)],["observation and pool accounts"])
p("C15","Range snapshots report time, tick and liquidity integrals spent inside the range",
 "Between any two moments during which both ends of a range stay in use, the change of the range's snapshot equals the number of seconds the price was inside that range, the integral of the tick over those seconds and the integral of the inverse liquidity over those seconds.",
 ["histories","schedules"],"all ranges in use, at every pair of states along every explored history of swaps, waits and liquidity changes",
 "The tests check the snapshot formula on hand-made ticks only; correctness needs the outside values to be flipped on every crossing.",
 [POOL,TICK,OBS],[("snapshot computation",POOL),("outside counters flipped on crossing",TICK)],["snapshot result"])
p("C16","Privileged operations are reserved to the current protocol owner",
 "Enabling fee tiers, changing the protocol fee, withdrawing protocol fees and transferring ownership succeed only when signed by the current owner, and are rejected without effect for anybody else, including former owners. Ownership changes only by the owner's own transfer, takes effect immediately and completely, and the protocol can be initialised only once.",
 ["histories","inputs"],"all sequences of administrative calls by the owner, a former owner, a future owner and a stranger, with and without valid signatures",
 "No test covers owner checks of instructions, and the guarantee is over all histories of ownership transfers.",
 [LIB,CTX,FAC],[("owner constraint on the admin contexts",CTX)],["factory account"])
p("C17","Accounts of another pool, owner or program cannot stand in for the right ones",
 "Replacing any account of any call by any other account (of another pool, range, user or mint, of the wrong kind, not yet created, or a look-alike owned by another program) makes the call fail, or is a choice left to the caller that affects only the caller's own funds, or has no influence on the result. No such call leaves a pool unable to pay or takes anything from a party that did not sign.",
 ["inputs","configurations"],"every account position of every call replaced by every other account of a world with several pools, users, NFTs and forged copies; every signature and write permission dropped, accounts left out, doubled and exchanged; and all pairs (in the thorough tier triples) of accounts replaced by accounts of the same kind",
 "Account substitution is not tested at all; the number of combinations is far beyond hand-written cases.",
 [LIB,CTX,ACC],[("seed, owner and address constraints",CTX),("address assertions on dynamically passed accounts",LIB)],["all accounts"])
p("C18","Pools are unique, well-formed and immutable in their identity",
 "A pool can be created once per ordered token pair and enabled fee tier, by anybody, at any price within the supported range, and starts empty and consistent with that price; wrong order, equal tokens, unknown fee tiers and prices outside the range are rejected. Fee tiers are enabled once with a valid fee and spacing, and a pool's tokens, fee and spacing never change afterwards.",
 ["inputs","configurations","histories"],"all creations over sets of mints, fee tiers and boundary prices in every order and repetition, and all fee-tier parameters around their bounds",
 "No test creates a pool through the instruction; uniqueness is over all histories of creations.",
 [LIB,CTX,FAC,FEE,POOL],[("pool address derived from tokens and fee",CTX),("price to tick on creation",LIB),("fee tier validation",LIB)],["pool and fee accounts"])
p("C19","The recorded tick always agrees with the recorded price",
 "In every reachable state the price lies within the supported range and the recorded tick is the greatest tick whose price does not exceed it. The only exception is that a downward swap which stops exactly on an initialized or limiting tick boundary records the tick just below it.",
 ["histories","inputs"],"every state reached by explored histories, with swaps ending on, next to and between ticks and at both ends of the price range",
 "Tests check the conversion functions at sample points, not the state that swaps leave behind.",
 [LIB,TM],[("tick recomputed from price at the end of a step",LIB),("tick transition on crossing",LIB)],["pool account"])
p("C20","Tick and price conversions are exact inverses over the whole range",
 "For every supported tick the price is the documented fixed-point product, which lies within one unit or a relative error of 4e-12 of 1.0001^(tick/2) * 2^32; prices strictly increase with the tick, and the tick of a price is always the greatest tick whose price does not exceed it. Ticks and prices outside the supported range are rejected.",
 ["inputs"],"all 443 637 ticks; all prices within a neighbourhood of every tick's price, all prices up to 2^27 (thorough: up to 2^32) and above that the first and last price of every class that shares its leading 22 (thorough: 32) bits",
 "The tests sample a few ticks; exactness must hold for each of them.",
 [TM],[("tick to price by repeated multiplication",TM),("price to tick by logarithm and correction",TM)],["function results"])
p("C21","Price steps and token amounts are rounded exactly, in the pool's favour",
 "The token amounts between two prices, the price after a given input or output, and the outcome of a single swap step equal the exact rational result (for the price after an amount of token_0 too large for the exact formula, the documented approximation) rounded so that the pool never loses, for all representable inputs; a result that does not fit is reported as an error and never wrapped. A step never moves past its target price and accounts for the whole remaining input as either input or fee.",
 ["inputs"],"exhaustive small domains, and full grids of boundary values (powers of two and neighbours, extreme prices, amounts and liquidities, all fee classes, exact input and output, both directions)",
 "Sample-based tests do not reach the overflow and rounding edges of all branches.",
 [SQ,SW],[("amount deltas",SQ),("next price from amount",SQ),("swap step",SW)],["function results"])
p("C22","Multiply-and-divide is exact at full width",
 "Multiplying two 64-bit or 128-bit numbers and dividing by a third gives the exact quotient rounded down or up as requested, for all inputs. Results that do not fit, division by zero and liquidity changes that over- or underflow are reported and never wrapped.",
 ["inputs"],"exhaustive small domains and the full cube of boundary values",
 "Tests try a handful of triples.",
 [FM],[("widening multiplication and division",FM)],["function results"])
p("C23","Liquidity computed for given token amounts never costs more than those amounts",
 "For every price, range and pair of token amounts the computed liquidity can be bought with those amounts and is the greatest possible one up to the precision of the fixed-point formula. Below the range only the first token counts, above it only the second, inside it the smaller of the two.",
 ["inputs"],"grids of boundary prices, ranges and amounts below, at the ends of, inside and above the range",
 "Tests cover a handful of amounts and prices.",
 [LA],[("liquidity for amounts",LA)],["function results"])
p("C24","The initialized-tick search finds exactly the nearest initialized tick",
 "Within one bitmap word, searching from any position in either direction returns the nearest initialized position in that direction, including the start itself when searching downwards, or the word's end when there is none. Marking a tick toggles precisely its own position, and every supported tick maps to exactly one word and position.",
 ["inputs"],"all start positions, both directions, all words with one or two (thorough: three) marked positions and their complements, runs and dense patterns; position mapping for all ticks and spacings",
 "Tests sample a few positions of one pattern.",
 [BM],[("bit search in a 256-bit word",BM),("position of a tick",BM)],["function results"])
p("C25","A pool cannot be re-entered while an operation on it is in progress",
 "While the payment callback of a mint or swap is running, every operation that would change or trade on that same pool is rejected and the outer operation then fails or completes as if nothing had happened in between. When the operation is over, successfully or not, the pool is usable again.",
 ["schedules","inputs"],"every re-entrant call of every pool operation from inside the callbacks of mint and swap (both directions), with all runtime re-entry restrictions lifted, and the state of the lock after every explored operation",
 "No test runs a callback at all; re-entrance is an ordering question.",
 [LIB,POOL],[("pool lock",LIB)],["pool account"])
p("C26","Deposits and swap inputs must really arrive in the pool's vaults",
 "A mint or swap whose callback pays less than the required amount of either token, pays the wrong vault, or does not pay, is rejected without effect. Paying exactly the required amount, or more, is sufficient.",
 ["inputs","fault_sequences"],"callbacks by arbitrary programs paying zero, one unit less, exactly, one unit more, or into other accounts, for each token, in both directions and for positions below, inside and above the price, with balances up to the 64-bit limit",
 "No test executes a callback; an attacker chooses the callback program.",
 [LIB],[("balance before and after the callback",LIB)],["vault balances"])
p("C27","Protocol fees are exactly the configured share and only the owner withdraws them",
 "For each swap step the protocol receives the fee divided by the configured divisor, rounded down, and liquidity providers receive the rest; changing the divisor affects later swaps only. Only divisors from 2 to 10 are accepted, and withdrawals pay at most the accrued amount of each token, from the matching vault, to the accounts the owner names.",
 ["histories","inputs"],"all divisor settings inside and outside the permitted range, all sequences of swaps, divisor changes and full, partial, one-sided and zero withdrawals up to the depth bound",
 "No test runs a swap with protocol fees or a withdrawal.",
 [LIB,FAC,CTX],[("protocol share in the swap loop",LIB),("protocol fee collection",LIB)],["pool account, vaults"])
p("C28","Tick, bitmap and position accounts have a safe life cycle",
 "A tick account can be created once, for supported ticks on the pool's spacing only, bitmap and position accounts likewise once and with valid parameters only, and a tick account can be closed only while no position uses it, returning its deposit. Closing and re-creating a tick never changes any balance, price, fee or other position, and an unused tick starts again from a clean state: when it is put into use, all fees, time and price history so far count as lying below it if the price is at or above it, and above it otherwise.",
 ["histories","inputs"],"all sequences of creating, using, emptying, closing and re-creating ticks, words and positions, interleaved with swaps and mints, and all boundary tick and word numbers",
 "No test executes these instructions; hazards appear only over several steps.",
 [LIB,CTX,TICK,BM],[("close requires a clear tick",CTX),("tick validation",TICK),("address derivation",CTX)],["tick, bitmap, position accounts"])
p("C29","Emitted events describe exactly what happened",
 "Each successful operation emits exactly its documented events, and their fields (parties, range, liquidity, token amounts, prices, settings) equal the actual changes made. Failed operations and views emit nothing that takes effect.",
 ["histories","inputs"],"every successful operation in every explored history",
 "No test looks at events; indexers rely on them for every operation.",
 [LIB],[("event emission",LIB)],["program log"])
p("C30","Operations open to everybody cannot harm anybody",
 "Calls that need no authority over a position or pool (creating tick, bitmap or position accounts, closing unused ticks, growing the oracle, adding liquidity to somebody else's position NFT, opening and closing own positions, sending tokens or lamports to program addresses) never reduce what any other user can withdraw, in either token, and never make their later operations fail, except that a closed unused tick account must be created again before it is used.",
 ["histories","inputs"],"a stranger's every permissionless call in every explored state, followed by every owner's full exit",
 "Harm is visible only in the later operations of other users.",
 [LIB,CTX],[("address derivation and payer separation",CTX)],["everything a user can withdraw"])
p("C31","Valid operations always succeed",
 "Operations whose preconditions hold (sufficient balances, existing accounts, amounts and liquidity totals that fit into 64 bits) never fail: owners can always burn and collect, traders can always swap against available liquidity, and everybody can always mint. No sequence of operations by others can block them.",
 ["histories","inputs"],"every operation of every explored history whose specified outcome is success",
 "A denial of service shows only in particular states reached by sequences of operations.",
 [LIB,CTX,TICK,BM,SW],[("checked arithmetic and account validation that must not fire for valid calls",LIB)],["instruction result"])
p("C32","Position NFTs are one of a kind and carry truthful, final metadata",
 "Minting a position creates exactly one indivisible token of a fresh mint, delivers it to the named recipient and binds it to a record of its pool and range; at no time can anybody else create more of it, take over its mint or freeze it. Anybody may register its metadata, once and for position NFTs only, at their own expense: it then names exactly this NFT with the protocol as verified creator and no seller fee, can never be changed, the power to mint is gone for good, and nothing else changes.",
 ["histories","inputs"],"all sequences of minting, using, transferring, approving and registering position NFTs by several users, hundreds of mint addresses with every minter, recipient and registrant, and all substitutions of accounts in these calls",
 "No test executes these instructions; what third parties can do with the mint shows only against the token and metadata programs.",
 [LIB,CTX,NFT],[("the protocol's PDA is the only mint authority and gives it up on registration",LIB),("the record is derived from the mint",CTX)],["mint, metadata and record accounts"])
p("C33","Account deposits are charged exactly and returned in full",
 "Every account an operation creates is funded to exactly the rent-exempt minimum by the caller, who pays only what is missing there, and lamports somebody sent to the address beforehand neither block the creation nor change its result. No operation takes lamports from anybody who did not sign or moves them between existing accounts, and closing an account gives everything on it to the named recipient.",
 ["histories","inputs"],"every transition of every explored history, and all creating calls with every subset of the new addresses already holding lamports and with payers that can just pay or are one lamport short",
 "Tests do not run instructions, so they see no deposits; blocking an address by sending lamports to it needs a hostile third party.",
 [LIB,CTX,ACC],[("accounts are created with the caller as payer",CTX),("observation accounts are created one by one",LIB),("closing sends the deposit to the recipient",CTX)],["lamports of all accounts"])
p("C34","Splitting a trade or a liquidity change never pays",
 "Carrying out a swap as several smaller swaps directly after one another never yields more output for the same input, and never costs less input for the same output, than doing it at once. Likewise minting or burning liquidity in several parts never costs less or credits more of either token than doing it at once.",
 ["histories","inputs"],"every reached state up to a depth, both directions, exact input and output, several sizes relative to the active liquidity and several ways to cut them; every range and position",
 "It compares two histories that start in the same state, over all states; roundings that favour many small steps show for particular amounts only.",
 [LIB,SW,SQ],[("each step rounds input up and output down",SW),("token amounts and prices are rounded in the pool's favour",SQ)],["token balances and credits after either history"])
p("C35","Pools are independent of each other",
 "An operation changes only the pools it names: every other pool, even one of the same tokens at another fee, keeps its price, liquidity, ticks, positions, observations and fees bit for bit and its vaults untouched, whatever accounts the caller supplies. Operations on different pools succeed in either order and with the same result.",
 ["histories","inputs"],"every reached state of worlds with several pools that share tokens, spacing, owners and ranges, all pairs of operations in both orders, and every single replacement of an account by one of another pool",
 "Unit tests know a single pool's records and no account addresses; a mix-up needs two pools and a particular order.",
 [LIB,CTX,POOL],[("addresses of ticks, words, positions and observations contain tokens and fee",CTX),("addresses of supplied accounts are checked against the pool",POOL)],["all accounts of the other pools"])
p("C36","All ways to do the same thing give the same result",
 "A trade through the single-pool router call, or through a route of one pool, does exactly what the same trade with the pool itself does: it succeeds in the same states and leaves every account identical. Liquidity added or removed through a position NFT changes the pool, its ticks, bitmaps, observations, vaults and the user's tokens exactly as adding or removing the same liquidity directly, and works whenever that works.",
 ["histories","inputs"],"every reached state up to a depth, both directions, several amounts up to ones that use up the liquidity, with and without price limits; all NFTs, amounts from one unit to everything",
 "It compares two entry points that each look right alone, over all states of the pool.",
 [LIB,CTX],[("the router calls build on the core swap",LIB),("the position NFT calls build on the core mint and burn",LIB)],["all accounts after either call"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
