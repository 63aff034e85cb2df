#!/usr/bin/env python3
"""writes properties.jsonl (the text of the properties lives here)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
I, H, C = "inputs", "histories", "configurations"
p("C01", "The emitter mints exactly 1 BLND per second, to the active backstop only",
  "A distribution mints exactly 1 BLND (10^7 units) per second elapsed since that backstop's previous distribution, to the active backstop, and advances that backstop's clock to now; no other emitter operation mints emissions. A backstop swap first distributes everything due to the outgoing backstop and starts the incoming one's clock at the swap, so no second is ever paid twice or lost.",
  [I, H], "all ledger times, all stored clocks, all orders of distribute / queue / cancel / swap / drop",
  "Tests run a few fixed time gaps; only a proof over every time gap and every order of operations excludes a second being minted twice or skipped.",
  ["emitter/src/emitter.rs", "emitter/src/backstop_manager.rs", "emitter/src/contract.rs", "emitter/src/storage.rs"],
  [("execute_distribute", "emitter/src/emitter.rs"), ("execute_swap_backstop", "emitter/src/backstop_manager.rs")],
  [("LastDistro", "time of the last distribution per backstop", "emitter/src/storage.rs")], ["EmitterContract::distribute", "EmitterContract::swap_backstop"])
p("C02", "The backstop is swapped only after 31 days and only to a larger holder",
  "The active backstop changes only by executing the queued swap, which must have been queued at least 31 days earlier, to exactly the backstop and token that were queued. Queueing and executing both require the new backstop to hold strictly more of the current backstop token than the current one, a queued swap cannot be replaced, and cancelling succeeds only when the queued backstop no longer holds strictly more.",
  [I, H], "all token balances, times and orders of queue / cancel / swap",
  "Tests use a handful of balances and one unlock time; the guarantee is over every balance relation, including equality, and every history.",
  ["emitter/src/backstop_manager.rs", "emitter/src/contract.rs", "emitter/src/storage.rs"],
  [("execute_queue_swap_backstop", "emitter/src/backstop_manager.rs"), ("execute_cancel_swap_backstop", "emitter/src/backstop_manager.rs"), ("execute_swap_backstop", "emitter/src/backstop_manager.rs")],
  [("Swap", "queued swap", "emitter/src/storage.rs")], ["EmitterContract::queue_swap_backstop", "EmitterContract::cancel_swap_backstop", "EmitterContract::swap_backstop"])
p("C03", "The one-time drop happens at most once per backstop and is at most 50M BLND",
  "A drop succeeds only when the current backstop authorises it and has not dropped before; it mints to exactly the listed recipients exactly the listed amounts, totalling at most 50,000,000 BLND, and marks that backstop as dropped for good. The backstop can only pass on the drop list fixed at its initialisation.",
  [I, H], "all drop lists and all histories of drops and swaps", "Tests use two or three lists; every list (length, duplicates, sums) and every later attempt must be covered.",
  ["emitter/src/emitter.rs", "emitter/src/contract.rs", "backstop/src/emissions/manager.rs", "backstop/src/contract.rs"],
  [("execute_drop", "emitter/src/emitter.rs"), ("drop", "backstop/src/contract.rs")], [("Dropped", "per backstop flag", "emitter/src/storage.rs")], ["EmitterContract::drop", "BackstopContract::drop"])
p("C04", "The pool factory vouches only for pools it deployed with valid arguments",
  "An address is reported as a pool exactly when this factory deployed it, and each deployment runs the stored pool code and initialises it with the caller's arguments plus the factory's stored backstop and BLND token. Deployment requires the admin's authorisation, a backstop take rate below 100%, at least 2 positions, and an address salt bound to the admin so that no one else can take the address first.",
  [I, H], "all arguments and all sequences of deployments", "Tests deploy a few pools with one salt each.",
  ["pool-factory/src/pool_factory.rs", "pool-factory/src/storage.rs"], [("deploy", "pool-factory/src/pool_factory.rs")], [("Contracts", "deployed pools", "pool-factory/src/storage.rs")], ["PoolFactoryContract::deploy", "PoolFactoryContract::is_pool"])
p("C05", "Backstop share conversions always round in favour of the backstop",
  "A deposit mints the floor of the deposited tokens at the current share price and a withdrawal pays the floor of the burned shares at that price (1:1 while the backstop has no shares); deposits that mint nothing and withdrawals that pay nothing fail. No deposit or withdrawal ever lowers the value of the remaining shares.",
  [I, H], "all pool balances (shares, tokens), all amounts, all sequences of deposits, donations, draws and withdrawals", "Rounding at adversarial ratios (donation-inflated share prices, tiny pools) cannot be enumerated by tests.",
  ["backstop/src/backstop/pool.rs", "backstop/src/backstop/deposit.rs", "backstop/src/backstop/withdrawal.rs"],
  [("convert_to_shares / convert_to_tokens", "backstop/src/backstop/pool.rs"), ("execute_deposit", "backstop/src/backstop/deposit.rs"), ("execute_withdraw", "backstop/src/backstop/withdrawal.rs")],
  [("PoolBalance", "shares, tokens, q4w of a pool", "backstop/src/storage.rs")], ["BackstopContract::deposit", "BackstopContract::withdraw"])
p("C06", "A backstop pool's token ledger moves exactly with the tokens transferred",
  "Every deposit, donation, draw, withdrawal and claim changes the recorded token balance of the named pool by exactly the backstop tokens that entered or left the contract on its behalf, and changes no other pool's record. A draw or withdrawal can never take more than that pool's recorded tokens, so one pool's losses never fall on another pool's depositors.",
  [I, H], "all pools, amounts and operation sequences", "Cross-pool isolation quantifies over all pairs of pools and histories.",
  ["backstop/src/backstop/pool.rs", "backstop/src/backstop/deposit.rs", "backstop/src/backstop/withdrawal.rs", "backstop/src/backstop/fund_management.rs", "backstop/src/emissions/claim.rs"],
  [("PoolBalance::deposit / withdraw", "backstop/src/backstop/pool.rs"), ("execute_draw / execute_donate", "backstop/src/backstop/fund_management.rs")], [("PoolBalance", "per pool", "backstop/src/storage.rs")], ["BackstopContract::draw", "BackstopContract::donate", "BackstopContract::withdraw", "BackstopContract::deposit"])
p("C07", "Backstop shares are conserved: user shares always add up to the pool's shares",
  "For every pool the total shares equal the sum over users of their free and queued shares, and the pool's queued shares equal the sum of users' queued shares: each operation changes the pool's totals by exactly what it changes the acting users' balances by. No user's balance changes except that of the user named in the operation.",
  [I, H], "all users, pools, amounts and operation sequences", "A conservation law over all histories; tests check final numbers of a few scripts.",
  ["backstop/src/backstop/deposit.rs", "backstop/src/backstop/withdrawal.rs", "backstop/src/backstop/user.rs", "backstop/src/backstop/pool.rs", "backstop/src/emissions/claim.rs"],
  [("UserBalance::add_shares / queue_shares_for_withdrawal / dequeue_shares / withdraw_shares", "backstop/src/backstop/user.rs"), ("PoolBalance::deposit / queue_for_withdraw / dequeue_q4w / withdraw", "backstop/src/backstop/pool.rs")],
  [("UserBalance", "shares and queue per (pool, user)", "backstop/src/storage.rs")], ["BackstopContract::user_balance", "BackstopContract::pool_data"])
p("C08", "Backstop funds leave only through a 21-day withdrawal queue",
  "Shares can be withdrawn only from queue entries at least 21 days old, oldest first, and never more than is queued and matured; each queued amount is backed by free shares that stop being free at once. The queue holds at most 21 entries; dequeuing (without any delay) also consumes entries oldest first and makes exactly that many shares free again.",
  [I, H], "all queues, amounts and times", "Queue arithmetic over every queue shape and amount (partial pops across several entries) cannot be enumerated by tests.",
  ["backstop/src/backstop/user.rs", "backstop/src/backstop/withdrawal.rs"],
  [("queue_shares_for_withdrawal / dequeue_shares / withdraw_shares", "backstop/src/backstop/user.rs")], [("UserBalance.q4w", "withdrawal queue", "backstop/src/backstop/user.rs")], ["BackstopContract::queue_withdrawal", "BackstopContract::dequeue_withdrawal", "BackstopContract::withdraw"])
p("C09", "Backstop funds move only with the right party's authorisation",
  "Depositing, queueing, dequeuing, withdrawing and claiming require the affected user's authorisation; a draw requires the pool's own; a donation requires the donor's and the pool's. Tokens taken come from the authorising party, draws pay only from the authorising pool's record, and deposits and donations are only possible for pools the pool factory vouches for.",
  [I, H], "all callers, users, pools", "Tests mock all authorisations; none quantifies over who did not sign.",
  ["backstop/src/contract.rs", "backstop/src/backstop/deposit.rs", "backstop/src/backstop/fund_management.rs", "backstop/src/backstop/pool.rs"],
  [("require_auth", "backstop/src/contract.rs"), ("require_is_from_pool_factory", "backstop/src/backstop/pool.rs")], [], ["BackstopContract entry points"])
p("C10", "Emissions gulped by the backstop are split 70/30 over the reward zone and fully bounded",
  "Each gulp consumes exactly the emissions the emitter produced since the last gulp, never runs twice for the same period, and gives each reward-zone pool 70% to its backstop depositors and 30% to the pool, in proportion to the pool's tokens not queued for withdrawal. The total handed out never exceeds what was received and no pool outside the reward zone gets anything.",
  [I, H], "all reward zones, balances and times", "Tests use up to three pools and fixed amounts.",
  ["backstop/src/emissions/manager.rs", "backstop/src/emissions/distributor.rs"], [("gulp_emissions", "backstop/src/emissions/manager.rs"), ("set_backstop_emission_eps", "backstop/src/emissions/manager.rs")],
  [("LastDist", "last gulp time", "backstop/src/storage.rs"), ("PoolEmis", "accrued pool emissions", "backstop/src/storage.rs")], ["BackstopContract::gulp_emissions"])
p("C11", "Backstop depositors accrue and claim exactly their pro-rata emissions",
  "A depositor's claimable emissions grow by their non-queued shares times the growth of the pool's emission index since their last update, the index grows by the emission rate per non-queued share over the elapsed time up to expiration, and both are settled before any share balance changes. A claim pays exactly what accrued, once, and a claim into shares credits the recipient without letting it collect emissions accrued before.",
  [I, H], "all balances, rates, times and interleavings of users", "Ordering and rounding over all histories of several users.",
  ["backstop/src/emissions/distributor.rs", "backstop/src/emissions/claim.rs", "backstop/src/backstop/deposit.rs", "backstop/src/backstop/withdrawal.rs"],
  [("update_emissions", "backstop/src/emissions/distributor.rs"), ("execute_claim", "backstop/src/emissions/claim.rs")],
  [("BEmisData / UEmisData", "indices and accrued", "backstop/src/storage.rs")], ["BackstopContract::claim"])
p("C12", "The reward zone admits only qualifying pools and never exceeds its allowance",
  "A pool enters the reward zone only if it is above the backstop threshold and not already in it. While the zone holds fewer pools than its allowance (10, plus one for every 2^23 seconds since the backstop epoch) the pool is added and no other member changes; when it is full, the pool takes the place of exactly the named member, which must hold strictly fewer backstop tokens, and only if emissions were last distributed no more than 24 hours ago. No other operation changes the zone, and it never holds a pool twice.",
  [I, H], "all zones and candidate pairs", "Tests use zones of one to three pools; the zone size and membership rules quantify over all zones.",
  ["backstop/src/emissions/manager.rs", "backstop/src/backstop/pool.rs"], [("add_to_reward_zone", "backstop/src/emissions/manager.rs"), ("remove_from_reward_zone", "backstop/src/emissions/manager.rs")], [("RZ", "reward zone", "backstop/src/storage.rs")], ["BackstopContract::add_reward", "BackstopContract::remove_reward"])
p("C13", "A pool's backstop value and threshold are computed from its actual holdings",
  "The reported token, BLND and USDC amounts of a pool are the floor of its recorded tokens times the stored per-token values, the queued share is queued shares over total shares rounded up, and those per-token values are the exchange's holdings divided by its LP supply when refreshed. The threshold test passes exactly when blnd^4 * usdc >= 200,000^5, with both amounts truncated to whole tokens (products beyond the machine range saturate), so it never passes a pool below it.",
  [I, C], "all balances, LP valuations and queue ratios", "Two or three sampled points of a degree-five product with saturating arithmetic.",
  ["backstop/src/backstop/pool.rs", "backstop/src/contract.rs"], [("load_pool_backstop_data", "backstop/src/backstop/pool.rs"), ("is_pool_above_threshold", "backstop/src/backstop/pool.rs")], [("LPTknVal", "BLND and USDC per LP token", "backstop/src/storage.rs")], ["BackstopContract::pool_data", "BackstopContract::update_tkn_val"])
p("C14", "A pool can pull exactly the emissions assigned to it, once",
  "A pool's gulp returns exactly the emissions accrued to it since its last gulp, resets that record to zero, and grants the pool allowance for exactly that additional amount of BLND for a bounded time; only that pool can trigger it and no other pool's record changes.",
  [I, H], "all pools, amounts, allowances and histories", "Tests gulp once or twice.",
  ["backstop/src/emissions/manager.rs", "backstop/src/contract.rs"], [("gulp_pool_emissions", "backstop/src/emissions/manager.rs")], [("PoolEmis", "accrued pool emissions", "backstop/src/storage.rs")], ["BackstopContract::gulp_pool_emissions"])
p("C15", "Pool token conversions always round in the pool's favour",
  "Supplying mints the floor and withdrawing burns the ceiling of the supply tokens at the current supply rate, borrowing mints the ceiling and repaying burns the floor of the debt tokens at the current debt rate, and reported asset values round down for supply and up for debt. No sequence of such operations by a user yields more than was put in plus interest.",
  [I, H], "all amounts and rates", "Rounding direction matters only at non-divisible ratios that tests rarely hit.",
  ["pool/src/pool/reserve.rs", "pool/src/pool/actions.rs"], [("to_d_token_up / to_d_token_down / to_b_token_up / to_b_token_down / to_asset_from_*", "pool/src/pool/reserve.rs")], [("b_rate / d_rate", "exchange rates", "pool/src/storage.rs")], ["PoolContract::submit"])
p("C16", "Reserve supply totals always equal the sum of user positions",
  "For every reserve the recorded total of supply tokens equals the sum of all users' supplied and collateral tokens, and the total of debt tokens equals the sum of all liabilities: each operation changes the totals by exactly what it changes positions by. No position ever becomes negative and only the positions named in the operation change.",
  [I, H], "all users, reserves, request batches and auction fills", "Conservation over all request batches, including repeated requests on one reserve and liquidation fills.",
  ["pool/src/pool/user.rs", "pool/src/pool/actions.rs", "pool/src/auctions/user_liquidation_auction.rs", "pool/src/auctions/bad_debt_auction.rs"],
  [("add_supply / remove_supply / add_collateral / remove_collateral / add_liabilities / remove_liabilities", "pool/src/pool/user.rs")], [("Positions", "per user", "pool/src/storage.rs"), ("b_supply / d_supply", "reserve totals", "pool/src/storage.rs")], ["PoolContract::submit", "PoolContract::get_positions"])
p("C17", "No submit leaves a borrower undercollateralised",
  "After any submitted batch that borrowed, withdrew collateral, filled a user liquidation or bad-debt auction, if the acting user is left with any debt, their collateral value at collateral factors covers their debt value at liability factors by the required minimum health factor, using freshly accrued rates and oracle prices. If the batch would leave it below, the whole batch fails.",
  [I, H], "all batches, positions, prices and factors", "Batches combine requests in orders tests never sample; a missing health check needs just one.",
  ["pool/src/pool/submit.rs", "pool/src/pool/actions.rs", "pool/src/pool/health_factor.rs"],
  [("execute_submit", "pool/src/pool/submit.rs"), ("build_actions_from_request", "pool/src/pool/actions.rs"), ("PositionData::calculate_from_positions / is_hf_under", "pool/src/pool/health_factor.rs")], [], ["PoolContract::submit"])
p("C18", "Pool status gates user actions as published",
  "While the pool is on ice (status 2 or worse) no request of a submitted batch can borrow or cancel a liquidation auction, and while it is frozen (status 4 or worse, including setup) no request can supply, with or without collateral. Withdrawing, repaying and filling auctions are not gated by the status. A request of an unknown kind fails the batch.",
  [I, C], "all statuses, reserves and request kinds", "A matrix of statuses by request kinds by batch positions.",
  ["pool/src/pool/pool.rs", "pool/src/pool/actions.rs", "pool/src/pool/reserve.rs"], [("require_action_allowed", "pool/src/pool/pool.rs"), ("require_action_allowed", "pool/src/pool/reserve.rs")], [("status", "pool status", "pool/src/storage.rs")], ["PoolContract::submit"])
p("C19", "Borrowing never exceeds a reserve's utilization cap or the position limit",
  "Any borrow leaves the reserve's utilization (debt over supply, rounded up, at freshly accrued rates and including the borrow itself) at or below its configured maximum, and a submitted batch that increases the number of a user's liability and collateral positions leaves the user with at most the pool's maximum number of them.",
  [I, H], "all reserves, amounts and batches", "Order of requests within a batch and exact cap boundaries.",
  ["pool/src/pool/reserve.rs", "pool/src/pool/actions.rs", "pool/src/pool/pool.rs"], [("require_utilization_below_max", "pool/src/pool/reserve.rs"), ("require_under_max", "pool/src/pool/pool.rs")], [], ["PoolContract::submit"])
p("C20", "Interest accrual conserves value between borrowers, suppliers and the backstop",
  "Over any elapsed time the debt rate grows by the modelled interest rounded up, and the interest charged to borrowers is split exactly between the backstop's credit (the take rate, rounded down) and the suppliers through the supply rate (rounded down), so suppliers and backstop are never credited more than borrowers owe. Accrual happens before any use of a reserve's rates, moves its clock to now, and happens once per ledger time.",
  [I, H], "all rates, supplies, utilizations and time gaps", "Compounding and rounding over arbitrary gaps.",
  ["pool/src/pool/reserve.rs"], [("Reserve::load", "pool/src/pool/reserve.rs"), ("accrue", "pool/src/pool/reserve.rs")], [("ReserveData", "rates, supplies, backstop credit, last_time", "pool/src/storage.rs")], ["PoolContract::submit"])
p("C21", "The interest rate follows the three-leg utilization curve within its bounds",
  "The charged rate is the published piecewise-linear function of utilization scaled by the rate modifier, monotone and continuous in the utilization, and the rate modifier moves with the utilization error at the configured reactivity, staying between 0.1 and 10. The per-period accrual factor is at least 1.",
  [I, C], "all utilizations, configurations and modifiers", "Tests sample single points on each leg.",
  ["pool/src/pool/interest.rs"], [("calc_accrual", "pool/src/pool/interest.rs")], [("ir_mod", "rate modifier", "pool/src/storage.rs")], ["PoolContract::submit"])
p("C22", "A Dutch auction's terms follow the published schedule and fills are proportional",
  "At block distance n from its start the lot is scaled by min(n,200)/200 rounded down and the bid by 1 until 200 then down to 0 at 400, for every asset, and a partial fill of p percent takes p percent of both (bid rounded up, lot rounded down) and leaves exactly the rest with the same start. An auction cannot be filled before its start block or for more than 100% or less than 1%.",
  [I, H], "all block distances, percentages, amounts and chains of partial fills", "Sampled blocks and percentages only.",
  ["pool/src/auctions/auction.rs"], [("scale_auction", "pool/src/auctions/auction.rs"), ("fill", "pool/src/auctions/auction.rs")], [("Auction", "stored auction", "pool/src/storage.rs")], ["PoolContract::submit", "PoolContract::get_auction"])
p("C23", "Only unhealthy users can be liquidated, and only as far as needed",
  "A user liquidation auction can be created only when the user's debt exceeds their collateral capacity and none exists for them; its bid and lot are the stated percentage of the user's own liabilities and collateral, and the percentage must neither leave the user still unhealthy nor overshoot the published bound. A fill moves exactly the scaled bid and lot from the user to the filler.",
  [I, H], "all positions, prices and percentages", "A region of percentages per position that tests sample at a few points.",
  ["pool/src/auctions/user_liquidation_auction.rs", "pool/src/auctions/auction.rs"], [("create_user_liq_auction_data", "pool/src/auctions/user_liquidation_auction.rs"), ("fill_user_liq_auction", "pool/src/auctions/user_liquidation_auction.rs")], [("Auction", "stored auctions", "pool/src/storage.rs")], ["PoolContract::new_liquidation_auction", "PoolContract::submit"])
p("C24", "Bad debt passes whole to the backstop and is lost only when the backstop is empty",
  "Debt moves to the backstop only from a user with liabilities and no collateral left, and then all of it moves with no amount created or lost. It is sold by auctions whose bid is all the backstop's debt and whose lot is backstop tokens worth 140% of it, at most all the pool's backstop holds; the filler takes on exactly the filled debt and is paid exactly the filled lot. Debt is written off only on a fill of a bad-debt auction after which the backstop still carries debt while the pool's backstop is nearly empty (its product constant is below 3 * 10^-7 of the required one, i.e. about 5% of the threshold balances), and then all of the backstop's remaining debt is.",
  [I, H], "all positions and backstop sizes", "Multi-step histories across three contracts.",
  ["pool/src/auctions/bad_debt_auction.rs", "pool/src/pool/bad_debt.rs", "pool/src/pool/submit.rs"], [("transfer_bad_debt_to_backstop / burn_backstop_bad_debt", "pool/src/pool/bad_debt.rs"), ("create_bad_debt_auction_data / fill_bad_debt_auction", "pool/src/auctions/bad_debt_auction.rs")], [], ["PoolContract::bad_debt", "PoolContract::new_auction", "PoolContract::submit"])
p("C25", "Interest auctions sell exactly the backstop's accrued interest for donations to it",
  "An interest auction's lot is exactly the accrued backstop credit of the listed reserves, its bid is worth 140% of it in backstop tokens, and it can be created only for more than 200 units of value and while none exists. A fill pays the bid to the backstop as a donation, pays exactly the lot to the filler, and reduces the reserves' credit by exactly the lot.",
  [I, H], "all credits, prices and fills", "Sampled credits and prices.",
  ["pool/src/auctions/backstop_interest_auction.rs"], [("create_interest_auction_data / fill_interest_auction", "pool/src/auctions/backstop_interest_auction.rs")], [("backstop_credit", "accrued interest owed to the backstop", "pool/src/storage.rs")], ["PoolContract::new_auction", "PoolContract::submit"])
p("C26", "Pool users accrue and claim exactly their pro-rata emissions",
  "A user's claimable emissions for a reserve token grow by their balance times the growth of that token's emission index since their last update, the index grows by the rate per token over elapsed time up to expiration, and both are settled with the balances from before every balance change. A claim pays exactly what accrued, once, and resets it to zero.",
  [I, H], "all balances, rates, times and interleavings", "Ordering errors show only in specific interleavings of several users.",
  ["pool/src/emissions/distributor.rs", "pool/src/pool/user.rs", "pool/src/contract.rs"], [("update_emissions / execute_claim", "pool/src/emissions/distributor.rs")], [("EmisData / UserEmis", "indices and accrued", "pool/src/storage.rs")], ["PoolContract::claim"])
p("C27", "Pool emissions are divided by the configured weights and never over-allocated",
  "Each gulp (of at least 1 BLND) divides exactly the emissions received from the backstop over the configured reserve tokens by their shares of the total weight, rounded down, over the next seven days, adding what the previous period had not yet paid. Only valid reserve tokens can be configured, each gets at most its share, and the sum never exceeds what was received.",
  [I, H], "all weight tables, amounts and times", "Sampled weight tables.",
  ["pool/src/emissions/manager.rs"], [("set_pool_emissions", "pool/src/emissions/manager.rs"), ("gulp_emissions", "pool/src/emissions/manager.rs")], [("PoolEmis", "weights", "pool/src/storage.rs")], ["PoolContract::gulp_emissions", "PoolContract::set_emissions_config"])
p("C28", "Reserve configuration changes are validated, time-locked and bound to what was queued",
  "A reserve can be created or changed only with exactly the metadata that the admin queued and did not cancel, at least seven days before (no delay while the pool is still in setup), only once per queueing, never while another change is queued for it, and only with parameters inside the published bounds. A reserve's index and decimals never change, its interest is accrued under the old parameters up to the change, and a new reserve gets the next free index and starts with rates of 1.",
  [I, H], "all metadata, times and histories of queue / cancel / set", "Bounds and delays are sampled at single points.",
  ["pool/src/pool/config.rs"], [("execute_queue_set_reserve / execute_cancel_queued_set_reserve / execute_set_reserve / require_valid_reserve_metadata", "pool/src/pool/config.rs")], [("ResInit", "queued reserve", "pool/src/storage.rs"), ("ResList", "reserve list", "pool/src/storage.rs")], ["PoolContract::queue_set_reserve", "PoolContract::set_reserve", "PoolContract::cancel_set_reserve"])
p("C29", "Privileged and personal pool operations need the right authorisation",
  "Changing the admin, the pool configuration, reserves, emission weights or the status by fiat requires the current admin's authorisation, and a new admin must authorise taking over. Submitting and claiming require the affected user's authorisation (and the payer's), and no permissionless operation changes any of those settings or takes a healthy user's funds.",
  [I, H], "all callers and all entry points", "Tests mock all authorisations; none quantifies over who did not sign.",
  ["pool/src/contract.rs", "pool/src/pool/submit.rs"], [("require_auth", "pool/src/contract.rs")], [("Admin", "admin", "pool/src/storage.rs")], ["PoolContract entry points"])
p("C30", "Every contract is initialised exactly once and its fixed settings never change",
  "Initialisation succeeds only once per contract and stores exactly the given values; a pool's initialisation rejects a take rate of 100% or more and fewer than 2 positions. After that no operation changes the fixed references (tokens, backstop, factory, oracle, pool code), apart from the emitter's backstop swap.",
  [I, H], "all operations of all four contracts and all initial arguments", "A frame property over every entry point.",
  ["emitter/src/contract.rs", "pool-factory/src/pool_factory.rs", "backstop/src/contract.rs", "pool/src/contract.rs", "pool/src/pool/config.rs"], [("initialize", "*/src/contract.rs"), ("execute_initialize", "pool/src/pool/config.rs")], [("IsInit", "initialised flag", "*/src/storage.rs")], ["initialize of each contract"])
p("C31", "Tokens moved by a submit match the position changes exactly",
  "A submitted batch pulls from the spender exactly the total supplied and repaid per asset, and pays to the recipient exactly the total withdrawn, borrowed and refunded (over-repaid or over-withdrawn requests are capped to the position), and nothing else moves. A negative request amount is refused.",
  [I, H], "all request batches", "Netting over repeated requests of mixed kinds on several assets.",
  ["pool/src/pool/actions.rs", "pool/src/pool/submit.rs"], [("build_actions_from_request", "pool/src/pool/actions.rs"), ("execute_submit", "pool/src/pool/submit.rs")], [], ["PoolContract::submit"])
p("C32", "Stale or missing oracle prices never value a position",
  "Every price used for health, auctions or liquidations is the pool's oracle's latest price for that asset and is at most 24 hours old; if it is missing or older the operation fails. Positions are valued by summing effective collateral (collateral factor applied, rounded down) and effective liabilities (liability factor applied, rounded up) over exactly the user's reserves, in the oracle's decimals.",
  [I, H], "all positions, prices, ages and decimals", "Sampled prices, always fresh in tests.",
  ["pool/src/pool/pool.rs", "pool/src/pool/health_factor.rs"], [("load_price", "pool/src/pool/pool.rs"), ("calculate_from_positions", "pool/src/pool/health_factor.rs")], [], ["PoolContract::submit", "PoolContract::new_liquidation_auction"])
p("C33", "Pool status transitions follow the backstop's state",
  "The permissionless status update sets exactly the status dictated by the backstop's queued share and size: from admin-active (0), on ice (3) if the backstop is below the threshold or at least 50% is queued; from admin-ice (2), frozen (5) if at least 75% is queued; from admin-freeze (4) and setup (6) it fails; from the others, frozen (5) at 60% queued or more, on ice (3) at 30% or more or below the threshold, active (1) otherwise. The admin can set only active (0; needs the threshold met and less than 50% queued), on ice (2 or 3; needs less than 75% queued) or frozen (4).",
  [I, H], "all backstop states and current statuses", "A table of statuses by thresholds with exact boundaries.",
  ["pool/src/pool/status.rs"], [("execute_update_pool_status / execute_set_pool_status", "pool/src/pool/status.rs")], [("status", "pool status", "pool/src/storage.rs")], ["PoolContract::update_status", "PoolContract::set_status"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
