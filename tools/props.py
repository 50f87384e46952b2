PROPS = []
TECH = "static analysis: gated-SSA dataflow over rustc MIR"
NOTE = ("Sound for every input and reachable path of the compiled code under the stated models of the SDK and standard library: path conditions and values of each entry point are "
        "computed symbolically as gated dataflow facts (no solver, no execution) and each obligation is decided by entailment between gated formulas; loops are summarised, cross-contract callees uninterpreted.")


def P(id, title, statement, over, quant, why, files, mech, tech=TECH, note=NOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(), mech=mech, tech=tech, note=note, **kw))


C = "contracts/%s/src/contract.rs"
ALLC = " ".join(C % c for c in ("factory", "multihop", "pool", "pool_stable", "stake", "stake_rewards", "trader", "vesting", "token"))

P("P01", "Only the stored administrator can use administrative powers",
  "Upgrading a contract's code, changing its configuration or governance state, funding distributions, creating vesting schedules, setting minter capacity, trading and withdrawing from the trader, and minting tokens succeed only if the administrator stored at that moment authorised the call. No other entry point can change who the administrator is, or the fees, limits, whitelists, hashes and addresses it governs.",
  "inputs histories", "every entry point of every contract, every caller, every argument, every stored state",
  "tests mock all authorisations or try a few unauthorised callers; whether each path to a privileged write passes the check is a statement about all paths",
  ALLC, [("administrator check", C % "pool"), ("admin storage", "contracts/pool/src/storage.rs")])
P("P02", "A contract can be initialised exactly once",
  "After a contract has been initialised no call can initialise it again, by any of its initialisers, and nothing but initialisation changes the flag this depends on; the token's administrator is set by its constructor only and afterwards only through the administrator's own handover.",
  "histories inputs", "every history of calls after the first initialisation, every argument",
  "tests re-initialise a contract once with one argument set; they cannot show that no later call clears or bypasses the flag",
  ALLC, [("initialisation flag", "contracts/vesting/src/storage.rs")])
P("P03", "Tokens move only with their owner's consent and only to rightful payees",
  "Every token movement a contract starts debits either the contract itself or an account that authorised that very call; the contract's own funds go only to the calling account, the configured fee recipient, the staker named in a reward withdrawal, or where the administrator directs. Liquidity shares are minted only to the contract itself or the caller.",
  "inputs histories", "every call site that moves tokens or swaps on somebody's behalf, on every path",
  "tests run with all authorisations mocked, so a missing or misdirected authorisation cannot fail them",
  ALLC, [("sender authorisation", C % "pool"), ("pay-outs", C % "stake"), ("mint and burn", "contracts/pool/src/contract.rs")])
P("P04", "A call past its deadline never succeeds",
  "Swaps, liquidity provision and liquidity withdrawal in both pools fail when the ledger time is later than the deadline given, and are never rejected because of a deadline that has not passed. The router and the trader hand the user's deadline unchanged to every pool they call.",
  "inputs schedules", "every deadline, every ledger time, every path to a successful return",
  "tests try one or two timestamps around one deadline",
  " ".join(C % c for c in ("pool", "pool_stable", "multihop", "trader")), [("deadline check", C % "pool"), ("deadline forwarding", C % "multihop")])

PS = C % "pool" + " " + C % "pool_stable"
P("P05", "A swap honours every limit the caller and the pool set",
  "A swap succeeds only if the offered amount is positive, the offered asset is one of the pool's tokens, the pool's fee does not exceed the caller's fee ceiling, the caller's spread limit lies between zero and the pool's maximum, the spread of the trade stays within that limit (the pool's when none is given), and the amount returned after commission is at least the caller's minimum. A swap within all of these limits and its deadline, the exact boundary values included, is not rejected.",
  "inputs", "every amount, reserve, fee, limit and option combination in both pools",
  "tests try a handful of amounts, mostly without optional limits; boundaries and combinations of options are sampled at best",
  PS, [("swap limits", C % "pool" + " do_swap"), ("spread check", C % "pool_stable" + " assert_max_spread")])
P("P06", "Deposits and withdrawals honour the limits the caller set",
  "A deposit succeeds only if the desired amounts are positive, the caller's slippage tolerance does not exceed the pool's maximum, at least the minimum amounts (constant-product pool) or minimum shares (stable pool) are met, the deposit deviates from the pool's ratio by no more than the tolerated slippage, and a first deposit is worth more than the minimum liquidity. A withdrawal succeeds only if the shares are positive, the pool is not empty and both minimums are met; whatever meets the limits is not rejected.",
  "inputs", "every amount, reserve and option combination of deposits and withdrawals in both pools",
  "tests sample a few deposits; whether each branch of the ratio and slippage logic enforces the limit for all amounts cannot be sampled",
  PS, [("deposit limits", C % "pool" + " provide_liquidity"), ("slippage", C % "pool" + " assert_slippage_tolerance")])
P("P07", "Recorded reserves change by exactly what the pool receives and pays",
  "A swap raises the recorded reserve of the sold token by what arrived and lowers the other by the return plus the commission; a deposit sets each reserve to the pool's balance after it; a withdrawal lowers each by what is paid out. No other call changes the reserves, and these calls change nothing else in storage.",
  "inputs histories", "every entry point of both pools, every amount and direction",
  "tests compare reserves after a few calls; a mismatch in one direction, or another writer, shows only in untested histories",
  PS, [("reserve update", C % "pool" + " do_swap"), ("reserve storage", "contracts/pool/src/storage.rs")])
P("P08", "The recorded share supply always matches shares minted and burned",
  "Each deposit raises the recorded share supply by exactly the shares it mints (the first deposit of a constant-product pool also mints the locked minimum liquidity to the pool), and each withdrawal lowers it by exactly the shares burned. No other call mints or burns shares or changes the recorded supply.",
  "inputs histories", "every entry point of both pools",
  "tests check the supply after a few deposits; they cannot exclude another path that mints or changes the record",
  PS, [("share minting", C % "pool" + " provide_liquidity"), ("share burning", C % "pool" + " withdraw_liquidity")])
P("P09", "A constant-product swap settles exactly at the quoted price",
  "The only token movements of a swap are the offered amount from the caller to the pool, the return (the constant-product amount less the commission, rounded as quoted) to the caller, and the commission at the pool's fee rate to the configured fee recipient; the amount returned by the call is the amount paid.",
  "inputs", "every amount, reserve, fee and direction, including amounts where rounding makes the spread or the commission vanish",
  "tests check a few amounts; the payee, direction and rounding of every path need an argument over all values",
  C % "pool", [("settlement", C % "pool" + " do_swap"), ("pricing", C % "pool" + " compute_swap")])
P("P10", "Deposits and withdrawals are settled proportionally",
  "A deposit takes exactly the deposit amounts (the optimal ones at the pool's ratio, or the desired ones) and mints exactly the proportional shares, measured by the smaller side (constant-product) or the invariant's growth (stable), to the depositor; a withdrawal takes the shares from the caller, burns exactly those and pays the proportional part of both reserves. If asked, minted shares are bonded, or unbonded before withdrawal, for the caller in the pool's own stake contract; there is no other movement.",
  "inputs", "every deposit and withdrawal of both pools: amounts, reserves, supply, option combinations",
  "tests check a few ratios; formulas, rounding and recipients on every branch need an argument over all values",
  PS, [("deposit", C % "pool" + " provide_liquidity"), ("withdrawal", C % "pool" + " withdraw_liquidity")])
P("P11", "Quotes equal what the operation would settle at",
  "The simulated swap returns exactly the amount, commission and spread a swap would settle at in the same state, whatever the decimals of the tokens; the reverse simulation returns the offer needed under the same formula with the commission added; the share query returns exactly what a withdrawal of those shares pays, and zero for an empty pool.",
  "inputs", "every amount, reserve and fee, both directions, both pools",
  "tests compare quote and swap for single amounts; equality for every state is a comparison of formulas",
  PS, [("simulation", C % "pool" + " simulate_swap"), ("share query", C % "pool" + " query_share")])
P("P26", "Pool fees and limits stay within bounds and change only as asked",
  "A pool cannot be initialised, upgraded or reconfigured with basis points outside 0 to 10000, nor initialised with a swap fee above the maximum it was given. A configuration update sets exactly the fields given and keeps all the others, and a valid update by the administrator is not rejected.",
  "inputs histories", "every combination of optional fields and values, every stored configuration, both pools",
  "tests update a few combinations; which of the 2^n combinations keeps or changes which field is a statement about all of them",
  PS, [("update_config", C % "pool" + " update_config"), ("validation", "packages/phoenix/src/utils.rs")])
P("P32", "Stable pool pricing follows the stableswap equation in each token's units",
  "A stable swap moves exactly the offered amount in, and the return and commission out, priced by the stableswap curve on reserves and amounts scaled with each token's own decimals. Invariant and curve iterate Newton's step of the stableswap equation at the current amplification, return only a converged value and stop after a fixed number of rounds; the amplification moves linearly between its two settings and stays at the second one afterwards.",
  "inputs", "every balance, decimals pair, amplification and time",
  "tests use tokens of equal decimals and small balances; a wrong term or scale shows only for other values",
  C % "pool_stable" + " contracts/pool_stable/src/math.rs", [("curve", "contracts/pool_stable/src/math.rs calc_y"), ("invariant", "contracts/pool_stable/src/math.rs compute_d"), ("amplification", "contracts/pool_stable/src/math.rs compute_current_amp")])
P("P35", "A new pool's state is exactly what its creator asked for",
  "After initialisation a pool has the two distinct, ordered tokens, the fees, limits, fee recipient and administrator it was given, empty reserves and zero share supply, a share token it deployed itself and is administrator of, and a stake contract it deployed itself and initialised with that share token, the given administrator, manager, factory and staking limits. A stable pool also records both tokens' true decimals and accepts only an amplification between 1 and its maximum.",
  "inputs", "every initialisation argument of both pools",
  "tests initialise with one or two configurations and read back few fields; swapped or dropped arguments of equal type go unnoticed",
  PS, [("initialisation", C % "pool" + " initialize"), ("initialisation", C % "pool_stable" + " initialize")])

P("P24", "The trader trades and pays out exactly what its administrator asks",
  "A trade swaps exactly the given amount (everything held, if none is given) of one of the pair's tokens, on the trader's own behalf and within the limits given, and authorises the pool to pull that amount and nothing else; a token outside the pair or a spread limit outside 0 to 10000 is rejected. A withdrawal transfers exactly the given amount of the given token (the output token by default) to the recipient; the configuration never changes after initialisation.",
  "inputs", "every argument and option combination, every stored configuration",
  "tests mock all authorisations, so an authorisation for the wrong call, payee or amount goes unnoticed, and sample few option combinations",
  C % "trader", [("trade_token", C % "trader"), ("transfer", C % "trader")])
P("P25", "Token movements conserve balances and respect allowances",
  "A transfer takes exactly the amount from the payer, who holds it and authorised the call, and gives exactly it to the payee (paying oneself changes nothing); mint and burn change exactly one balance by exactly the amount, and no other balance changes. A third party spends only within an unexpired allowance, which shrinks by exactly the amount spent; name, symbol and decimals never change.",
  "inputs histories", "every entry point of the token, every account, also payer and payee being the same, every amount and expiry",
  "tests check single transfers between distinct accounts; conservation is about every combination of accounts, amounts and expiries",
  "contracts/token/src/contract.rs contracts/token/src/balance.rs contracts/token/src/allowance.rs", [("balances", "contracts/token/src/balance.rs"), ("allowances", "contracts/token/src/allowance.rs")])
P("P13", "Bonding and unbonding keep every staker's stakes exactly",
  "Bonding takes exactly the amount of shares from the staker and adds one stake of that amount at the current time; unbonding removes exactly one stake of the given amount and time, which the staker must hold, and returns exactly those shares. The staker's and the contract's totals change by exactly that amount, nothing else about any staker changes in these or any other calls, and only bonds below the minimum and stakes that do not exist are rejected.",
  "inputs histories", "every staker, list of stakes (duplicates included), amount and time",
  "tests bond and unbond a few stakes; which entry is removed and what stays untouched concerns every list of stakes",
  C % "stake", [("bond", C % "stake" + " bond"), ("unbond", C % "stake" + " unbond, remove_stake")])
P("P14", "Reward funding is recorded exactly and never rewrites the past",
  "A reward asset is registered at most once, only by the manager or the owner, and starts with an empty history. Funding a registered asset, again only by them, takes exactly the amount from the funder and adds exactly it to the asset's reward of that moment together with the total staked then; earlier entries, other assets and the list of rewards never change.",
  "inputs histories", "every funder, asset, amount, moment (also the same one twice) and earlier history",
  "tests fund a handful of times; preservation of every earlier entry and of the other assets is a statement about all histories",
  C % "stake", [("create_distribution_flow", C % "stake"), ("distribute_rewards", C % "stake")])
P("P15", "Staking rewards are paid once, in full, and as reported",
  "A withdrawal pays the staker, for every registered asset, exactly the sum over the funding moments since the last withdrawal of each stake's share of that moment's reward, scaled by the stake's age in days at that moment up to sixty; it then marks the rewards as withdrawn at the current time and changes nothing else. The reported withdrawable rewards list, for every registered asset, exactly those amounts.",
  "inputs histories", "every list of stakes, reward history, funding and withdrawal time",
  "tests follow a few stakers over a few days; the amount and the equality of payment and report are about every history",
  C % "stake" + " contracts/stake/src/distribution.rs", [("withdraw_rewards", C % "stake"), ("query_withdrawable_rewards", C % "stake"), ("reward", "contracts/stake/src/distribution.rs")])

VE = C % "vesting"
P("P17", "Vesting schedules are fully funded and recorded exactly as given",
  "Creating vesting schedules moves exactly the sum of all schedules' starting values from the administrator into the contract in one transfer, and records each schedule unclaimed for its recipient at the first index that recipient has free, touching no other record. Exactly the non-empty lists of schedules for distinct recipients whose curves decrease, are not constant, end at zero and stay below the complexity limit are accepted.",
  "inputs histories", "every list of schedules, every curve shape, every stored history of earlier schedules",
  "tests create one to three schedules with simple curves; the funded sum and the free index concern every list and history",
  VE, [("create_vesting_schedules", VE), ("records", "contracts/vesting/src/storage.rs")])
P("P18", "A claim pays exactly what vested and was not yet paid",
  "A claim pays the claimant exactly the difference between what the claimant's record holds and what the schedule still locks at that moment, after which the record holds exactly what is locked; no other record changes, and only a call without anything to claim is rejected. The queries report every record and exactly the amount a claim would pay.",
  "inputs histories schedules", "every schedule, claimant, index, earlier claims and ledger time",
  "tests claim at a few times on a few schedules; conservation over repeated claims holds for every time and schedule or not at all",
  VE, [("claim", VE), ("query_available_to_claim", VE)])
P("P19", "The vesting minter mints only within its capacity",
  "Minting is open to the current minter only, creates exactly the amount for the vesting contract and reduces the remaining capacity by exactly it, never below zero. Only the minter (the administrator while there is none) names a new minter, who inherits the remaining capacity; only the administrator sets the capacity; a burn destroys exactly the caller's own amount.",
  "inputs histories", "every caller, amount, capacity and history of minters",
  "tests cover a few mints and handovers with all authorisations mocked",
  VE, [("mint", VE), ("update_minter", VE), ("burn", VE)])
P("P20", "The factory creates exactly the pool requested, once per pair",
  "Only whitelisted accounts create pools, for an ordered pair of distinct tokens with all basis points in range; the pool runs the configured code for its kind at an address determined by the pair alone, and is initialised exactly once with the configured hashes, decimals, this factory and exactly the requested settings. It is then listed once and found by its pair in either order, and no other call changes the registry.",
  "inputs histories", "every request, configuration and earlier registry",
  "tests create pools with one set of settings; swapped or dropped settings of equal type and pair collisions go unnoticed",
  C % "factory", [("create_liquidity_pool", C % "factory"), ("registry", "contracts/factory/src/storage.rs"), ("deployment", "contracts/factory/src/utils.rs")])
P("P21", "Factory configuration updates and reports are exact",
  "After a whitelist update an account is whitelisted exactly if it was whitelisted or added, and not removed; a hash update sets exactly the hashes given, and nothing else in the configuration ever changes. Queries report every registered pool with its own details, the same pool for a pair in either order, and for an account the worth of all the shares it holds and has staked in every pool.",
  "inputs histories", "every list (duplicates included), every stored configuration and registry, every account",
  "tests add and remove single accounts and read portfolios of one or two pools",
  C % "factory", [("update_whitelisted_accounts", C % "factory"), ("update_wasm_hashes", C % "factory"), ("query_user_portfolio", C % "factory")])
P("P16", "Reward contract accounting is exact and never loses what is accrued",
  "A distribution shares out exactly what the reward contract holds, does not owe and has unlocked, carrying the indivisible rest over; a withdrawal pays the user exactly the reported reward and records exactly that as withdrawn and no longer owed. A change of stake keeps everything accrued before unchanged to the last share, and funding takes exactly the amount from the administrator and adds exactly its linear unlocking to the curve. Authorised calls are rejected only for a funding that is below the minimum, starts in the past or makes the curve too long; the projected yearly reward is what unlocks within a year (extrapolated when less is left) per staking point.",
  "inputs histories", "every user, stake, amount, curve, time and accounting state",
  "the contract's tests cover few stakers and amounts; that a change of stake neither adds to nor takes from the accrued reward is a statement about every state",
  C % "stake_rewards" + " contracts/stake_rewards/src/distribution.rs", [("distribute_rewards", C % "stake_rewards"), ("withdraw_rewards", C % "stake_rewards"), ("corrections", "contracts/stake_rewards/src/distribution.rs")])
P("P22", "A multi-hop swap performs exactly the listed swaps in a chain",
  "A multi-hop swap performs, for every listed operation in order, exactly one swap in the pool the factory lists for its pair, on the recipient's behalf and with the operation's minimum and the caller's limits; the first offers the given amount and each later one exactly what the one before returned. Only empty and unconnected lists are rejected, the recipient authorises the swap, and nothing else is called or stored.",
  "inputs", "every list of operations, amount, limit and kind of pool",
  "tests chain two or three swaps in pools with zero fees; the chaining of amounts and limits concerns lists of every length",
  C % "multihop" + " contracts/multihop/src/utils.rs", [("swap", C % "multihop"), ("connectedness", "contracts/multihop/src/utils.rs")])
P("P23", "Multi-hop quotes chain the pools' own quotes",
  "A simulated multi-hop swap asks, in order, the same pools for the same tokens a swap would use, feeding every quoted amount into the next, and reports the last amount and every step's commission and spread; a reverse quote does the same from the wanted amount back. Only empty and unconnected lists are rejected.",
  "inputs", "every list of operations, amount and kind of pool",
  "tests simulate two or three operations in pools whose quotes are nearly one to one",
  C % "multihop", [("simulate_swap", C % "multihop"), ("simulate_reverse_swap", C % "multihop")])
P("P30", "Curves evaluate, validate and combine as documented",
  "A curve's value at a time is its constant, the line between its two points (constant outside them), or the line between the two steps around that time (the first and last value outside them). Validation accepts exactly curves with points in increasing order and, where asked, values that never move the wrong way. A combined curve has its points at exactly the times of both, in order, and equals their sum at each; size, end and range are the curve's own.",
  "inputs", "every curve of every shape with any number of steps, every time",
  "tests evaluate a few curves at a few times; neighbour selection, saturation and monotonicity concern every list of steps and every time",
  "packages/curve/src/lib.rs contracts/vesting/src/utils.rs", [("evaluation", "packages/curve/src/lib.rs value"), ("validation", "packages/curve/src/lib.rs validate"), ("combination", "packages/curve/src/lib.rs combine")])
P("P31", "Decimal arithmetic is exact fixed-point arithmetic",
  "A decimal is a whole number of 10^-18 units. Conversions from percent, permille, basis points, ratios and atomic units, sums, products and quotients give exactly the integer formula, multiplying before dividing and cutting off once towards zero; comparisons compare the units, and only a zero divisor (or a number that does not fit) is rejected.",
  "inputs", "every operand of every operation the contracts use, negative ones included",
  "tests check a few operands per operation; lost precision or a wrong factor shows only for others",
  "packages/decimal/src/decimal.rs", [("arithmetic", "packages/decimal/src/decimal.rs"), ("ratios", "packages/decimal/src/decimal.rs checked_from_ratio")])

P("P12", "Queries change nothing and report what is recorded",
  "No query or simulation of any contract changes storage, moves tokens or needs an authorisation, and a query of recorded state is never rejected. Administrators, configurations, tokens, reserves, supplies and other recorded values are reported exactly as recorded at that moment, and queries of the same fact agree with each other.",
  "inputs histories", "every query and simulation of every contract, every stored state, every caller",
  "tests read a few fields after a few calls; that no path of a query writes, and that each field comes from its own record, concerns all states",
  ALLC, [("queries", "contracts/*/src/contract.rs query_*, simulate_*, get_*"), ("storage accessors", "contracts/*/src/storage.rs")])
P("P27", "Records a contract still needs are kept alive",
  "Every successful call other than initialisation, code replacement and reading the token's fixed metadata keeps the contract alive for at least six days, and every persistent record a successful call reads or writes stays alive for at least twenty-nine days. An allowance lives exactly until the ledger it was granted until, and no call fails for asking for an extension the ledger refuses.",
  "inputs histories schedules", "every entry point of every contract, every path to a storage access",
  "the test ledger never ages entries far enough to archive anything, so a missing extension cannot fail a test",
  ALLC, [("lifetimes", "packages/phoenix/src/ttl.rs"), ("storage accessors", "contracts/*/src/storage.rs"), ("reward records", "contracts/stake_rewards/src/distribution.rs"), ("allowances", "contracts/token/src/allowance.rs")])
P("P28", "A new contract's state is exactly what it was initialised with",
  "After the initialisation of the factory, router, staking, rewards, trader or vesting contract or the token, its queries report exactly what initialisation was given, and it starts without stakes, pools, rewards or debts; the factory also deploys its router from the given code and initialises it for itself. A first initialisation is rejected only for an empty whitelist, non-positive staking limits or more than 18 decimals.",
  "inputs", "every argument of every initialiser",
  "tests initialise with one set of arguments and read back few of them; swapped or dropped arguments of equal type go unnoticed",
  ALLC, [("initialisation", "contracts/*/src/contract.rs initialize"), ("token", "contracts/token/src/contract.rs __constructor")])
P("P29", "Conversions between integer types never change a number",
  "Wherever a contract turns a number into a narrower or differently signed integer type (amounts into the token interface's signed type and back, reserves, shares, rewards, amplification), the number arrives unchanged or the call is rejected: no path drops bits or turns a large amount into a negative one.",
  "inputs histories", "every such conversion reachable from any entry point, every amount and stored state",
  "tests use amounts far below the limits of the types; a conversion that wraps shows only for amounts beyond them",
  ALLC + " packages/phoenix/src/utils.rs", [("conversions", "packages/phoenix/src/utils.rs convert_i128_to_u128, convert_u128_to_i128"), ("casts", "`as` conversions in contracts/*/src")],
  note="Sound for every input and reachable path under the models: each conversion's argument is bounded by declared types, the path condition, what a token refuses to move (negative amounts) and, in the staking contract, "
       "that a recorded stake is positive and at most the total recorded with a reward (P13, P14) and a recorded reward a sum of amounts moved; interval analysis, no solver, no execution.")

P("P33", "Contracts that call each other by name agree on the interface",
  "Whenever a contract calls another one by function name (the factory its pools, share tokens and stake contracts, and every contract it initialises), the callee exports that function and takes exactly as many arguments, of exactly the types handed over. The answer is read as the type the callee returns: the same field names, variants and number types, for the constant-product pool as well as the stable pool.",
  "inputs histories", "every call by name on every path, against every contract it can reach",
  "nothing type-checks a call by name; a test sees a mismatch only for the kind of pool, and the state, it happens to query",
  C % "factory" + " contracts/factory/src/utils.rs contracts/factory/src/storage.rs contracts/pool/src/storage.rs contracts/pool_stable/src/storage.rs contracts/stake/src/msg.rs",
  [("calls by name", C % "factory"), ("answers", "contracts/factory/src/storage.rs LiquidityPoolInfo, PoolResponse, Asset"), ("pool details", "contracts/pool_stable/src/storage.rs StableLiquidityPoolInfo")],
  tech="static analysis: structural type agreement across crates over call sites resolved by gated-SSA dataflow")
P("P34", "Published events report exactly what the call did",
  "Every successful call that moves tokens, changes stakes, rewards, allowances or minting rights, creates a pool or initialises a contract publishes its events, each exactly once. The parties, tokens and amounts they carry are exactly those the call moved, recorded or returned, and none is published for something that did not happen.",
  "inputs histories", "every entry point that publishes, every argument, every stored state, every path",
  "the tests do not look at events, so a missing, repeated or wrong one cannot fail them, while everything off-chain depends on them",
  ALLC, [("swap events", C % "pool"), ("rewards events", C % "stake_rewards"), ("token events", C % "token"), ("vesting events", C % "vesting")])

P("P40", "Stable pool pricing always finds its solution",
  "For every pair of positive balances and every amplification the pool accepts, the iterations for the invariant and for the swap curve converge within their round limit, so that no valid deposit, swap or withdrawal is stuck.",
  "inputs", "every pair of balances and amplification", "tests try a few balances",
  "contracts/pool_stable/src/math.rs", [("iterations", "contracts/pool_stable/src/math.rs")],
  na="Convergence of Newton's iteration within 255 rounds is a numerical inequality over the run-time balances; no dataflow, interval or type argument bounds the number of rounds. What is decided statically: the iteration is Newton's step, only a converged value is returned, and the rounds are capped (P32).")
P("P41", "Rewards paid over all time never exceed what was funded",
  "Over any history, the rewards withdrawn by all stakers of an asset together never exceed what was distributed of it, and the difference is only rounding.",
  "histories", "every history of bonds, unbonds, distributions and withdrawals of all stakers", "tests play a few histories with two stakers",
  "contracts/stake/src/distribution.rs contracts/stake_rewards/src/contract.rs", [("rewards", "contracts/stake/src/distribution.rs calculate_pending_rewards")],
  na="A sum over an unbounded set of stakers of truncated products with run-time amounts: the relation between the stakes of all users at every past moment and the recorded totals is not expressible per call path. What is decided statically: each call's formula, marks and frames (P13 to P16).")
P("P42", "No valid call exceeds the ledger's resource limits",
  "Every call the contracts accept fits the network's limits of instructions, memory and ledger entries, however many stakes, rewards, pools or schedules have been recorded.",
  "histories", "every history", "tests run with an unlimited or default budget and few records",
  ALLC, [("unbounded lists", "contracts/stake/src/distribution.rs; contracts/factory/src/contract.rs query_all_pools_details")],
  na="The host meters compiled WebAssembly at run time; the number of loop rounds is the (unbounded) number of records, and the cost model is not part of this repository.")
