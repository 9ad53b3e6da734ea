ANY = 'every message, sender, funds, stored state and every answer of the chain to the queries made'
prop('C13', 'Staking: share price never falls and stakes and unstakes pay exactly pro rata',
     'Staking an amount of ASTRO mints and pays out exactly floor(amount * xASTRO supply / ASTRO held before), or amount minus 1000 on the first stake with the 1000 minted to and kept by the contract; unstaking burns exactly the xASTRO received and pays exactly floor(amount * ASTRO held / xASTRO supply). The ASTRO backing of each xASTRO therefore never decreases by a stake or an unstake, only the configured denoms are accepted, nothing else is paid out and stored state is untouched.',
     ['inputs', 'histories'], ANY, 'The contract has no running test in this workspace; the formula and its rounding must hold for all amounts and pool states, and over any sequence of calls.',
     ['contracts/tokenomics/staking/src/contract.rs'], [('execute_enter', 'contracts/tokenomics/staking/src/contract.rs'), ('execute_leave', 'contracts/tokenomics/staking/src/contract.rs')],
     observe=['response messages of Enter, EnterWithHook, Leave'])
FUNDS = ' Lists in messages and storage are explored up to the lengths stated under "bounded" in the evidence file (funds up to 2 coins).'
prop('C03', 'Ownership moves only by proposal and claim',
     'In the factory, incentives, maker, vesting, coin registry, fee granter, concentrated pool and stable pool contracts, only the current owner can propose a new owner or withdraw a proposal; only the proposed address can claim, only before the proposal expires (at most two weeks after it was made) and only once. The claim makes exactly the claimer the owner and changes nothing else; no message is sent.',
     ['inputs', 'histories'], ANY, 'A takeover needs only one unguarded sender, stored proposal and time; tests try a few.',
     ['packages/astroport/src/common.rs', 'contracts/factory/src/contract.rs', 'contracts/tokenomics/incentives/src/execute.rs', 'contracts/tokenomics/maker/src/contract.rs',
      'contracts/tokenomics/vesting/src/contract.rs', 'contracts/periphery/native_coin_registry/src/contract.rs', 'contracts/periphery/fee_granter/src/contract.rs',
      'contracts/pair_concentrated/src/contract.rs', 'contracts/pair_stable/src/contract.rs'],
     [('propose_new_owner, drop_ownership_proposal, claim_ownership', 'packages/astroport/src/common.rs')],
     state=[('OWNERSHIP_PROPOSAL', 'the pending transfer', 'state.rs of each contract'), ('CONFIG.owner', 'the owner', 'state.rs of each contract')],
     observe=['stored owner and proposal after ProposeNewOwner, DropOwnershipProposal, ClaimOwnership'], note=FUNDS)
prop('C04', 'Factory registry: at most one pair per set of assets, created as configured',
     'CreatePair succeeds only for distinct assets with no registered pair (whatever the order they are given in) and a configured, enabled pair type, and for a permissioned type only for the owner; it instantiates exactly one contract with the code of the pair type, administered by the factory owner, told exactly the given assets, type, parameters and funds. The reply registers exactly the instantiated contract under those assets and never overwrites an entry. Only the owner deregisters; that removes exactly the entry of those assets and tells the incentives contract, when there is one, to deactivate that pair\'s LP token. The Pair query answers what the registered contract says.',
     ['inputs', 'histories'], ANY, 'Depends on orderings of arbitrary identifiers, on stored configuration and on what happens between message and reply.',
     ['contracts/factory/src/contract.rs', 'contracts/factory/src/state.rs'],
     [('execute_create_pair, deregister, reply', 'contracts/factory/src/contract.rs'), ('pair_key', 'contracts/factory/src/state.rs')],
     state=[('PAIRS', 'pair contract by assets', 'contracts/factory/src/state.rs'), ('TMP_PAIR_INFO', 'pair being created', 'contracts/factory/src/state.rs')],
     observe=['messages and registry entries of CreatePair, reply, Deregister; the Pair query'], note=' Asset lists of 1 to 3 assets.' + FUNDS)
prop('C05', 'Factory configuration: owner only, fees within 100 %',
     'Only the owner changes the factory configuration, the pair types or the tracker configuration. Total and maker fees of a stored pair type never exceed 10000 basis points, at instantiation or by an update; an update stores exactly the given configuration under its pair type and leaves every other one alone. Fields that are not given are kept, the owner and (once set) the token factory address of the tracker never change by an update. FeeInfo answers the stored fees of the pair type and the configured fee address.',
     ['inputs', 'histories'], ANY, 'Must hold for all configurations and senders.',
     ['contracts/factory/src/contract.rs'], [('execute_update_config, execute_update_pair_config, update_tracker_config, instantiate', 'contracts/factory/src/contract.rs')],
     state=[('CONFIG, PAIR_CONFIGS, TRACKER_CONFIG', 'configuration', 'contracts/factory/src/state.rs')], observe=['stored configuration; FeeInfo query'], note=FUNDS)
prop('C06', 'Coin registry: decimals are set by the owner or once by a holder',
     'Decimals stored in the native coin registry are at most 18. Only the owner can set or remove them; anybody else can only register coins that are not registered yet and only coins sent along, which are all refunded to the sender. A call names each coin at most once, stores exactly the given decimals and leaves all other coins alone; NativeToken answers the stored decimals.',
     ['inputs', 'histories'], ANY, 'Wrong decimals misprice every pool of a coin; the guarantee is about all senders, coins and stored entries.',
     ['contracts/periphery/native_coin_registry/src/contract.rs'], [('add, remove, register_decimals', 'contracts/periphery/native_coin_registry/src/contract.rs')],
     state=[('COINS_INFO', 'decimals by denom', 'packages/astroport/src/native_coin_registry.rs')], observe=['stored decimals and messages of Add, Remove, Register; NativeToken query'],
     note=' Up to 2 coins per call (3 in the thorough tier).' + FUNDS, bounded=True)
prop('C07', 'Token factory tracker: history of balances and supply',
     'For every transfer of the tracked denom the tracker records, under the current block height or time as configured, the balance of the sender less the amount and of the recipient plus the amount (except for the module address, and nothing for a transfer to oneself) and the total supply; no other account changes and other denoms are rejected. BalanceAt and TotalSupplyAt answer the value recorded for the asked time, the current one for the present, zero when nothing was recorded.',
     ['inputs', 'histories'], ANY, 'No test of this contract runs in this workspace; voting power depends on every history of transfers.',
     ['contracts/periphery/tokenfactory_tracker/src/contract.rs', 'contracts/periphery/tokenfactory_tracker/src/query.rs'],
     [('track_balances', 'contracts/periphery/tokenfactory_tracker/src/contract.rs'), ('query', 'contracts/periphery/tokenfactory_tracker/src/query.rs')],
     state=[('BALANCES, TOTAL_SUPPLY_HISTORY', 'snapshots', 'contracts/periphery/tokenfactory_tracker/src/state.rs')], observe=['stored snapshots; BalanceAt, TotalSupplyAt'])
prop('C08', 'Fee granter: only owner and admins spend gas money',
     'Only the owner and the admins can grant, revoke or move coins; only the owner changes the admins. A grant needs exactly the granted amount of the gas denom as payment unless the check is bypassed, is recorded, cannot be given twice, and emits exactly one allowance of exactly that amount from the contract to the grantee; a revocation removes exactly that grant. Coins are moved in exactly the asked positive amount to the given recipient or the sender. There are never more than two admins, and an admin is only there if it was one or is added, and not removed.',
     ['inputs', 'histories'], ANY, 'The guarantee is about all senders and stored grants.',
     ['contracts/periphery/fee_granter/src/contract.rs', 'contracts/periphery/fee_granter/src/state.rs'],
     [('grant, revoke, transfer_coins, update_admins', 'contracts/periphery/fee_granter/src/contract.rs')],
     state=[('GRANTS', 'granted amount by contract', 'contracts/periphery/fee_granter/src/state.rs')], observe=['messages and stored grants'], note=FUNDS, bounded=True)
prop('C09', 'Whitelist: only admins act, and a frozen list stays frozen',
     'Only admins execute messages through the whitelist contract, and exactly the given messages are sent in the given order, without replies. Only admins of a list that is still mutable can change it or freeze it; freezing is permanent and keeps the admins, changing them stores exactly the given list.',
     ['inputs', 'histories'], ANY, 'No test of this contract runs in this workspace; it holds treasury rights.',
     ['contracts/whitelist/src/contract.rs', 'contracts/whitelist/src/state.rs'], [('execute_execute, execute_freeze, execute_update_admins', 'contracts/whitelist/src/contract.rs')],
     state=[('ADMIN_LIST', 'the admins', 'contracts/whitelist/src/state.rs')], observe=['messages and stored admin list'], note=' Up to 3 admins and 2 messages.', bounded=True)
prop('C11', 'Oracle: averages are the growth of the price integral over at least a day',
     'The oracle accepts an update at most once a day: each average becomes exactly the growth of the pair\'s own price integral since the last observation (modulo 2^128) over the seconds passed, the observation and its time are replaced by the current ones, and nothing else changes. Consult answers the amount times that average for every counter asset of the token, before the first average the pair\'s simulated price of one unit scaled to the amount, and fails for other tokens. A new oracle belongs to its creator, observes the pair its factory names for the given assets, keeps their decimals and starts its first period now without averages.',
     ['inputs', 'histories'], ANY, 'The averages have to be right for every pair of observations, including a wrapped integral, and every delay.',
     ['contracts/periphery/oracle/src/contract.rs', 'contracts/periphery/oracle/src/state.rs', 'contracts/periphery/oracle/src/querier.rs'],
     [('instantiate, update, consult', 'contracts/periphery/oracle/src/contract.rs')],
     state=[('PRICE_LAST', 'last observation and averages', 'contracts/periphery/oracle/src/state.rs')], observe=['stored averages; Consult query'],
     note=' Up to 2 assets and 2 price entries (3 assets in the thorough tier).', bounded=True)
prop('C14', 'Converters: old ASTRO is exchanged one to one and burned for good',
     'Converting any amount of the configured old token, sent as a coin or through the token\'s own cw20 hook, pays exactly the same amount of the new token to the given recipient or the sender, and only that token is accepted. Collected old tokens only ever leave by being burned (cw20, the whole balance) or by an IBC transfer of the whole balance to the configured burn address and channel with a timeout between two and ten minutes. The converter pair forwards exactly the offered old tokens to the converter, naming the recipient asked for or the trader.',
     ['inputs'], ANY, 'Must hold for all amounts, senders and configurations.',
     ['contracts/periphery/astro_converter/src/contract.rs', 'contracts/periphery/astro_converter_neutron/src/contract.rs', 'contracts/pair_astro_converter/src/contract.rs'],
     [('convert, cw20_receive, burn, ibc_transfer_for_burning', 'contracts/periphery/astro_converter/src/contract.rs'), ('execute', 'contracts/pair_astro_converter/src/contract.rs')],
     observe=['response messages'], note=FUNDS)
prop('C15', 'xASTRO pair: swaps are stakes and unstakes, simulated as staking pays',
     'A swap in the xASTRO pair forwards exactly the offered ASTRO to staking as a stake, or the offered xASTRO as an unstake, for the recipient asked for or the sender, and nothing else is accepted. Simulation answers exactly the amount staking would pay for the current ASTRO held and xASTRO supply, without commission or spread.',
     ['inputs'], ANY, 'No test of this contract runs in this workspace; the simulation must agree with staking for every state.',
     ['contracts/pair_xastro/src/contract.rs', 'contracts/pair_xastro/src/queries.rs'], [('execute', 'contracts/pair_xastro/src/contract.rs'), ('predict_stake, predict_unstake', 'contracts/pair_xastro/src/queries.rs')],
     observe=['response messages; Simulation query'], note=FUNDS)
prop('C16', 'Vesting: nobody is paid more than what is unlocked, and every schedule is funded',
     'A claim pays exactly the asked amount, at most what the schedules of the sender have unlocked by now (linear between start and end, nothing before the start) less what was claimed before, and records it; AvailableAmount answers that maximum. The owner can withdraw from an active schedule only what is still locked, to the given recipient. Schedules are registered only by the owner (or the vesting token\'s hook for it) with a deposit of exactly their total; registration keeps old schedules and claims, and schedules run forward and end in the future. No other account changes.',
     ['inputs', 'histories', 'schedules'], ANY, 'The linear release has to be right at every time and for every combination of schedules.',
     ['contracts/tokenomics/vesting/src/contract.rs'], [('register_vesting_accounts, claim, compute_available_amount, withdraw_from_active_schedule', 'contracts/tokenomics/vesting/src/contract.rs')],
     state=[('VESTING_INFO', 'schedules and claims by account', 'contracts/tokenomics/vesting/src/state.rs')], observe=['messages and stored accounts; AvailableAmount query'],
     note=' Up to 2 schedules per account (3 in the thorough tier) and 2 accounts per registration.' + FUNDS, bounded=True)
PAIRF = ['contracts/pair/src/contract.rs', 'packages/astroport/src/asset.rs', 'packages/astroport/src/querier.rs']
prop('C01', 'XYK swap: the trader gets exactly the constant product price less fees, fees go where configured',
     'A swap in a constant product pair, offered as a coin or through the hook of a cw20 token of the pool, pays the trader (or the recipient asked for) exactly ask*offer/(pool+offer) (the subtrahend pool*ask/(pool+offer) cut to 18 decimals, result rounded down) less the total fee the factory names; of the fee the configured share goes to the fee-share recipient, the maker part of the rest to the fee address, and the remainder stays in the pool. Nothing else is paid, the offered coins are exactly those sent, the pool never pays more than it has, and the balance history (when tracked) records the balances after the swap.',
     ['inputs', 'histories'], ANY, 'Rounding and fee splitting must be right for all amounts, fees and pool sizes; tests sample a few.',
     PAIRF, [('swap, compute_swap', 'contracts/pair/src/contract.rs'), ('query_pools, into_msg', 'packages/astroport/src/asset.rs')],
     state=[('CONFIG', 'pair, fee share, accumulators', 'contracts/pair/src/state.rs'), ('BALANCES', 'balance history', 'contracts/pair/src/state.rs')],
     observe=['response messages and stored balances of Swap and Receive{Swap}'], note=FUNDS)
prop('C02', 'XYK swap: no trade outside the spread and belief price the trader accepted',
     'A swap in a constant product pair (plain or with sale tax, on the amount after tax) succeeds only when the result is within the maximum spread (0.5 % when not given, never above 50 %) of the belief price, or, without a belief price, of the pool price before the trade; only for assets of the pool, for a positive amount, in a pool holding both assets, and a cw20 hook only for a cw20 token of the pool.',
     ['inputs'], ANY, 'Slippage protection is a bound for all amounts, prices and pool states.',
     PAIRF, [('assert_max_spread', 'contracts/pair/src/contract.rs'), ('receive_cw20', 'contracts/pair/src/contract.rs')],
     observe=['whether Swap and Receive{Swap} succeed'], note=FUNDS)
prop('C17', 'XYK provide: LP tokens are issued pro rata and nobody is diluted',
     'In constant product pairs (plain or with sale tax) providing liquidity takes exactly the named deposits (coins sent along, cw20 tokens pulled from the sender, no other coin) of both assets of the pool and mints exactly min(deposit_i * supply / pool_i) LP tokens rounded down, or sqrt(a*b) less 1000 on the first deposit with the 1000 locked in the pair, to the receiver or the sender; with auto-stake they are deposited for the receiver with the incentives contract the factory names. LP tokens issued never exceed the deposited share of either asset, never fall short of the asked minimum (plain pair), and a later deposit outside the slippage tolerance (0.5 % when not given, never above 50 %) is rejected. The balance history records the balances after the deposit.',
     ['inputs', 'histories'], ANY, 'Dilution by rounding or by a wrong balance shows only for special amounts.',
     PAIRF, [('provide_liquidity, mint_liquidity_token_message, assert_slippage_tolerance', 'contracts/pair/src/contract.rs'), ('assert_coins_properly_sent', 'packages/astroport/src/asset.rs')],
     state=[('CONFIG', 'pair', 'contracts/pair/src/state.rs'), ('BALANCES', 'balance history', 'contracts/pair/src/state.rs')],
     observe=['response messages and stored balances of ProvideLiquidity'], note=FUNDS, bounded=True)
prop('C18', 'XYK withdraw: LP tokens are burned for exactly the pro rata share',
     'In constant product pairs (plain or with sale tax) withdrawing burns exactly the LP tokens of the pool that were sent (one coin, nothing else accepted) and pays the sender of each asset exactly pool * (tokens/supply), ratio cut to 18 decimals and rounded down, so never more than the pro rata share and never less than the minimum asked for (plain pair). The balance history records the balances after the withdrawal.',
     ['inputs', 'histories'], ANY, 'Must hold for all amounts, pool states and rounding.',
     PAIRF, [('withdraw_liquidity, get_share_in_assets', 'contracts/pair/src/contract.rs')],
     state=[('CONFIG', 'pair', 'contracts/pair/src/state.rs'), ('BALANCES', 'balance history', 'contracts/pair/src/state.rs')],
     observe=['response messages and stored balances of WithdrawLiquidity'], note=FUNDS)
prop('C19', 'XYK prices: accumulators integrate the price before each operation over time',
     'In constant product pairs (plain or with sale tax), with every swap, deposit and withdrawal each price accumulator grows by the time since the last operation times the pool price before this operation (6 decimals, wrapping at 2^128), once per block time and only when the pool holds both assets; otherwise it is kept. The time of the accumulators is that of the latest operation and nothing else in the configuration changes.',
     ['inputs', 'histories'], ANY, 'Oracles rely on the integral over every history of operations; wrapping and block boundaries are rarely tested.',
     PAIRF, [('accumulate_prices', 'contracts/pair/src/contract.rs')],
     state=[('CONFIG.price0_cumulative_last, price1_cumulative_last, block_time_last', 'accumulators', 'contracts/pair/src/state.rs')],
     observe=['stored configuration after Swap, Receive, ProvideLiquidity, WithdrawLiquidity'], note=FUNDS)
TAXF = ['contracts/pair_xyk_sale_tax/src/contract.rs', 'packages/astroport/src/pair_xyk_sale_tax.rs', 'packages/astroport/src/asset.rs']
prop('C10', 'Sale-tax pair: the configured tax is taken from the sold coin, and the rest trades as in a constant product pair',
     'A swap in the sale-tax pair sends floor(offer * tax rate) of the offered native coin to the recipient configured for that coin (nothing when none is configured, never more than half) and trades exactly the rest: the trader or the recipient asked for gets the constant product price less the total fee, the fee address gets the maker part of the fee, nothing else is paid, and the balance history (when tracked) records the balances after the swap.',
     ['inputs', 'histories'], ANY, 'Tax and fee rounding must be right for all amounts, rates and pool sizes.',
     TAXF, [('swap, compute_swap', 'contracts/pair_xyk_sale_tax/src/contract.rs'), ('TaxConfigs', 'packages/astroport/src/pair_xyk_sale_tax.rs')],
     state=[('CONFIG.tax_configs', 'tax by denom', 'contracts/pair_xyk_sale_tax/src/state.rs'), ('BALANCES', 'balance history', 'contracts/pair_xyk_sale_tax/src/state.rs')],
     observe=['response messages and stored balances of Swap and Receive{Swap}'], note=FUNDS)
prop('C20', 'XYK pools: created for two distinct assets, LP token fixed once, configured only by the owner',
     'A constant product pool (plain or with sale tax) is created only for exactly two distinct assets, with its own address, zero accumulators, no fee share, and exactly one message that creates its LP denom; the reply sets that denom once and never again, and when balances are tracked instantiates exactly one LP tracker owned by the owner of the factory, whose reply hooks it to the LP denom. Only the owner of the factory changes the fee share, which is 1 to 1000 basis points; only the tax admin changes taxes and tax admin, and stored taxes are at most 50 % and on native coins of the pair. Nothing else in the configuration changes.',
     ['inputs', 'histories'], ANY, 'Must hold for all senders, parameters and stored configurations.',
     ['contracts/pair/src/contract.rs'] + TAXF, [('instantiate, reply, update_config', 'contracts/pair/src/contract.rs'), ('instantiate, reply, update_config', 'contracts/pair_xyk_sale_tax/src/contract.rs')],
     state=[('CONFIG', 'configuration', 'contracts/pair/src/state.rs'), ('CONFIG', 'configuration', 'contracts/pair_xyk_sale_tax/src/state.rs')],
     observe=['stored configuration and messages of instantiate, reply and UpdateConfig'], note=' Instantiation with 1 to 3 assets; up to 2 taxes.' + FUNDS)
prop('C21', 'XYK queries: simulations answer exactly what execution does',
     'For constant product pools (plain or with sale tax): Simulation answers the amount, fee and spread the swap would have; ReverseSimulation the offer the formula asks for; Share and SimulateWithdraw exactly what withdrawing pays; SimulateProvide exactly the LP tokens a deposit would get; Pool the balances and LP supply; CumulativePrices the accumulators integrated up to now; AssetBalanceAt what the history recorded.',
     ['inputs'], ANY, 'The answers have to agree with execution for every amount and state.',
     ['contracts/pair/src/contract.rs'] + TAXF, [('query', 'contracts/pair/src/contract.rs'), ('query', 'contracts/pair_xyk_sale_tax/src/contract.rs')],
     observe=['query answers'])
XA = ['contracts/tokenomics/xastro_token/src/contract.rs', 'contracts/tokenomics/xastro_token/src/state.rs']
prop('C12', 'xASTRO token: balances always add up to the supply, and history answers what was true at each block',
     'Transfers and sends (own or by allowance) move exactly the amount from the owner to the recipient and change no other balance; only the minter mints (within the cap) and burns, changing one balance and the supply by the same amount; instantiation gives every initial account its amount and makes the supply their sum. So the supply always is the sum of all balances. Spending for someone else takes exactly the amount from an unexpired allowance of at least that much. Every change of a balance or of the supply is recorded under its block, and Balance, BalanceAt, TotalSupplyAt, TokenInfo and Minter answer exactly the state and the recorded history. Sends notify exactly the receiving contract; nothing else is sent.',
     ['inputs', 'histories'], ANY, 'Solvency of the token and the correctness of vote weights at past blocks depend on every history of operations.',
     XA + ['packages/astroport/src/xastro_token.rs'],
     [('execute_transfer, execute_send, execute_mint, execute_burn, execute_transfer_from, execute_burn_from, execute_send_from, create_accounts, query', XA[0]),
      ('capture_total_supply_history, get_total_supply_at, check_minter', XA[1])],
     state=[('BALANCES', 'snapshotted balances', XA[1]), ('TOTAL_SUPPLY_HISTORY', 'supply by block', XA[1]), ('TOKEN_INFO', 'supply and minter', 'cw20_base')],
     observe=['stored balances, supply, allowances and histories after every message', 'response messages', 'query answers'],
     note=' Instantiation with up to 2 (thorough: 3) initial accounts (bounded); everything else without bound. The text checks of names, symbols and logos are left open (both outcomes). AllAccounts and AllAllowances are not covered.')
RO = ['contracts/router/src/contract.rs', 'contracts/router/src/operations.rs']
prop('C22', 'Router: swaps run in the order asked for, pay the recipient, and give at least the minimum or fail',
     'A route is accepted only if it has 1 to 50 pool swaps, each between different assets and each offering what the one before asked for. The router then calls itself once per swap in that order; only the last swap pays the recipient, and after it the growth of the balance of the recipient in the last asset since the start is compared with the minimum asked for: less makes the whole transaction fail, otherwise it is reported. A single swap can be made only by the router itself and offers all it holds of the offered asset to the pair the factory names. SimulateSwapOperations and ReverseSimulateSwapOperations chain the answers of exactly these pairs.',
     ['inputs', 'histories'], ANY, 'The minimum received must hold for all routes, balances and pools.',
     RO + ['packages/astroport/src/router.rs', 'packages/astroport/src/querier.rs'],
     [('execute_swap_operations, assert_operations, reply, simulate_swap_operations, simulate_reverse_swap_operations', RO[0]), ('execute_swap_operation, asset_into_swap_msg', RO[1])],
     state=[('REPLY_DATA', 'what is to be received', 'contracts/router/src/state.rs')],
     observe=['response messages, stored reply data, reported data and query answers'],
     note=' Routes of up to 3 (thorough: 4) swaps and of exactly 51 (bounded); single swaps and the check after the last swap without bound.', bounded=True)
MA = ['contracts/tokenomics/maker/src/contract.rs', 'contracts/tokenomics/maker/src/utils.rs', 'contracts/tokenomics/maker/src/reply.rs']
prop('C23', 'Maker distribution: collected ASTRO is split exactly as configured and only what is released is paid',
     'Only the maker itself distributes. While distribution is not enabled nothing is paid and the whole ASTRO balance is set aside; once the owner enabled it (once, over a positive number of blocks), what was set aside is released by exactly (set aside / blocks) per block since the last distribution, never more than is left and never twice in a block. What is distributed goes exactly: the second receiver its percentage rounded down, governance its percentage of the rest rounded down, the dev fund share is swapped through the pool the factory names and what is held of that asset is paid to the dev fund in the reply, staking gets all the remainder. With a staking contract the shares never exceed what is distributed.',
     ['inputs', 'histories'], ANY, 'Rounding and the release schedule have to be right for every balance, block and configuration.',
     MA, [('distribute, distribute_astro', MA[0]), ('reply', MA[2])],
     state=[('CONFIG.remainder_reward, last_distribution_block', 'what is set aside', 'contracts/tokenomics/maker/src/state.rs')],
     observe=['response messages and stored configuration of DistributeAstro, EnableRewards and the dev fund reply'],
     note=' Stored configurations satisfy the limits checked at update.')
prop('C24', 'Maker collection: fees are swapped along the configured routes, for the maker itself, and only seizable assets leave otherwise',
     'Collect runs at most once per cooldown period, with no asset named twice. Every asset held other than ASTRO (its whole balance, or the positive limit if that is less) is swapped exactly once, in the pool the factory names, within the spread limit, with the result coming back to the maker: to its configured bridge, else to the default bridge if there is such a pool, else directly to ASTRO, and fails if there is no route. What is swapped to a bridge asset is followed by exactly one call to itself that swaps the bridge assets (each once, at most 5 deep), otherwise by the distribution. Only the maker itself continues a chain of swaps. Seize pays only assets the owner listed, only to the receiver the owner chose, the balance or the limit if less. Only the owner changes routes (checked to have pools), the seize list and the configuration, which stays within its limits (governance at most 100 %, second receiver at most 50 %, dev fund at most 100 %, spread at most 50 %, cooldown 30 to 600 s, 100 % to governance without staking).',
     ['inputs', 'histories'], ANY, 'Routes, pools and balances combine in more ways than tests can sample; a message to a wrong pool or receiver loses the fees.',
     MA, [('collect, swap_assets, swap, swap_bridge_assets, update_bridges, update_config, seize', MA[0]), ('validate_bridge, build_swap_msg, build_distribute_msg', MA[1])],
     state=[('CONFIG', 'configuration', 'contracts/tokenomics/maker/src/state.rs'), ('BRIDGES', 'routes', 'contracts/tokenomics/maker/src/state.rs'),
            ('LAST_COLLECT_TS', 'time of the last collection', 'contracts/tokenomics/maker/src/state.rs'), ('SEIZE_CONFIG', 'what can be seized', 'contracts/tokenomics/maker/src/state.rs')],
     observe=['response messages and stored state of Collect, SwapBridgeAssets, Seize, UpdateBridges, UpdateConfig and UpdateSeizeConfig'],
     note=' One collected asset at a time (two bridge assets where all queries succeed), up to 2 seized assets, one route added and one removed (bounded); UpdateConfig without bound.', bounded=True)
TR = ['contracts/pair_transmuter/src/contract.rs', 'contracts/pair_transmuter/src/utils.rs', 'contracts/pair_transmuter/src/queries.rs', 'contracts/pair_transmuter/src/state.rs']
prop('C25', 'Transmuter pool: equal values change hands, LP tokens stay backed one to one',
     'A transmuter pool holds 2 to 5 distinct native coins, each valued by a fixed coefficient that brings all to the same decimals. A swap takes exactly the one coin that was sent, of the pool, and pays floor(amount * coefficient / coefficient of the asked coin) of another pool coin to the sender or the given recipient, no more than the pool holds, so no value leaves the pool. Providing mints exactly the value of the coins sent (every coin sent is credited, none twice) to the sender or the receiver. Withdrawing burns exactly the value paid: pro rata (rounded down, ratio cut to 18 decimals), or exactly the assets asked for with the unused LP tokens returned. The LP denom is set once. Simulation and ReverseSimulation answer what execution does, for every amount the pool holds. Nothing else is supported and nothing else is stored.',
     ['inputs', 'histories'], ANY, 'One to one backing must hold for all amounts, decimals and assets named in any form.',
     TR, [('swap, provide_liquidity, withdraw_liquidity, instantiate, reply', TR[0]), ('assert_and_swap, get_share_in_assets', TR[1]), ('normalize, denormalize, Config::new', TR[3])],
     state=[('CONFIG', 'pair, coefficients', TR[3])],
     observe=['response messages and stored configuration', 'query answers'],
     note=' Pools of 2 or 3 (thorough: 4) coins, up to 2 (thorough: 3) assets per message, instantiation with up to 2 coins (bounded).' + FUNDS, bounded=True)
IC = ['contracts/tokenomics/incentives/src/execute.rs', 'contracts/tokenomics/incentives/src/state.rs', 'contracts/tokenomics/incentives/src/utils.rs', 'contracts/tokenomics/incentives/src/query.rs']
prop('C26', 'Incentives: stakers get their stake back and exactly the rewards their share earned',
     'Deposit, Withdraw and ClaimRewards change the total stake of a pool and the position by exactly the amount, never let anybody withdraw more than the own stake, and return exactly the LP tokens withdrawn. The index of each reward grows by (rate times elapsed time, each scheduled rate for its own period, plus what was orphaned) / total stake; while nothing is staked that amount is orphaned instead. A position is paid, at every operation, exactly stake * (index - index at its last operation) of every reward, including rewards that ended since, and ASTRO once from the vesting contract, and then follows the indexes of the pool, so nothing is paid twice. A reward that ends leaves its final index for those who earned it and its orphaned part aside; indexes left earlier are kept. A failing reward token (limited gas, error ignored) cannot block the others. PendingRewards and Deposit answer what execution would do, PoolStakers lists the stakes in pages of at most 50.',
     ['inputs', 'histories'], ANY, 'Reward indexes, schedules that end between operations and positions of any age combine in more ways than tests can sample; the integration tests of this contract do not build here.',
     IC, [('deposit, withdraw', IC[0]), ('update_rewards, calculate_rewards, claim_finished_rewards, update_and_sync_position, list_pool_stakers', IC[1]), ('claim_rewards', IC[2])],
     state=[('POOLS', 'total stake, reward indexes', IC[1]), ('USER_INFO', 'positions', IC[1]), ('FINISHED_REWARDS_INDEXES', 'final indexes', IC[1]), ('ORPHANED_REWARDS', 'rewards nobody earned', IC[1])],
     observe=['response messages and stored state of Deposit, Receive, Withdraw and ClaimRewards', 'PendingRewards, Deposit and PoolStakers queries'],
     note=' Up to 1 reward per pool (native and token rewards), 1 later schedule, 1 earlier finished reward, 1 user index, 2 pools per claim (bounded).' + FUNDS, bounded=True)
prop('C27', 'Incentives: external rewards are distributed at the rates that were paid for, and nothing else leaves',
     'Incentivize accepts schedules of 1 to 25 weeks (to the end of an epoch) of at least one unit per second, in a token that is not blocked, for a pool registered in the factory, and takes exactly the amount, plus the fee when the reward is new to the pool and not ASTRO (paid to its receiver; everything sent beyond is refused or returned). From then on the rate of that reward is, at every time, the earlier rate plus amount / (end - now) until the end, and other rewards go on unchanged; at most 5 external rewards per pool. Only the owner removes a reward: what it still had to distribute and nobody earned (and upcoming schedules, unless bypassed) goes to the receiver, not aside as well; it stops and its final index is kept. Only the owner claims what was orphaned: exactly the whole units set aside of up to the 10 first tokens, which are then no longer aside.',
     ['inputs', 'histories'], ANY, 'Overlapping schedules at arbitrary times must add up; money taken in must match the rates stored.',
     IC, [('incentivize, remove_reward_from_pool, claim_orphaned_rewards', IC[2]), ('PoolInfo::incentivize, deregister_reward', IC[1])],
     state=[('EXTERNAL_REWARD_SCHEDULES', 'later rates', IC[1]), ('POOLS', 'current rates', IC[1]), ('ORPHANED_REWARDS', 'rewards nobody earned', IC[1])],
     observe=['response messages and stored state of Incentivize, RemoveRewardFromPool and ClaimOrphanedRewards'],
     note=' Up to 1 running reward and 2 stored schedules, up to 2 (and exactly 11) orphaned tokens (bounded). Block times from 2023 to 2077. RemoveRewardFromPool with bypass_upcoming_schedules leaves schedules behind; states with such leftovers are excluded.' + FUNDS, bounded=True)
prop('C28', 'Incentives: ASTRO emissions are split over the active pools by their allocation points',
     'Only the owner or the controller sets the active pools: distinct pools registered in the factory, with positive allocation points, of no blocked token and no blacklisted type; those are then exactly the active pools. Only the owner sets the emission, only the factory deactivates a pool; anybody may deactivate pools of blacklisted types; the owner or the guardian blocks tokens (never ASTRO, no token twice, only unblocked ones) and unblocks blocked ones, which deactivates exactly the pools that hold a newly blocked token. After each of these the total of allocation points is the sum over the active pools, every active pool gets emission * points / total, pools no longer active get none, and what was earned until now at the old rates is kept. Only the owner changes the configuration, which stays within its limits, and the ASTRO reward of active pools follows the token.',
     ['inputs', 'histories'], ANY, 'Every operation has to settle all pools and keep the total consistent, for every set of pools and points.',
     IC, [('setup_pools, set_tokens_per_second, update_blocked_pool_tokens, update_config', IC[0]), ('deactivate_pool, deactivate_blocked_pools', IC[2]), ('set_astro_rewards, disable_astro_rewards', IC[1])],
     state=[('ACTIVE_POOLS', 'active pools and points', IC[1]), ('CONFIG.total_alloc_points', 'sum of points', IC[1]), ('BLOCKED_TOKENS', 'blocked tokens', IC[1])],
     observe=['stored state of SetupPools, SetTokensPerSecond, DeactivatePool, DeactivateBlockedPools, UpdateBlockedTokenslist, UpdateConfig, instantiate'],
     note=' Up to 2 active pools, 1 reward per pool, 2 pools set up at once, 2 tokens blocked at once (bounded).', bounded=True)
