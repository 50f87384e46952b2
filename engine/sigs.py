"""Labels for the parameters of each entry point, by position (the code's own names are not used)."""
SIG = {
    ("phoenix_factory", "create_liquidity_pool"): "sender lp_init_info share_token_name share_token_symbol pool_type amp default_slippage_bps max_allowed_fee_bps",
    ("phoenix_factory", "get_admin"): "",
    ("phoenix_factory", "get_config"): "",
    ("phoenix_factory", "initialize"): "admin multihop_wasm_hash lp_wasm_hash stable_wasm_hash stake_wasm_hash token_wasm_hash whitelisted_accounts lp_token_decimals",
    ("phoenix_factory", "query_all_pools_details"): "",
    ("phoenix_factory", "query_for_pool_by_token_pair"): "token_a token_b",
    ("phoenix_factory", "query_pool_details"): "pool_address",
    ("phoenix_factory", "query_pools"): "",
    ("phoenix_factory", "query_user_portfolio"): "sender staking",
    ("phoenix_factory", "update"): "new_wasm_hash new_stable_pool_hash",
    ("phoenix_factory", "update_wasm_hashes"): "lp_wasm_hash stake_wasm_hash token_wasm_hash",
    ("phoenix_factory", "update_whitelisted_accounts"): "sender to_add to_remove",
    ("phoenix_multihop", "initialize"): "admin factory",
    ("phoenix_multihop", "simulate_reverse_swap"): "operations amount pool_type",
    ("phoenix_multihop", "simulate_swap"): "operations amount pool_type",
    ("phoenix_multihop", "swap"): "recipient operations max_spread_bps amount pool_type deadline max_allowed_fee_bps",
    ("phoenix_multihop", "update"): "new_wasm_hash",
    ("phoenix_pool", "initialize"): "stake_wasm_hash token_wasm_hash lp_init_info factory_addr share_token_decimals share_token_name share_token_symbol default_slippage_bps max_allowed_fee_bps",
    ("phoenix_pool", "provide_liquidity"): "sender desired_a min_a desired_b min_b custom_slippage_bps deadline",
    ("phoenix_pool", "query_config"): "",
    ("phoenix_pool", "query_pool_info"): "",
    ("phoenix_pool", "query_pool_info_for_factory"): "",
    ("phoenix_pool", "query_share"): "amount",
    ("phoenix_pool", "query_share_token_address"): "",
    ("phoenix_pool", "query_stake_contract_address"): "",
    ("phoenix_pool", "query_total_issued_lp"): "",
    ("phoenix_pool", "simulate_reverse_swap"): "ask_asset ask_amount",
    ("phoenix_pool", "simulate_swap"): "offer_asset offer_amount",
    ("phoenix_pool", "swap"): "sender offer_asset offer_amount ask_asset_min_amount max_spread_bps deadline max_allowed_fee_bps",
    ("phoenix_pool", "update"): "new_wasm_hash",
    ("phoenix_pool", "update_config"): "new_admin total_fee_bps fee_recipient max_allowed_slippage_bps max_allowed_spread_bps max_referral_bps",
    ("phoenix_pool", "upgrade"): "new_wasm_hash new_default_slippage_bps",
    ("phoenix_pool", "withdraw_liquidity"): "sender share_amount min_a min_b deadline",
    ("phoenix_pool_stable", "initialize"): "stake_wasm_hash token_wasm_hash lp_init_info factory_addr _share_token_decimal share_token_name share_token_symbol amp max_allowed_fee_bps",
    ("phoenix_pool_stable", "provide_liquidity"): "sender desired_a desired_b custom_slippage_bps deadline min_shares_to_receive",
    ("phoenix_pool_stable", "query_config"): "",
    ("phoenix_pool_stable", "query_pool_info"): "",
    ("phoenix_pool_stable", "query_pool_info_for_factory"): "",
    ("phoenix_pool_stable", "query_share"): "amount",
    ("phoenix_pool_stable", "query_share_token_address"): "",
    ("phoenix_pool_stable", "query_stake_contract_address"): "",
    ("phoenix_pool_stable", "query_total_issued_lp"): "",
    ("phoenix_pool_stable", "simulate_reverse_swap"): "offer_asset ask_amount",
    ("phoenix_pool_stable", "simulate_swap"): "offer_asset offer_amount",
    ("phoenix_pool_stable", "swap"): "sender offer_asset offer_amount ask_asset_min_amount max_spread_bps deadline max_allowed_fee_bps",
    ("phoenix_pool_stable", "update"): "new_wasm_hash",
    ("phoenix_pool_stable", "update_config"): "sender new_admin total_fee_bps fee_recipient max_allowed_slippage_bps max_allowed_spread_bps",
    ("phoenix_pool_stable", "upgrade"): "new_wasm_hash",
    ("phoenix_pool_stable", "withdraw_liquidity"): "sender share_amount min_a min_b deadline",
    ("phoenix_stake", "bond"): "sender tokens",
    ("phoenix_stake", "create_distribution_flow"): "sender asset",
    ("phoenix_stake", "distribute_rewards"): "sender amount reward_token",
    ("phoenix_stake", "initialize"): "admin lp_token min_bond min_reward manager owner max_complexity",
    ("phoenix_stake", "query_admin"): "",
    ("phoenix_stake", "query_config"): "",
    ("phoenix_stake", "query_staked"): "address",
    ("phoenix_stake", "query_total_staked"): "",
    ("phoenix_stake", "query_withdrawable_rewards"): "user",
    ("phoenix_stake", "unbond"): "sender stake_amount stake_timestamp",
    ("phoenix_stake", "update"): "new_wasm_hash",
    ("phoenix_stake", "withdraw_rewards"): "sender",
    ("phoenix_stake_rewards", "add_user"): "user stakes",
    ("phoenix_stake_rewards", "calculate_bond"): "sender stakes",
    ("phoenix_stake_rewards", "calculate_unbond"): "sender stakes removed_stake",
    ("phoenix_stake_rewards", "distribute_rewards"): "total_staked_amount",
    ("phoenix_stake_rewards", "fund_distribution"): "start_time distribution_duration token_amount",
    ("phoenix_stake_rewards", "initialize"): "admin staking_contract reward_token max_complexity min_reward min_bond",
    ("phoenix_stake_rewards", "query_admin"): "",
    ("phoenix_stake_rewards", "query_annualized_reward"): "total_staked_amount",
    ("phoenix_stake_rewards", "query_config"): "",
    ("phoenix_stake_rewards", "query_distributed_reward"): "asset",
    ("phoenix_stake_rewards", "query_undistributed_reward"): "asset",
    ("phoenix_stake_rewards", "query_withdrawable_reward"): "user stakes",
    ("phoenix_stake_rewards", "update"): "new_wasm_hash",
    ("phoenix_stake_rewards", "withdraw_rewards"): "sender stakes",
    ("phoenix_trader", "initialize"): "admin contract_name pair_addresses output_token",
    ("phoenix_trader", "query_admin_address"): "",
    ("phoenix_trader", "query_balances"): "",
    ("phoenix_trader", "query_contract_name"): "",
    ("phoenix_trader", "query_output_token_info"): "",
    ("phoenix_trader", "query_trading_pairs"): "",
    ("phoenix_trader", "trade_token"): "sender token_to_swap liquidity_pool amount max_spread_bps deadline ask_asset_min_amount max_allowed_fee_bps",
    ("phoenix_trader", "transfer"): "sender recipient amount token_address",
    ("phoenix_vesting", "burn"): "sender amount",
    ("phoenix_vesting", "claim"): "sender index",
    ("phoenix_vesting", "create_vesting_schedules"): "vesting_schedules",
    ("phoenix_vesting", "initialize"): "admin vesting_token max_vesting_complexity",
    ("phoenix_vesting", "initialize_with_minter"): "admin vesting_token max_vesting_complexity minter_info",
    ("phoenix_vesting", "mint"): "sender amount",
    ("phoenix_vesting", "query_all_vesting_info"): "address",
    ("phoenix_vesting", "query_available_to_claim"): "address index",
    ("phoenix_vesting", "query_balance"): "address",
    ("phoenix_vesting", "query_minter"): "",
    ("phoenix_vesting", "query_token_info"): "",
    ("phoenix_vesting", "query_vesting_contract_balance"): "",
    ("phoenix_vesting", "query_vesting_info"): "address index",
    ("phoenix_vesting", "update"): "new_wasm_hash",
    ("phoenix_vesting", "update_minter"): "sender new_minter",
    ("phoenix_vesting", "update_minter_capacity"): "sender new_capacity",
    ("soroban_token_contract", "__constructor"): "admin decimal name symbol",
    ("soroban_token_contract", "allowance"): "from spender",
    ("soroban_token_contract", "approve"): "from spender amount expiration_ledger",
    ("soroban_token_contract", "balance"): "id",
    ("soroban_token_contract", "burn"): "from amount",
    ("soroban_token_contract", "burn_from"): "spender from amount",
    ("soroban_token_contract", "decimals"): "",
    ("soroban_token_contract", "mint"): "to amount",
    ("soroban_token_contract", "name"): "",
    ("soroban_token_contract", "set_admin"): "new_admin",
    ("soroban_token_contract", "symbol"): "",
    ("soroban_token_contract", "transfer"): "from to amount",
    ("soroban_token_contract", "transfer_from"): "spender from to amount",
}
