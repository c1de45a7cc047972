import json
S="programs/dynamic-bonding-curve/src/"
B=[]
def bug(id,prop,needs,breaks,*ed):
    B.append(dict(id=id,prop=prop,needs=needs,what_it_breaks=breaks,edits=[dict(file=(e[0] if e[0].startswith("dynamic") else S+e[0]),old=e[1],new=e[2]) for e in ed]))
bug("leftover-skips-creator-fee","C01","fixed supply, fees collected in the output token, a creator share of trading fees, unclaimed when leftover is withdrawn",
 "withdraw_leftover hands out the creator's unclaimed base-token fees: the base vault no longer covers them",
 ("state/virtual_pool.rs","""            .safe_add(self.protocol_base_fee)?
            .safe_add(self.creator_base_fee)?)""","""            .safe_add(self.protocol_base_fee)?)"""))
bug("sell-across-two-points","C03","a sell that crosses at least one curve point and ends inside a later segment",
 "exact-in sells that cross a curve point compute the output of the last partial segment from the price where the swap began",
 ("state/virtual_pool.rs","""                    let output_amount = get_delta_amount_quote_unsigned(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        Rounding::Down,
                    )?;
                    total_output_amount = total_output_amount.safe_add(output_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = 0;
                    break;""","""                    let output_amount = get_delta_amount_quote_unsigned(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity.min(config.curve[i].liquidity),
                        Rounding::Down,
                    )?;
                    total_output_amount = total_output_amount.safe_add(output_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = 0;
                    break;"""))
bug("partial-fill-slippage-per-input","C05","a partial fill that is cut short by the end of the curve, with a minimum output between the pro-rated and the full one",
 "the minimum output of a partial fill is scaled down by the part of the input that was used",
 ("instructions/swap/swap_partial_fill.rs","""    require!(
        swap_result.output_amount >= minimum_amount_out,
        PoolError::ExceededSlippage
    );

    let included_fee_input_amount""","""    let required_amount_out = if swap_result.amount_left == 0 {
        minimum_amount_out
    } else {
        crate::utils_math::safe_mul_div_cast_u64(
            minimum_amount_out,
            swap_result.included_fee_input_amount,
            amount_in,
            crate::u128x128_math::Rounding::Up,
        )?
    };
    require!(
        swap_result.output_amount >= required_amount_out,
        PoolError::ExceededSlippage
    );

    let included_fee_input_amount"""))
bug("exact-out-limit-without-fee","C05","an exact-out buy with fees on the input and a limit between the amount without and with the fee",
 "the maximum input of an exact-out swap is compared with the amount before the fee",
 ("instructions/swap/swap_exact_out.rs","""        included_fee_input_amount <= maximum_amount_in,""","""        swap_result.excluded_fee_input_amount <= maximum_amount_in,"""))
bug("scheduler-period-wraps","C06","a pool traded more than 65535 periods after activation",
 "the fee scheduler's period counter wraps after 65536 periods: the fee jumps back up to the cliff",
 ("base_fee/fee_scheduler.rs","""            .safe_div(self.period_frequency)?;

        self.get_base_fee_numerator_by_period(period)""","""            .safe_div(self.period_frequency)?;

        self.get_base_fee_numerator_by_period((period as u16).into())"""))
bug("dynamic-fee-decay-boundary","C06","dynamic fee, a swap whose predecessor lies at least decay_period back after volatile trading",
 "volatility is carried over for twice the decay period",
 ("state/fee.rs","""            if elapsed < dynamic_fee_config.decay_period as u64 {""","""            if elapsed.saturating_sub(dynamic_fee_config.filter_period as u64)
                < dynamic_fee_config.decay_period as u64
            {"""))
bug("protocol-claim-cap-twice","C07","protocol fees from trading and from migration both waiting, a claim with a cap below their sum",
 "the cap of a protocol base fee claim applies to each of its two sources, so more than the cap is paid",
 ("state/virtual_pool.rs","""        let trading_claimed_fee = self.protocol_base_fee.min(max_amount);
        self.protocol_base_fee = self.protocol_base_fee.safe_sub(trading_claimed_fee)?;
        let max_amount = max_amount.safe_sub(trading_claimed_fee)?;""","""        let trading_claimed_fee = self.protocol_base_fee.min(max_amount);
        self.protocol_base_fee = self.protocol_base_fee.safe_sub(trading_claimed_fee)?;"""))
bug("exact-out-referral-kept","C07","an exact-out swap with a referral account",
 "the referral share of an exact-out swap is booked to the protocol as well as paid to the referrer: the shares add up to more than the fee",
 ("state/config.rs","""        let protocol_fee = protocol_fee.safe_sub(referral_fee)?;

        Ok((trading_fee, protocol_fee, referral_fee))""","""        let trading_fee = trading_fee.safe_sub(referral_fee)?;

        Ok((trading_fee, protocol_fee, referral_fee))"""))
bug("claim-treasury-base-only","C08","an operator who passes an account of his own for the quote side of a protocol fee claim",
 "the quote part of a protocol fee claim is checked against the base token's program only when base was paid too",
 ("instructions/operator/ix_claim_protocol_fee.rs","""    if token_quote_amount > 0 {
        validate_ata_token(
            &ctx.accounts.token_quote_account.to_account_info(),
            &treasury::ID,
            &ctx.accounts.quote_mint.key(),
            &ctx.accounts.token_quote_program.key(),
        )?;
        transfer""","""    if token_quote_amount > 0 {
        if token_base_amount == 0 {
            validate_ata_token(
                &ctx.accounts.token_quote_account.to_account_info(),
                &treasury::ID,
                &ctx.accounts.quote_mint.key(),
                &ctx.accounts.token_quote_program.key(),
            )?;
        }
        transfer"""))
bug("surplus-flag-after-partial","C10","protocol claims of a completed pool before and after, with a cap of zero first",
 "the protocol surplus is marked as withdrawn only when trading fees were claimed with it, so it is paid again and again",
 ("state/virtual_pool.rs","""            self.update_protocol_withdraw_surplus();
            let protocol_surplus_amount""","""            if max_amount > 0 {
                self.update_protocol_withdraw_surplus();
            }
            let protocol_surplus_amount"""))
bug("adjusted-lp-unlocked-first","C12","DAMM v2, a second position whose liquidity was adjusted and that has vested and permanent parts",
 "when the second position is adjusted, vested liquidity is rounded against the wrong total: part of what must vest is permanently locked",
 ("state/config.rs","""            let vested_liquidity = safe_mul_div_cast_u128(
                liquidity_subject_to_lock,
                vesting_percentage.into(),
                total_locked_percentage.into(),
                Rounding::Down,
            )?;""","""            let vested_liquidity = liquidity_subject_to_lock.min(self.vested_liquidity);"""))
bug("locker-starts-now","C13","time passes between the completing swap and create_locker",
 "the vesting escrow starts when create_locker is called instead of when the curve finished",
 ("instructions/migration/create_locker.rs","""        .to_create_vesting_escrow_params(virtual_pool.finish_curve_timestamp)?;""","""        .to_create_vesting_escrow_params(
            virtual_pool
                .finish_curve_timestamp
                .max(Clock::get()?.unix_timestamp as u64),
        )?;"""))
bug("immutable-token22-pointer","C14","a Token-2022 pool with an immutable token",
 "the metadata pointer authority of an immutable Token-2022 mint stays with the creator",
 ("instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs","""        AuthorityType::MetadataPointer,
        token_update_authority,""","""        AuthorityType::MetadataPointer,
        token_update_authority.or(Some(ctx.accounts.creator.key())),"""))
bug("single-swap-skips-first-ix","C15","a rate-limited pool and two swaps in one transaction, the first of them at index 0",
 "the guard against several swaps in one transaction does not look at the first instruction",
 ("instructions/swap/ix_swap.rs","""    for i in 0..current_index {
        let instruction = sysvar::instructions::load_instruction_at_checked(
            i.into(),
            instruction_sysvar_account_info,
        )?;

        if instruction.program_id != crate::ID {
            // we treat""","""    for i in 1..current_index {
        let instruction = sysvar::instructions::load_instruction_at_checked(
            i.into(),
            instruction_sysvar_account_info,
        )?;

        if instruction.program_id != crate::ID {
            // we treat"""))
bug("min-fee-swap-any-init","C15","first swap bundled with the creation of a different pool",
 "the minimum-fee first swap only needs some pool to be created in the transaction, not this one",
 ("instructions/swap/ix_swap.rs","""                if account.pubkey.eq(pool) {
                    //pass""","""                if account.pubkey.eq(pool) || instruction.accounts.iter().any(|a| a.pubkey.eq(pool)) {
                    //pass"""))
bug("sdk-first-swap-flag","C18","quote of a bundled first exact-out swap on a pool with min-fee first swap",
 "the SDK's exact-out quote ignores the first-swap minimum fee",
 ("dynamic-bonding-curve-sdk/src/quote_exact_out.rs","""        current_point,
        eligible_for_first_swap_with_min_fee,
    )?;""","""        current_point,
        eligible_for_first_swap_with_min_fee && !fee_mode.fees_on_input,
    )?;"""))
bug("event-reserve-before-completion","C19","a swap that completes the curve with more than the threshold",
 "EvtSwap2 caps the reported reserve at the migration threshold",
 ("instructions/swap/ix_swap.rs","""        quote_reserve_amount: pool.quote_reserve,""","""        quote_reserve_amount: pool.quote_reserve.min(config.migration_quote_threshold),"""))
bug("finish-by-vault-balance","C20","a third party sends quote tokens to the pool's vault",
 "the curve completes by what is in the quote vault rather than by what was traded",
 ("instructions/swap/ix_swap.rs","""    if pool.is_curve_complete(config.migration_quote_threshold) {
        ctx.accounts.base_vault.reload()?;""","""    ctx.accounts.quote_vault.reload()?;
    if pool.is_curve_complete(config.migration_quote_threshold)
        || ctx.accounts.quote_vault.amount
            >= config
                .migration_quote_threshold
                .safe_add(pool.metrics.total_trading_quote_fee)?
                .safe_add(pool.metrics.total_protocol_quote_fee)?
    {
        ctx.accounts.base_vault.reload()?;"""))
bug("transfer-creator-skip-partner-claim","C22","DAMM v1, creator transfers while only the partner's part is outstanding",
 "creator rights can move while the partner still has LP tokens to lock",
 ("instructions/creator/ix_transfer_pool_creator.rs","""                    migration_metadata.partner_locked_liquidity == 0
                        || migration_metadata.is_partner_liquidity_locked(),""","""                    migration_metadata.partner_locked_liquidity == 0
                        || migration_metadata.is_partner_liquidity_locked()
                        || migration_metadata.is_creator_liquidity_locked(),"""))
bug("cpi-check-skips-data","C23","a called program that assigns or grows the pool authority account",
 "the check after a CPI accepts a changed owner when lamports did not fall",
 ("utils/cpi_checker.rs","""        before_owner.eq(&after_owner),""","""        before_owner.eq(&after_owner) || after_lamports >= before_lamports,"""))
bug("burn-forgets-vesting","C02","fixed supply together with a vesting schedule",
 "the vesting amount is taken off the amount to burn, so the supply after migration is larger than configured",
 ("state/config.rs","""            Ok(self
                .pre_migration_token_supply
                .safe_sub(self.post_migration_token_supply)?)""","""            // what is locked for vesting cannot be burnt
            Ok(self
                .pre_migration_token_supply
                .safe_sub(self.post_migration_token_supply)?
                .saturating_sub(
                    self.locked_vesting_config
                        .to_locked_vesting_params()
                        .get_total_amount()?,
                ))"""))
bug("creation-fee-bits-reset","C16","partner claims, protocol claims, lamports are sent to the pool account, partner claims again",
 "the protocol's claim of the creation fee wipes the record of the partner's claim",
 ("state/virtual_pool.rs","""        self.creation_fee_bits = self
            .creation_fee_bits
            .bitxor(PROTOCOL_CREATION_FEE_CLAIMED_MASK)""","""        self.creation_fee_bits = self
            .creation_fee_bits
            .bitxor(PROTOCOL_CREATION_FEE_CLAIMED_MASK)
            & PROTOCOL_CREATION_FEE_CLAIMED_MASK"""))
bug("sdk-partial-fill-cap","C18","a partial-fill quote of a buy whose input lies between the rest of the threshold and what the pool would take with fees",
 "the SDK's partial-fill quote caps the input at what is left to the threshold without the fee",
 ("dynamic-bonding-curve-sdk/src/quote_partial_fill.rs","""    let swap_result = pool.get_swap_result_from_partial_input(
        config,
        in_amount,""","""    let max_in_amount = if swap_base_for_quote {
        in_amount
    } else {
        config
            .migration_quote_threshold
            .saturating_sub(pool.quote_reserve)
    };
    let swap_result = pool.get_swap_result_from_partial_input(
        config,
        in_amount.min(max_in_amount),"""))
bug("position-owner-by-unlocked","C12","DAMM v2; the partner has more unlocked liquidity while the creator has more in total",
 "the owners of the two positions are chosen by unlocked shares while their sizes go by total shares",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""            creator_liquidity_distribution,
            partner_liquidity_distribution,
            virtual_pool.creator,
            config.fee_claimer,
        )
    };""","""            creator_liquidity_distribution,
            partner_liquidity_distribution,
            if config.partner_liquidity_percentage > config.creator_liquidity_percentage {
                config.fee_claimer
            } else {
                virtual_pool.creator
            },
            if config.partner_liquidity_percentage > config.creator_liquidity_percentage {
                virtual_pool.creator
            } else {
                config.fee_claimer
            },
        )
    };"""))
bug("compounding-fee-rounds-up","C11","compounding migration with an amount that 20 bps do not divide",
 "the protocol's quote fee of a compounding migration is rounded up",
 ("migration_handler/compounding_liquidity.rs","""        let quote_fee_amount = safe_mul_div_cast_u64(
            deposit_quote_amount,
            migration_fee_bps.into(),
            BASIS_POINT_MAX,
            Rounding::Down,
        )?;
        Ok((base_fee_amount, quote_fee_amount))""","""        let quote_fee_amount = safe_mul_div_cast_u64(
            deposit_quote_amount,
            migration_fee_bps.into(),
            BASIS_POINT_MAX,
            Rounding::Up,
        )?;
        Ok((base_fee_amount, quote_fee_amount))"""))
bug("supply-check-without-vesting","C17","fixed supply and a vesting schedule, with a pre-migration supply that covers the buffer but not the buffer plus the vesting",
 "create_config accepts a fixed supply that does not cover curve, buffer, migration and vesting together",
 ("instructions/partner/ix_create_config.rs","""                swap_base_amount_buffer,
                included_protocol_fee_migration_base_amount,
                &locked_vesting,""","""                swap_base_amount_buffer,
                included_protocol_fee_migration_base_amount,
                &LockedVestingParams::default(),"""))
bug("exact-out-sell-rounds-down","C04","an exact-out sell above the first curve point, inside one segment",
 "the base a seller owes for an exact amount of quote is rounded down: small exact-out sells take more quote than the curve releases",
 ("state/virtual_pool.rs","""                        config.curve[i + 1].liquidity,
                        amount_left,
                        true,
                    )?;

                    let in_amount = get_delta_amount_base_unsigned(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        Rounding::Up,
                    )?;""","""                        config.curve[i + 1].liquidity,
                        amount_left,
                        true,
                    )?;

                    let in_amount = get_delta_amount_base_unsigned(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        Rounding::Down,
                    )?;"""))
bug("migration-fee-flag-shared","C10","a configuration that gives the whole migration fee to the creator",
 "the creator's withdrawal of the migration fee is only recorded when the partner has a share too, so it can be repeated",
 ("instructions/migration/ix_withdraw_migration_fee.rs","""        // update creator withdraw migration fee
        pool.update_withdraw_migration_fee(mask);""","""        // update creator withdraw migration fee
        if partner_migration_fee > 0 {
            pool.update_withdraw_migration_fee(mask);
        }"""))
bug("zap-pair-program","C21","a Token-2022 base with an SPL quote (or the reverse) and protocol fees zapped on the quote side",
 "the treasury account a quote-side zap has to convert into is derived with the quote token's program instead of the base token's",
 ("instructions/operator/ix_zap_protocol_fee.rs","""            &get_token_program_from_flag(pool.pool_type)?,""","""            ctx.accounts.token_program.key,"""))
bug("completion-needs-protocol-fee","C24","a curve that ends close to the migration price, so that there is hardly any buffer",
 "the completing swap also demands base tokens for a migration fee that is paid out of the migration amount: the curve can never be completed",
 ("instructions/swap/ix_swap.rs","""        let required_base_balance = config
            .migration_base_threshold""","""        let required_base_balance = config
            .migration_base_threshold
            .safe_mul(10_000 + u64::from(crate::constants::fee::PROTOCOL_LIQUIDITY_MIGRATION_FEE_BPS))?
            .safe_div(10_000)?"""))
bug("migrate-skips-locker","C09","a vesting config with DAMM v1 migrated before create_locker",
 "the DAMM v1 migration also accepts pools whose vesting has not been locked yet",
 ("instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs","""    require!(
        virtual_pool.get_migration_progress()? == MigrationProgress::LockedVesting,
        PoolError::NotPermitToDoThisAction
    );""","""    require!(
        matches!(
            virtual_pool.get_migration_progress()?,
            MigrationProgress::LockedVesting | MigrationProgress::PostBondingCurve
        ),
        PoolError::NotPermitToDoThisAction
    );"""))

bug("older-curve-points","C03","a configuration of an older release with more than 16 curve points and a sell from the upper segments",
 "exact-in sells only look at the first 16 curve points: above them the liquidity of a lower segment is used",
 ("state/virtual_pool.rs","""        // finding new target price
        let mut total_output_amount = 0u64;
        let mut current_sqrt_price = self.sqrt_price;
        let mut amount_left = amount_in;
        // Use curve.len() for backward compatibility for existing pools with 20 points
        for i in (0..config.curve.len() - 1).rev() {""","""        // finding new target price
        let mut total_output_amount = 0u64;
        let mut current_sqrt_price = self.sqrt_price;
        let mut amount_left = amount_in;
        for i in (0..crate::constants::MAX_CURVE_POINT - 1).rev() {"""))
bug("volatility-kept-alive","C06","a large trade, then dust trades at intervals shorter than the filter period for longer than it",
 "every trade that moves the price at all restarts the volatility clock, so dust trades keep the variable fee from decaying",
 ("state/virtual_pool.rs","""            if delta_price > 0 {
                self.volatility_tracker.last_update_timestamp""","""            if delta_price > 0 || old_sqrt_price != self.sqrt_price {
                self.volatility_tracker.last_update_timestamp"""))
bug("creator-surplus-rounds-up","C01","a raised surplus whose 80 percent part does not divide by the creator percentage",
 "the creator's surplus is rounded up while the partner's remainder is not reduced: together they take one unit more than there is",
 ("state/virtual_pool.rs","""        let PartnerAndCreatorSplitFee { creator_fee, .. } =
            config.split_partner_and_creator_fee(partner_and_creator_surplus)?;

        Ok(creator_fee)""","""        let creator_fee = safe_mul_div_cast_u64(
            partner_and_creator_surplus,
            config.creator_trading_fee_percentage.into(),
            100,
            Rounding::Up,
        )?;

        Ok(creator_fee)"""))
bug("first-swap-exact-out","C15","first swap with minimum fee enabled, fees taken from the output, and an exact-out buy in the creation transaction",
 "an eligible first exact-out swap pays the full anti-sniper fee when the fee is taken from the output",
 ("state/virtual_pool.rs","""        let included_fee_out_amount = if fee_mode.fees_on_input {
            amount_out
        } else {
            let trade_fee_numerator = if eligible_for_first_swap_with_min_fee {""","""        let included_fee_out_amount = if fee_mode.fees_on_input {
            amount_out
        } else {
            let trade_fee_numerator = if eligible_for_first_swap_with_min_fee && fee_mode.fees_on_input {"""))
bug("migration-share-constant","C11","a pool created by an older release, which promised no protocol share of the migrated liquidity",
 "the DAMM v2 migration takes today's protocol share instead of the one recorded in the pool",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""            virtual_pool.protocol_liquidity_migration_fee_bps,
        )?;""","""            crate::constants::fee::PROTOCOL_LIQUIDITY_MIGRATION_FEE_BPS,
        )?;"""))
bug("legacy-creation-fee-tied","C16","a pool of an older release that still owes the flat creation fee under a configuration without creation fee",
 "the flat creation fee of older pools is only paid out together with a configured creation fee",
 ("instructions/operator/ix_claim_protocol_pool_creation_fee.rs","""    if pool.has_legacy_creation_fee() && pool.eligible_to_claim_legacy_creation_fee() {""","""    if protocol_fee > 0
        && pool.has_legacy_creation_fee()
        && pool.eligible_to_claim_legacy_creation_fee()
    {"""))
bug("vesting-from-completion","C12","liquidity vesting and a migration that comes some time after the curve is complete",
 "vested liquidity is released relative to the completion of the curve instead of the migration: what is migrated late is free early",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;

    require!(""","""    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;
    // lock durations count from the end of the curve
    let current_timestamp = virtual_pool.finish_curve_timestamp.min(current_timestamp);

    require!("""))
bug("migration-refuses-prefunded","C24","somebody sends lamports to the address of the future DAMM v2 pool",
 "the DAMM v2 migration refuses when the address of the new pool already holds lamports: anyone can block a pool for ever",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;

    require!(""","""    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;

    // the pool must not exist yet
    require!(
        ctx.accounts.pool.lamports() == 0,
        PoolError::InvalidAccount
    );

    require!("""))
bug("transfer-with-any-metadata","C22","two migrated DAMM v1 pools, the liquidity of only one of them settled",
 "the metadata shown to prove that LP tokens are settled may belong to another pool",
 ("instructions/creator/ix_transfer_pool_creator.rs","""                require!(
                    migration_metadata.virtual_pool == ctx.accounts.virtual_pool.key(),
                    PoolError::InvalidAccount
                );

""",""))
bug("exact-out-after-completion","C09","an exact-out sell after the curve is complete and before it is migrated",
 "exact-out swaps are not stopped on a completed curve: holders sell into the amount raised for the migration",
 ("instructions/swap/ix_swap.rs","""    require!(
        !pool.is_curve_complete(config.migration_quote_threshold),
        PoolError::PoolIsCompleted
    );

    // update""","""    // exact out cannot pass the migration price
    require!(
        swap_mode == SwapMode::ExactOut
            || !pool.is_curve_complete(config.migration_quote_threshold),
        PoolError::PoolIsCompleted
    );

    // update"""))
bug("burn-stale-balance","C01","fees collected in base tokens, unclaimed at the migration, and liquidity in the second position",
 "the migration burns what the vault held before the second position was funded: unclaimed base fees are burnt or the migration fails",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""    // burn the rest of token in pool authority after migrated amount and fee
    ctx.accounts.base_vault.reload()?;

""","""    // burn the rest of token in pool authority after migrated amount and fee
    if liquidity_for_second_position == 0 {
        ctx.accounts.base_vault.reload()?;
    }

"""))
bug("vesting-frequency-zero","C17","token vesting released entirely at the cliff, with frequency zero",
 "configurations with cliff-only vesting and frequency zero are accepted; the locker refuses them, so their pools can never be migrated",
 ("instructions/partner/ix_create_config.rs","""                self.frequency != 0 && total_amount != 0,
                PoolError::InvalidVestingParameters""","""                (self.frequency != 0 || self.number_of_period == 0) && total_amount != 0,
                PoolError::InvalidVestingParameters"""))
bug("second-position-unguarded","C23","a DAMM v2 program that misuses the pool authority only while the second position is funded",
 "adding liquidity to the second position is not covered by the pool authority check",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""                        token_b_amount_threshold: u64::MAX,
                    },
                )
            },
            self.pool_authority.to_account_info(),
        )?;""","""                        token_b_amount_threshold: u64::MAX,
                    },
                )
            },
            self.payer.to_account_info(),
        )?;"""))
bug("older-surplus-capped","C25","a pool completed by an older release, whose last swap went far beyond the threshold",
 "the protocol part of a surplus larger than ten percent of the threshold is computed on those ten percent only: the rest is stranded",
 ("state/virtual_pool.rs","""        let total_surplus: u64 = self.get_total_surplus(migration_threshold)?;
        let partner_surplus_amount = self.get_partner_and_creator_surplus(total_surplus)?;
        Ok(total_surplus.safe_sub(partner_surplus_amount)?)""","""        // the last swap cannot exceed the threshold by more than rounding
        let total_surplus: u64 = self
            .get_total_surplus(migration_threshold)?
            .min(migration_threshold.safe_div(10)?);
        let partner_surplus_amount = self.get_partner_and_creator_surplus(total_surplus)?;
        Ok(total_surplus.safe_sub(partner_surplus_amount)?)"""))
bug("migrates-at-pool-price","C25","a pool completed by an older release beyond the migration price, migrated to DAMM v2",
 "the new pool opens at the bonding curve's last price instead of the configured migration price",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""        config.migration_sqrt_price,
""","""        virtual_pool.sqrt_price.max(config.migration_sqrt_price),
"""))
bug("older-curve-exact-out","C25","an exact-out buy on a configuration of an older release, above its 16th curve point",
 "exact-out buys only walk the first 16 curve points and report not enough liquidity above them",
 ("state/virtual_pool.rs","""        let mut current_sqrt_price = self.sqrt_price;

        for i in 0..config.curve.len() {
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                break;
            }
            if config.curve[i].sqrt_price > current_sqrt_price {
                let max_amount_out = get_delta""","""        let mut current_sqrt_price = self.sqrt_price;

        for i in 0..crate::constants::MAX_CURVE_POINT {
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                break;
            }
            if config.curve[i].sqrt_price > current_sqrt_price {
                let max_amount_out = get_delta"""))
bug("slow-decay-high-bits","C06","an exponential schedule of more than 32768 periods, and a trade that late",
 "the exponential fee forgets the factor of the 16th exponent bit: after 32768 periods the fee jumps back up",
 ("math/fee_math.rs","""    if exp & 0x8000 > 0 {""","""    if exp & 0x8000 > 0x8000 {"""))
bug("locker-refuses-elapsed","C24","vesting, and a curve completed so long ago that the vesting has ended",
 "create_locker refuses a schedule that already ended, so the pool never migrates",
 ("instructions/migration/create_locker.rs","""    let vesting_params = locked_vesting_params
""","""    require!(
        (Clock::get()?.unix_timestamp as u64).saturating_sub(virtual_pool.finish_curve_timestamp)
            <= locked_vesting_params
                .cliff_duration_from_migration_time
                .saturating_add(
                    locked_vesting_params
                        .frequency
                        .saturating_mul(locked_vesting_params.number_of_period)
                ),
        PoolError::InvalidVestingParameters
    );
    let vesting_params = locked_vesting_params
"""))
bug("volatility-elapsed-wraps","C06","dynamic fee, volatile trading, then a pause just above a multiple of 65536 seconds",
 "elapsed time wraps at 65536 s: volatility of a day ago counts as if it were recent",
 ("state/fee.rs","""        let elapsed = current_timestamp.saturating_sub(self.last_update_timestamp);
""","""        // both periods are u16
        let elapsed =
            u64::from(current_timestamp.saturating_sub(self.last_update_timestamp) as u16);
"""))
bug("lp-vesting-short","C12","liquidity vesting of more than 1000 periods",
 "liquidity that should vest over more than 1000 periods is released early at the cliff",
 ("state/config.rs","""        let cliff_unlock_liquidity = total_vested_liquidity
            .safe_sub(""","""        // keep within what the position account can track
        let number_of_period = number_of_period.min(1_000);

        let cliff_unlock_liquidity = total_vested_liquidity
            .safe_sub("""))
bug("first-swap-needs-account","C26","a first swap sent by a client that predates the first-swap discount, on a pool that offers it",
 "the first swap of a pool that offers the discounted first swap is refused unless the instructions account is passed along",
 ("instructions/swap/ix_swap.rs","""    let eligible_for_first_swap_with_min_fee = config.is_first_swap_with_min_fee_enabled()
        && pool.is_first_swap()""","""    let first_swap = config.is_first_swap_with_min_fee_enabled() && pool.is_first_swap();
    // the instructions account decides whether the first swap is discounted
    require!(
        !first_swap || !ctx.remaining_accounts.is_empty(),
        PoolError::FailToValidateSingleSwapInstruction
    );

    let eligible_for_first_swap_with_min_fee = first_swap"""))
bug("leftover-metadata-refused","C26","a pool whose DAMM v2 metadata account was created through an older release, migrated by a client that passes it",
 "the retired migration metadata slot only accepts an empty account: a pool whose metadata account exists cannot be migrated by the client that made it",
 ("instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs","""    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;

    require!(
        virtual_pool.get_migration_progress()? == MigrationProgress::LockedVesting,""","""    // retired, nothing may be stored there
    require!(
        ctx.accounts.migration_metadata.owner != &crate::ID,
        PoolError::NotPermitToDoThisAction
    );

    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;

    require!(
        virtual_pool.get_migration_progress()? == MigrationProgress::LockedVesting,"""))
bug("retired-endpoint-privileges","C26","a migration transaction of a 0.1.6 client, which starts with the retired metadata instruction",
 "the retired metadata instruction asks for a writable metadata account and a signing payer, as its first release did: transactions laid out by the 0.1.6 interface fail",
 ("instructions/migration/dynamic_amm_v2/migration_damm_v2_create_metadata.rs","""    pub migration_metadata: UncheckedAccount<'info>,
    /// CHECK: This is not dangerous because we don't read or write from this account
    pub payer: UncheckedAccount<'info>,""","""    #[account(mut)]
    pub migration_metadata: UncheckedAccount<'info>,
    #[account(mut)]
    pub payer: Signer<'info>,"""))
bug("forwarder-long-list","C15","two buys of a rate-limited pool in one transaction, the first through a program that lists more than a dozen accounts of its own first",
 "the search for earlier swaps looks only at the first sixteen accounts of another program's instruction",
 ("instructions/swap/ix_swap.rs","            for i in 0..instruction.accounts.len() {","            // a swap has sixteen accounts with its instructions sysvar\n            for i in 0..instruction.accounts.len().min(16) {"))
bug("forwarder-distracted","C15","a program that makes two buys of a rate-limited pool with any other call in between",
 "only the latest sibling of a forwarded swap is checked for another swap of the same pool",
 ("instructions/swap/ix_swap.rs","""        let mut sibling_index = 0;
        while let Some(sibling_instruction) = get_processed_sibling_instruction(sibling_index) {""","""        if let Some(sibling_instruction) = get_processed_sibling_instruction(0) {"""),
 ("instructions/swap/ix_swap.rs","""            }

            sibling_index = sibling_index.safe_add(1)?;
        }""","""            }
        }"""))
bug("operator-owner-unchecked","C21","an operator account that lives in another program, laid out like a real one and naming its owner as operator",
 "the zap instruction reads the operator record without looking at the program that owns it: anybody can write a record for themselves",
 ("instructions/operator/ix_zap_protocol_fee.rs","""    pub operator: AccountLoader<'info, Operator>,""","""    /// CHECK: read in access control
    pub operator: UncheckedAccount<'info>,"""),
 ("instructions/operator/ix_zap_protocol_fee.rs","Operator, ",""),
 ("lib.rs","is_valid_operator_role(&ctx.accounts.operator, ctx.accounts.signer.key, OperatorPermission::ZapProtocolFee)","is_zap_operator(&ctx.accounts.operator, ctx.accounts.signer.key)"),
 ("access_control.rs","""pub fn is_valid_operator_role<'info>(""","""pub fn is_zap_operator(operator: &AccountInfo, signer: &Pubkey) -> Result<()> {
    let data = operator.try_borrow_data()?;
    require!(
        data.len() == 8 + Operator::INIT_SPACE && data.starts_with(Operator::DISCRIMINATOR),
        PoolError::InvalidPermission
    );
    let operator: Operator = bytemuck::pod_read_unaligned(&data[8..]);
    require!(
        operator.whitelisted_address.eq(signer)
            && operator.is_permission_allow(OperatorPermission::ZapProtocolFee),
        PoolError::InvalidPermission
    );
    Ok(())
}

pub fn is_valid_operator_role<'info>("""))
bug("transfer-forged-metadata","C22","a migration record that lives in another program and says that the LP tokens are settled",
 "the transfer of the creator rights reads the migration record without looking at the program that owns it",
 ("instructions/creator/ix_transfer_pool_creator.rs","""                let migration_metadata_loader: AccountLoader<'_, MeteoraDammMigrationMetadata> =
                    AccountLoader::try_from(migration_metadata_account)?;
                let migration_metadata = migration_metadata_loader.load()?;
""","""                let data = migration_metadata_account.try_borrow_data()?;
                require!(
                    data.len() == 8 + MeteoraDammMigrationMetadata::INIT_SPACE
                        && data.starts_with(MeteoraDammMigrationMetadata::DISCRIMINATOR),
                    PoolError::InvalidAccount
                );
                let migration_metadata: MeteoraDammMigrationMetadata =
                    bytemuck::pod_read_unaligned(&data[8..]);
"""))
bug("sdk-exact-out-after-completion","C18","an exact-out quote on a pool whose curve is complete but not migrated yet",
 "the SDK's exact-out quote answers for a sale on a completed pool, which the program refuses",
 ("dynamic-bonding-curve-sdk/src/quote_exact_out.rs","""        !pool.is_curve_complete(config.migration_quote_threshold),""","""        swap_base_for_quote || !pool.is_curve_complete(config.migration_quote_threshold),"""))
json.dump(B,open("/tmp/bugs.json","w"),indent=1)
for b in B:
    for e in b["edits"]:
        t=open("/repo/"+e["file"]).read(); n=t.count(e["old"])
        if n!=1: print(b["id"],e["file"],n)
