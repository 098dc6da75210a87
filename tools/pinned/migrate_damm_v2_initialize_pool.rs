use anchor_lang::prelude::*;

use anchor_spl::{
    token_2022::{set_authority, spl_token_2022::instruction::AuthorityType, SetAuthority},
    token_interface::{TokenAccount, TokenInterface},
};
use damm_v2::{
    accounts::PodAlignedFeeTimeScheduler,
    types::{
        AddLiquidityParameters, InitializeCustomizablePoolParameters, InitializePoolParameters,
    },
};
use unchecked_account::unchecked_account::UncheckedAccount;

use crate::damm_v2_utils::BaseFeeMode as DammV2BaseFeeMode;
use crate::{
    activation_handler::ActivationType,
    const_pda::{self, pool_authority::BUMP},
    constants::{MAX_SQRT_PRICE, MIN_SQRT_PRICE},
    cpi_checker::cpi_with_account_lamport_and_owner_checking,
    flash_rent,
    migration_handler::{self, get_migration_handler, InitialPoolInformation},
    params::fee_parameters::to_bps,
    safe_math::{SafeCast, SafeMath},
    state::{
        LiquidityDistribution, LiquidityDistributionItem, MigrationFeeOption, MigrationOption,
        MigrationProgress, PoolConfig, VirtualPool,
    },
    PoolError,
};
use migration_handler::MigratedCollectFeeMode;

#[derive(Accounts)]
pub struct MigrateDammV2Ctx<'info> {
    /// virtual pool
    #[account(mut, has_one = base_vault, has_one = quote_vault, has_one = config)]
    pub virtual_pool: AccountLoader<'info, VirtualPool>,

    /// CHECK: Deprecated. Unused anymore.
    #[deprecated]
    pub migration_metadata: UncheckedAccount<'info>,

    /// virtual pool config key
    pub config: AccountLoader<'info, PoolConfig>,

    /// CHECK: pool authority
    #[account(
        mut,
        address = const_pda::pool_authority::ID,
    )]
    pub pool_authority: AccountInfo<'info>,

    /// CHECK: pool
    #[account(mut)]
    pub pool: UncheckedAccount<'info>,

    /// CHECK: position nft mint for partner
    #[account(mut)]
    pub first_position_nft_mint: Signer<'info>,

    /// CHECK: position nft account for partner
    #[account(mut)]
    pub first_position_nft_account: UncheckedAccount<'info>,

    /// CHECK:
    #[account(mut)]
    pub first_position: UncheckedAccount<'info>,

    /// CHECK: position nft mint for owner
    #[account(mut, constraint = first_position_nft_mint.key().ne(&second_position_nft_mint.key()))]
    pub second_position_nft_mint: Option<Signer<'info>>,

    /// CHECK: position nft account for owner
    #[account(mut)]
    pub second_position_nft_account: Option<UncheckedAccount<'info>>,

    /// CHECK:
    #[account(mut)]
    pub second_position: Option<UncheckedAccount<'info>>,

    /// CHECK: damm pool authority
    pub damm_pool_authority: UncheckedAccount<'info>,

    /// CHECK:
    #[account(address = damm_v2::ID)]
    pub amm_program: UncheckedAccount<'info>,

    /// CHECK: base token mint
    #[account(mut)]
    pub base_mint: UncheckedAccount<'info>,
    /// CHECK: quote token mint
    #[account(mut)]
    pub quote_mint: UncheckedAccount<'info>,
    /// CHECK:
    #[account(mut)]
    pub token_a_vault: UncheckedAccount<'info>,
    /// CHECK:
    #[account(mut)]
    pub token_b_vault: UncheckedAccount<'info>,
    /// CHECK: base_vault
    #[account(
        mut,
        token::mint = base_mint,
        token::token_program = token_base_program
    )]
    pub base_vault: Box<InterfaceAccount<'info, TokenAccount>>,
    /// CHECK: quote vault
    #[account(
        mut,
        token::mint = quote_mint,
        token::token_program = token_quote_program
    )]
    pub quote_vault: Box<InterfaceAccount<'info, TokenAccount>>,
    /// CHECK: payer
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: token_program
    pub token_base_program: Interface<'info, TokenInterface>,
    /// CHECK: token_program
    pub token_quote_program: Interface<'info, TokenInterface>,
    /// CHECK: token_program
    pub token_2022_program: Interface<'info, TokenInterface>,
    /// CHECK: damm event authority
    pub damm_event_authority: UncheckedAccount<'info>,
    /// System program.
    pub system_program: Program<'info, System>,
    // Remaining accounts:
    // 0. [READ-ONLY] damm v2 config account
}

impl<'info> MigrateDammV2Ctx<'info> {
    fn create_pool(
        &self,
        pool_config: AccountInfo<'info>,
        liquidity: u128,
        sqrt_price: u128,
        bump: u8,
        migration_fee_option: MigrationFeeOption,
        migrate_collect_fee_mode: MigratedCollectFeeMode,
        config: &PoolConfig,
    ) -> Result<()> {
        let pool_authority_seeds = pool_authority_seeds!(bump);

        let cpi_create_pool_fn = || {
            flash_rent(
                self.pool_authority.to_account_info(),
                self.payer.to_account_info(),
                self.system_program.to_account_info(),
                || {
                    if migration_fee_option == MigrationFeeOption::Customizable {
                        let pool_fees = config.build_damm_v2_pool_fee_params()?;

                        let initialize_pool_params = InitializeCustomizablePoolParameters {
                            pool_fees,
                            sqrt_min_price: MIN_SQRT_PRICE,
                            sqrt_max_price: MAX_SQRT_PRICE,
                            has_alpha_vault: false,
                            liquidity,
                            sqrt_price,
                            activation_type: 1, // timestamp
                            collect_fee_mode: migrate_collect_fee_mode
                                .to_dammv2_collect_fee_mode()?,
                            activation_point: None,
                        };
                        damm_v2::cpi::initialize_pool_with_dynamic_config(
                            CpiContext::new_with_signer(
                                self.amm_program.to_account_info(),
                                damm_v2::cpi::accounts::InitializePoolWithDynamicConfig {
                                    creator: self.pool_authority.to_account_info(),
                                    position_nft_mint: self
                                        .first_position_nft_mint
                                        .to_account_info(),
                                    position_nft_account: self
                                        .first_position_nft_account
                                        .to_account_info(),
                                    payer: self.pool_authority.to_account_info(),
                                    pool_creator_authority: self.pool_authority.to_account_info(),
                                    config: pool_config.to_account_info(),
                                    pool_authority: self.damm_pool_authority.to_account_info(),
                                    pool: self.pool.to_account_info(),
                                    position: self.first_position.to_account_info(),
                                    token_a_mint: self.base_mint.to_account_info(),
                                    token_b_mint: self.quote_mint.to_account_info(),
                                    token_a_vault: self.token_a_vault.to_account_info(),
                                    token_b_vault: self.token_b_vault.to_account_info(),
                                    payer_token_a: self.base_vault.to_account_info(),
                                    payer_token_b: self.quote_vault.to_account_info(),
                                    token_a_program: self.token_base_program.to_account_info(),
                                    token_b_program: self.token_quote_program.to_account_info(),
                                    token_2022_program: self.token_2022_program.to_account_info(),
                                    system_program: self.system_program.to_account_info(),
                                    event_authority: self.damm_event_authority.to_account_info(),
                                    program: self.amm_program.to_account_info(),
                                },
                                &[&pool_authority_seeds[..]],
                            ),
                            initialize_pool_params,
                        )?;
                    } else {
                        damm_v2::cpi::initialize_pool(
                            CpiContext::new_with_signer(
                                self.amm_program.to_account_info(),
                                damm_v2::cpi::accounts::InitializePool {
                                    creator: self.pool_authority.to_account_info(),
                                    position_nft_mint: self
                                        .first_position_nft_mint
                                        .to_account_info(),
                                    position_nft_account: self
                                        .first_position_nft_account
                                        .to_account_info(),
                                    payer: self.pool_authority.to_account_info(),
                                    config: pool_config.to_account_info(),
                                    pool_authority: self.damm_pool_authority.to_account_info(),
                                    pool: self.pool.to_account_info(),
                                    position: self.first_position.to_account_info(),
                                    token_a_mint: self.base_mint.to_account_info(),
                                    token_b_mint: self.quote_mint.to_account_info(),
                                    token_a_vault: self.token_a_vault.to_account_info(),
                                    token_b_vault: self.token_b_vault.to_account_info(),
                                    payer_token_a: self.base_vault.to_account_info(),
                                    payer_token_b: self.quote_vault.to_account_info(),
                                    token_a_program: self.token_base_program.to_account_info(),
                                    token_b_program: self.token_quote_program.to_account_info(),
                                    token_2022_program: self.token_2022_program.to_account_info(),
                                    system_program: self.system_program.to_account_info(),
                                    event_authority: self.damm_event_authority.to_account_info(),
                                    program: self.amm_program.to_account_info(),
                                },
                                &[&pool_authority_seeds[..]],
                            ),
                            InitializePoolParameters {
                                liquidity,
                                sqrt_price,
                                activation_point: None,
                            },
                        )?;
                    }

                    Ok(())
                },
            )
        };

        cpi_with_account_lamport_and_owner_checking(
            cpi_create_pool_fn,
            self.pool_authority.to_account_info(),
        )
    }

    fn lock_liquidity_position<'a>(
        &self,
        liquidity_distribution: &LiquidityDistributionItem,
        position: &AccountInfo<'info>,
        position_nft_account: &AccountInfo<'info>,
        current_timestamp: u64,
    ) -> Result<()> {
        let mut called_functions: Vec<Box<dyn Fn() -> Result<()>>> = vec![];

        if liquidity_distribution.permanent_locked_liquidity > 0 {
            called_functions.push(Box::new(move || {
                let pool_authority_seeds = pool_authority_seeds!(BUMP);
                damm_v2::cpi::permanent_lock_position(
                    CpiContext::new_with_signer(
                        self.amm_program.to_account_info(),
                        damm_v2::cpi::accounts::PermanentLockPosition {
                            pool: self.pool.to_account_info(),
                            position: position.clone(),
                            position_nft_account: position_nft_account.clone(),
                            owner: self.pool_authority.to_account_info(),
                            event_authority: self.damm_event_authority.to_account_info(),
                            program: self.amm_program.to_account_info(),
                        },
                        &[&pool_authority_seeds[..]],
                    ),
                    liquidity_distribution.permanent_locked_liquidity,
                )
            }));
        }
        if liquidity_distribution.vested_liquidity > 0 {
            let vesting_params =
                liquidity_distribution.get_damm_v2_vesting_parameters(current_timestamp)?;

            called_functions.push(Box::new(move || {
                let pool_authority_seeds = pool_authority_seeds!(BUMP);
                damm_v2::cpi::lock_inner_position(
                    CpiContext::new_with_signer(
                        self.amm_program.to_account_info(),
                        damm_v2::cpi::accounts::LockInnerPosition {
                            pool: self.pool.to_account_info(),
                            position: position.clone(),
                            position_nft_account: position_nft_account.clone(),
                            owner: self.pool_authority.to_account_info(),
                            event_authority: self.damm_event_authority.to_account_info(),
                            program: self.amm_program.to_account_info(),
                        },
                        &[&pool_authority_seeds[..]],
                    ),
                    vesting_params,
                )
            }));
        }

        let flash_rent_and_lock_position = || {
            flash_rent(
                self.pool_authority.to_account_info(),
                self.payer.to_account_info(),
                self.system_program.to_account_info(),
                || {
                    for function in called_functions.iter() {
                        function()?;
                    }
                    Ok(())
                },
            )
        };

        cpi_with_account_lamport_and_owner_checking(
            flash_rent_and_lock_position,
            self.pool_authority.to_account_info(),
        )?;

        Ok(())
    }

    fn set_authority_for_position(
        &self,
        position_nft_account: &AccountInfo<'info>,
        new_authority: Pubkey,
        bump: u8,
    ) -> Result<()> {
        let pool_authority_seeds = pool_authority_seeds!(bump);
        set_authority(
            CpiContext::new_with_signer(
                self.token_2022_program.to_account_info(),
                SetAuthority {
                    current_authority: self.pool_authority.to_account_info(),
                    account_or_mint: position_nft_account.clone(),
                },
                &[&pool_authority_seeds[..]],
            ),
            AuthorityType::AccountOwner,
            Some(new_authority),
        )?;
        Ok(())
    }

    fn create_second_position(&self, total_liquidity: u128) -> Result<()> {
        let pool_authority_seeds = pool_authority_seeds!(BUMP);
        msg!("create position");
        damm_v2::cpi::create_position(CpiContext::new(
            self.amm_program.to_account_info(),
            damm_v2::cpi::accounts::CreatePosition {
                owner: self.pool_authority.to_account_info(),
                pool: self.pool.to_account_info(),
                position_nft_mint: self
                    .second_position_nft_mint
                    .clone()
                    .unwrap()
                    .to_account_info(),
                position_nft_account: self
                    .second_position_nft_account
                    .clone()
                    .unwrap()
                    .to_account_info(),
                position: self.second_position.clone().unwrap().to_account_info(),
                pool_authority: self.damm_pool_authority.to_account_info(),
                payer: self.payer.to_account_info(),
                token_program: self.token_2022_program.to_account_info(),
                system_program: self.system_program.to_account_info(),
                event_authority: self.damm_event_authority.to_account_info(),
                program: self.amm_program.to_account_info(),
            },
        ))?;

        msg!("add liquidity");
        cpi_with_account_lamport_and_owner_checking(
            || {
                damm_v2::cpi::add_liquidity(
                    CpiContext::new_with_signer(
                        self.amm_program.to_account_info(),
                        damm_v2::cpi::accounts::AddLiquidity {
                            pool: self.pool.to_account_info(),
                            position: self.second_position.clone().unwrap().to_account_info(),
                            token_a_account: self.base_vault.to_account_info(),
                            token_b_account: self.quote_vault.to_account_info(),
                            token_a_vault: self.token_a_vault.to_account_info(),
                            token_b_vault: self.token_b_vault.to_account_info(),
                            token_a_mint: self.base_mint.to_account_info(),
                            token_b_mint: self.quote_mint.to_account_info(),
                            position_nft_account: self
                                .second_position_nft_account
                                .clone()
                                .unwrap()
                                .to_account_info(),
                            owner: self.pool_authority.to_account_info(),
                            token_a_program: self.token_base_program.to_account_info(),
                            token_b_program: self.token_quote_program.to_account_info(),
                            event_authority: self.damm_event_authority.to_account_info(),
                            program: self.amm_program.to_account_info(),
                        },
                        &[&pool_authority_seeds[..]],
                    ),
                    AddLiquidityParameters {
                        liquidity_delta: total_liquidity,
                        token_a_amount_threshold: u64::MAX, // TODO should we take care for that
                        token_b_amount_threshold: u64::MAX,
                    },
                )
            },
            self.pool_authority.to_account_info(),
        )?;

        Ok(())
    }
}

fn validate_config_key(
    damm_config: &damm_v2::accounts::Config,
    migration_fee_option: MigrationFeeOption,
) -> Result<()> {
    // validate config key
    match migration_fee_option {
        MigrationFeeOption::Customizable => {
            // nothing to check
        }
        MigrationFeeOption::FixedBps25
        | MigrationFeeOption::FixedBps30
        | MigrationFeeOption::FixedBps100
        | MigrationFeeOption::FixedBps200
        | MigrationFeeOption::FixedBps400
        | MigrationFeeOption::FixedBps600 => {
            let fee_scheduler = bytemuck::try_from_bytes::<PodAlignedFeeTimeScheduler>(
                &damm_config.pool_fees.base_fee.data,
            )
            .map_err(|_| PoolError::UndeterminedError)?;

            let base_fee_mode: DammV2BaseFeeMode = fee_scheduler
                .base_fee_mode
                .try_into()
                .map_err(|_| PoolError::TypeCastFailed)?;

            // Validate it's fee scheduler linear | exponential
            require!(
                base_fee_mode == DammV2BaseFeeMode::FeeTimeSchedulerLinear
                    || base_fee_mode == DammV2BaseFeeMode::FeeTimeSchedulerExponential,
                PoolError::InvalidConfigAccount
            );

            let base_fee_bps = to_bps(
                fee_scheduler.cliff_fee_numerator.into(),
                damm_v2::constants::FEE_DENOMINATOR.into(),
            )?;

            // Validate no schedule
            require!(
                fee_scheduler.period_frequency == 0
                    && fee_scheduler.reduction_factor == 0
                    && fee_scheduler.number_of_period == 0,
                PoolError::InvalidConfigAccount
            );

            migration_fee_option.validate_base_fee(base_fee_bps)?;

            require!(
                damm_config.sqrt_min_price == MIN_SQRT_PRICE,
                PoolError::InvalidConfigAccount
            );

            require!(
                damm_config.sqrt_max_price == MAX_SQRT_PRICE,
                PoolError::InvalidConfigAccount
            );

            require!(
                damm_config.vault_config_key == Pubkey::default(),
                PoolError::InvalidConfigAccount
            );

            let activation_type = ActivationType::try_from(damm_config.activation_type)
                .map_err(|_| PoolError::TypeCastFailed)?;

            require!(
                activation_type == ActivationType::Timestamp,
                PoolError::InvalidConfigAccount
            );
        }
    }

    require!(
        damm_config.pool_creator_authority == const_pda::pool_authority::ID,
        PoolError::InvalidConfigAccount
    );

    Ok(())
}

pub fn handle_migrate_damm_v2<'c: 'info, 'info>(
    ctx: Context<'_, '_, 'c, 'info, MigrateDammV2Ctx<'info>>,
) -> Result<()> {
    let current_timestamp = Clock::get()?.unix_timestamp as u64;

    let config = ctx.accounts.config.load()?;
    let migration_fee_option = MigrationFeeOption::try_from(config.migration_fee_option)
        .map_err(|_| PoolError::InvalidMigrationFeeOption)?;

    {
        require!(
            ctx.remaining_accounts.len() >= 1,
            PoolError::MissingPoolConfigInRemainingAccount
        );
        let damm_config_loader: AccountLoader<'_, damm_v2::accounts::Config> =
            AccountLoader::try_from(&ctx.remaining_accounts[0])?;
        let damm_config = damm_config_loader.load()?;

        validate_config_key(&damm_config, migration_fee_option)?;
    }

    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;

    require!(
        virtual_pool.get_migration_progress()? == MigrationProgress::LockedVesting,
        PoolError::NotPermitToDoThisAction
    );

    require!(
        virtual_pool.is_curve_complete(config.migration_quote_threshold),
        PoolError::PoolIsIncompleted
    );

    let migration_option = MigrationOption::try_from(config.migration_option)
        .map_err(|_| PoolError::InvalidMigrationOption)?;
    require!(
        migration_option == MigrationOption::DammV2,
        PoolError::InvalidMigrationOption
    );
    let initial_quote_vault_amount = ctx.accounts.quote_vault.amount;
    let initial_base_vault_amount = ctx.accounts.base_vault.amount;

    let protocol_and_partner_base_fee = virtual_pool.get_protocol_and_trading_base_fee()?;

    let migrated_collect_fee_mode: MigratedCollectFeeMode =
        config.migrated_collect_fee_mode.safe_cast()?;

    let liquidity_handler = get_migration_handler(
        MigrationOption::DammV2,
        migrated_collect_fee_mode,
        config.migration_sqrt_price,
    );

    let (included_protocol_fee_migration_base_amount, included_protocol_fee_migration_quote_amount) =
        liquidity_handler.get_included_protocol_fee_migration_amounts_2(
            config.migration_base_threshold,
            config.migration_quote_threshold,
            config.migration_fee_percentage,
            initial_base_vault_amount.safe_sub(protocol_and_partner_base_fee)?,
        )?;

    let (protocol_migration_base_fee, protocol_migration_quote_fee) = liquidity_handler
        .get_migration_protocol_fees(
            included_protocol_fee_migration_base_amount,
            included_protocol_fee_migration_quote_amount,
            virtual_pool.protocol_liquidity_migration_fee_bps,
        )?;

    virtual_pool.save_protocol_liquidity_migration_fee(
        protocol_migration_base_fee,
        protocol_migration_quote_fee,
    );

    let excluded_protocol_fee_migration_base_amount =
        included_protocol_fee_migration_base_amount.safe_sub(protocol_migration_base_fee)?;
    let excluded_protocol_fee_migration_quote_amount =
        included_protocol_fee_migration_quote_amount.safe_sub(protocol_migration_quote_fee)?;

    let InitialPoolInformation {
        sqrt_price: pool_sqrt_price,
        distributable_liquidity,
        dead_liquidity,
    } = liquidity_handler.get_initial_pool_information(
        excluded_protocol_fee_migration_base_amount,
        excluded_protocol_fee_migration_quote_amount,
    )?;

    let LiquidityDistribution {
        partner: partner_liquidity_distribution,
        creator: creator_liquidity_distribution,
    } = config.get_liquidity_distribution(distributable_liquidity)?;

    let (
        first_position_liquidity_distribution,
        // we need mut to adjust second_position_liquidity_distribution later
        mut second_position_liquidity_distribution,
        first_position_owner,
        second_position_owner,
    ) = if partner_liquidity_distribution.get_total_liquidity()?
        > creator_liquidity_distribution.get_total_liquidity()?
    {
        (
            partner_liquidity_distribution,
            creator_liquidity_distribution,
            config.fee_claimer,
            virtual_pool.creator,
        )
    } else {
        (
            creator_liquidity_distribution,
            partner_liquidity_distribution,
            virtual_pool.creator,
            config.fee_claimer,
        )
    };

    // create pool
    msg!("create pool");
    ctx.accounts.create_pool(
        ctx.remaining_accounts[0].clone(),
        first_position_liquidity_distribution
            .get_total_liquidity()?
            .safe_add(dead_liquidity)?, // we add dead liquidity in first position liquidity
        pool_sqrt_price,
        const_pda::pool_authority::BUMP,
        migration_fee_option,
        migrated_collect_fee_mode,
        &config,
    )?;

    // lock lp
    if first_position_liquidity_distribution.get_total_locked_liquidity()? > 0 {
        ctx.accounts.lock_liquidity_position(
            &first_position_liquidity_distribution,
            &ctx.accounts.first_position.to_account_info(),
            &ctx.accounts.first_position_nft_account.to_account_info(),
            current_timestamp,
        )?;
    }

    msg!("transfer ownership of the first position");
    ctx.accounts.set_authority_for_position(
        &ctx.accounts.first_position_nft_account.to_account_info(),
        first_position_owner,
        const_pda::pool_authority::BUMP,
    )?;

    // reload quote reserve and base reserve
    ctx.accounts.quote_vault.reload()?;
    ctx.accounts.base_vault.reload()?;

    let deposited_base_amount =
        initial_base_vault_amount.safe_sub(ctx.accounts.base_vault.amount)?;
    let deposited_quote_amount =
        initial_quote_vault_amount.safe_sub(ctx.accounts.quote_vault.amount)?;

    let leftover_migration_base_amount =
        excluded_protocol_fee_migration_base_amount.safe_sub(deposited_base_amount)?;

    let leftover_migration_quote_amount =
        excluded_protocol_fee_migration_quote_amount.safe_sub(deposited_quote_amount)?;

    let liquidity_for_second_position = {
        let damm_pool_loader: AccountLoader<'_, damm_v2::accounts::Pool> =
            AccountLoader::try_from(ctx.accounts.pool.account_info())?;
        let damm_pool = damm_pool_loader.load()?;
        liquidity_handler.calculate_liquidity_delta(
            leftover_migration_base_amount,
            leftover_migration_quote_amount,
            damm_pool.token_a_amount,
            damm_pool.token_b_amount,
            damm_pool.liquidity,
        )?
    };

    if liquidity_for_second_position > 0 {
        second_position_liquidity_distribution.adjust_liquidity(liquidity_for_second_position)?;

        msg!("create second position");

        ctx.accounts
            .create_second_position(liquidity_for_second_position)?;

        let Some(second_position) = ctx
            .accounts
            .second_position
            .as_ref()
            .map(|acc| acc.to_account_info())
        else {
            return Err(PoolError::InvalidAccount.into());
        };

        let Some(second_position_nft_account) = ctx
            .accounts
            .second_position_nft_account
            .as_ref()
            .map(|acc| acc.to_account_info())
        else {
            return Err(PoolError::InvalidAccount.into());
        };

        if second_position_liquidity_distribution.get_total_locked_liquidity()? > 0 {
            ctx.accounts.lock_liquidity_position(
                &second_position_liquidity_distribution,
                &second_position,
                &second_position_nft_account,
                current_timestamp,
            )?;
        }

        msg!("set authority for second position");
        ctx.accounts.set_authority_for_position(
            &second_position_nft_account,
            second_position_owner,
            const_pda::pool_authority::BUMP,
        )?;
    }

    virtual_pool.update_after_create_pool();

    // burn the rest of token in pool authority after migrated amount and fee
    ctx.accounts.base_vault.reload()?;

    // check whether we should burn token
    let non_burnable_amount =
        protocol_and_partner_base_fee.safe_add(protocol_migration_base_fee)?;

    let left_base_token = ctx
        .accounts
        .base_vault
        .amount
        .safe_sub(non_burnable_amount)?;

    let burnable_amount = config.get_burnable_amount_post_migration(left_base_token)?;

    if burnable_amount > 0 {
        let seeds = pool_authority_seeds!(const_pda::pool_authority::BUMP);
        anchor_spl::token_interface::burn(
            CpiContext::new_with_signer(
                ctx.accounts.token_base_program.to_account_info(),
                anchor_spl::token_interface::Burn {
                    mint: ctx.accounts.base_mint.to_account_info(),
                    from: ctx.accounts.base_vault.to_account_info(),
                    authority: ctx.accounts.pool_authority.to_account_info(),
                },
                &[&seeds[..]],
            ),
            burnable_amount,
        )?;
    }

    virtual_pool.set_migration_progress(MigrationProgress::CreatedPool.into());

    // TODO emit event

    Ok(())
}
