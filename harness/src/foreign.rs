//! What the programs that are called on graduation ask of the accounts they are handed, whatever they do with them: the ones that must
//! sign, the ones that must be writable, the fixed addresses and the derived ones. Written from the published interfaces of DAMM v1,
//! DAMM v2 and the lock program. The vaults of DAMM v1 are derived from their mint alone here.

use crate::abi::*;
use anchor_lang::prelude::{AccountInfo, Pubkey};
use anchor_lang::solana_program::{entrypoint::ProgramResult, program_error::ProgramError};

#[derive(Clone, Copy)]
enum Is {
    /// a named address
    The(Pubkey),
    /// the program itself
    Me,
    /// derived from words and other accounts of the list ("@7")
    Of(&'static [&'static str]),
    /// the same, from the vault program
    Vault(&'static [&'static str]),
    /// the associated account of (owner, mint, token program)
    Ata(usize, usize, usize),
    /// the metadata account of a mint
    Meta(usize),
}
use Is::*;

const V2_AUTHORITY: Pubkey = anchor_lang::prelude::pubkey!("HLnpSz9h2S4hiLQ43rnSD9XkcUThA7B8hQMKmDaiTLcC");
const T22: Pubkey = anchor_lang::prelude::pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);
const EVENTS: &[&str] = &["__event_authority"];

struct Rule {
    disc: [u8; 8],
    /// one letter for each account: s signs, w writable, b both, - neither
    flags: &'static str,
    known: &'static [(usize, Is)],
}

fn rules(program: &Pubkey) -> Vec<Rule> {
    if *program == DAMM_V2 {
        vec![
            // add_liquidity
            Rule { disc: [181, 157, 89, 67, 143, 182, 52, 72], flags: "wwwwww---s----", known: &[(12, Of(EVENTS)), (13, Me)] },
            // create_position
            Rule {
                disc: [48, 215, 197, 153, 96, 203, 180, 133],
                flags: "-bwww-b----",
                known: &[
                    (2, Of(&["position_nft_account", "@1"])),
                    (4, Of(&["position", "@1"])),
                    (5, The(V2_AUTHORITY)),
                    (7, The(T22)),
                    (8, The(SYSTEM)),
                    (9, Of(EVENTS)),
                    (10, Me),
                ],
            },
            // initialize_pool
            Rule {
                disc: [95, 180, 10, 172, 84, 174, 232, 40],
                flags: "-bwb--ww--wwww------",
                known: &[
                    (2, Of(&["position_nft_account", "@1"])),
                    (5, The(V2_AUTHORITY)),
                    (7, Of(&["position", "@1"])),
                    (10, Of(&["token_vault", "@8", "@6"])),
                    (11, Of(&["token_vault", "@9", "@6"])),
                    (16, The(T22)),
                    (17, The(SYSTEM)),
                    (18, Of(EVENTS)),
                    (19, Me),
                ],
            },
            // initialize_pool_with_dynamic_config
            Rule {
                disc: [149, 82, 72, 197, 253, 252, 68, 15],
                flags: "-bwbs--ww--wwww------",
                known: &[
                    (2, Of(&["position_nft_account", "@1"])),
                    (6, The(V2_AUTHORITY)),
                    (8, Of(&["position", "@1"])),
                    (11, Of(&["token_vault", "@9", "@7"])),
                    (12, Of(&["token_vault", "@10", "@7"])),
                    (17, The(T22)),
                    (18, The(SYSTEM)),
                    (19, Of(EVENTS)),
                    (20, Me),
                ],
            },
            // lock_inner_position
            Rule { disc: [72, 19, 49, 204, 18, 122, 23, 90], flags: "-w-s--", known: &[(4, Of(EVENTS)), (5, Me)] },
            // permanent_lock_position
            Rule { disc: [165, 176, 125, 6, 231, 171, 186, 213], flags: "ww-s--", known: &[(4, Of(EVENTS)), (5, Me)] },
        ]
    } else if *program == DAMM_V1 {
        vec![
            // initialize_permissionless_constant_product_pool_with_config2
            Rule {
                disc: [48, 149, 220, 130, 61, 11, 9, 178],
                flags: "w-w--wwwwwwwwwwwwwb-w-----",
                known: &[
                    (2, Of(&["lp_mint", "@0"])),
                    (5, Vault(&["vault", "@3"])),
                    (6, Vault(&["vault", "@4"])),
                    (7, Vault(&["token_vault", "@5"])),
                    (8, Vault(&["token_vault", "@6"])),
                    (9, Vault(&["lp_mint", "@5"])),
                    (10, Vault(&["lp_mint", "@6"])),
                    (11, Of(&["@5", "@0"])),
                    (12, Of(&["@6", "@0"])),
                    (15, Ata(18, 2, 23)),
                    (16, Of(&["fee", "@3", "@0"])),
                    (17, Of(&["fee", "@4", "@0"])),
                    (19, The(RENT_SYSVAR)),
                    (20, Meta(2)),
                    (21, The(METAPLEX)),
                    (22, The(VAULT_PROGRAM)),
                    (23, The(spl_token::ID)),
                    (24, The(ATA_PROGRAM)),
                    (25, The(SYSTEM)),
                ],
            },
            // lock
            Rule {
                disc: [21, 19, 208, 43, 237, 62, 255, 87],
                flags: "w-wbww-------",
                known: &[
                    (1, Of(&["lp_mint", "@0"])),
                    (5, Ata(2, 1, 6)),
                    (6, The(spl_token::ID)),
                    (9, Of(&["@7", "@0"])),
                    (10, Of(&["@8", "@0"])),
                    (11, Vault(&["lp_mint", "@7"])),
                    (12, Vault(&["lp_mint", "@8"])),
                ],
            },
        ]
    } else if *program == LOCKER {
        // create_vesting_escrow_v2
        vec![Rule {
            disc: [181, 155, 104, 183, 182, 128, 35, 47],
            flags: "bw-wbw-----",
            known: &[(1, Of(&["escrow", "@0"])), (3, Ata(1, 2, 7)), (8, The(SYSTEM)), (9, Of(EVENTS)), (10, Me)],
        }]
    } else {
        vec![]
    }
}

fn derived(seeds: &[&str], a: &[AccountInfo<'static>], program: &Pubkey) -> Pubkey {
    let v: Vec<Vec<u8>> = seeds
        .iter()
        .map(|s| match s.strip_prefix('@') {
            Some(i) => a[i.parse::<usize>().unwrap()].key.to_bytes().to_vec(),
            None => s.as_bytes().to_vec(),
        })
        .collect();
    pda(&v.iter().map(|x| x.as_slice()).collect::<Vec<_>>(), program)
}

pub fn check(program: &Pubkey, a: &[AccountInfo<'static>], d: &[u8]) -> ProgramResult {
    let bad = |i: usize, what: u32| Err(ProgramError::Custom(0xf000 + what * 0x100 + i as u32));
    let rules = rules(program);
    if rules.is_empty() {
        return Ok(());
    }
    let Some(x) = d.get(..8).and_then(|d| rules.iter().find(|x| x.disc == *d)) else { return bad(0, 0) };
    if a.len() < x.flags.len() {
        return bad(a.len(), 1);
    }
    for (i, f) in x.flags.bytes().enumerate() {
        if matches!(f, b's' | b'b') && !a[i].is_signer {
            return bad(i, 2);
        }
        if matches!(f, b'w' | b'b') && !a[i].is_writable {
            return bad(i, 3);
        }
    }
    for (i, k) in x.known {
        let want = match *k {
            The(k) => k,
            Me => *program,
            Of(s) => derived(s, a, program),
            Vault(s) => derived(s, a, &VAULT_PROGRAM),
            Ata(o, m, p) => ata(a[o].key, a[m].key, a[p].key),
            Meta(m) => metadata_address(a[m].key),
        };
        if *a[*i].key != want {
            return bad(*i, 4);
        }
    }
    Ok(())
}
