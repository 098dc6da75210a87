//! A small Solana runtime: accounts, transactions, cross-program calls with the runtime's privilege rules,
//! instruction introspection, sysvars. It runs the program under test natively through its real entry point and the
//! real SPL token programs; what else it calls is modelled in mocks.rs.

use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    rent::Rent,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

use crate::abi::*;
use crate::mocks;

const SLACK: usize = 10240;
// key at 16 so that the original length is in the four bytes before it; data at 104 (8 mod 16: past an 8-byte
// discriminator, u128 fields are aligned)
const KEY: usize = 16;
const OWNER: usize = 48;
const LAMPORTS: usize = 80;
const LEN: usize = 96;
const DATA: usize = 104;

pub struct Acc {
    buf: Vec<u128>,
    pub executable: bool,
}

impl PartialEq for Acc {
    fn eq(&self, o: &Acc) -> bool {
        self.same(o)
    }
}

impl Clone for Acc {
    fn clone(&self) -> Self {
        let mut buf = vec![0u128; self.buf.len()];
        let n = (DATA + self.len() + 15) / 16;
        buf[..n].copy_from_slice(&self.buf[..n]);
        Acc { buf, executable: self.executable }
    }
}

impl Acc {
    pub fn new(key: &Pubkey, lamports: u64, owner: &Pubkey, data: &[u8]) -> Self {
        let mut a = Acc { buf: vec![0u128; (DATA + data.len() + SLACK + 15) / 16], executable: false };
        a.bytes_mut()[KEY..KEY + 32].copy_from_slice(key.as_ref());
        a.bytes_mut()[OWNER..OWNER + 32].copy_from_slice(owner.as_ref());
        a.bytes_mut()[LAMPORTS..LAMPORTS + 8].copy_from_slice(&lamports.to_le_bytes());
        a.bytes_mut()[LEN..LEN + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
        a.bytes_mut()[DATA..DATA + data.len()].copy_from_slice(data);
        a
    }
    fn bytes(&self) -> &[u8] {
        bytemuck::cast_slice(&self.buf)
    }
    fn bytes_mut(&mut self) -> &mut [u8] {
        bytemuck::cast_slice_mut(&mut self.buf)
    }
    pub fn len(&self) -> usize {
        u64::from_le_bytes(self.bytes()[LEN..LEN + 8].try_into().unwrap()) as usize
    }
    pub fn data(&self) -> &[u8] {
        &self.bytes()[DATA..DATA + self.len()]
    }
    pub fn data_mut(&mut self) -> &mut [u8] {
        let n = self.len();
        &mut self.bytes_mut()[DATA..DATA + n]
    }
    pub fn lamports(&self) -> u64 {
        u64::from_le_bytes(self.bytes()[LAMPORTS..LAMPORTS + 8].try_into().unwrap())
    }
    pub fn set_lamports(&mut self, v: u64) {
        self.bytes_mut()[LAMPORTS..LAMPORTS + 8].copy_from_slice(&v.to_le_bytes());
    }
    pub fn owner(&self) -> Pubkey {
        Pubkey::try_from(&self.bytes()[OWNER..OWNER + 32]).unwrap()
    }
    fn same(&self, o: &Acc) -> bool {
        self.lamports() == o.lamports() && self.owner() == o.owner() && self.data() == o.data()
    }
    fn info(&mut self, signer: bool, writable: bool) -> AccountInfo<'static> {
        // the buffer outlives the transaction: World keeps it and neither moves nor drops it meanwhile
        unsafe {
            let len = self.len();
            let p = self.buf.as_mut_ptr() as *mut u8;
            *(p.add(KEY - 4) as *mut u32) = len as u32;
            AccountInfo {
                key: &*(p.add(KEY) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(p.add(LAMPORTS) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(DATA), len))),
                owner: &*(p.add(OWNER) as *const Pubkey),
                rent_epoch: u64::MAX,
                is_signer: signer,
                is_writable: writable,
                executable: self.executable,
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
}

/// one executed instruction (of any depth), in order of start
#[derive(Clone, Debug)]
pub struct Call {
    pub height: usize,
    pub top: usize,
    pub program: Pubkey,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
}

#[derive(Default)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub failed_at: usize,
    pub trace: Vec<Call>,
}

impl Outcome {
    /// event payloads (after the event tag) that the program emitted
    pub fn events(&self) -> Vec<&[u8]> {
        self.trace
            .iter()
            .filter(|c| c.program == dbc_id() && c.data.len() >= 16 && c.data[..8] == EVENT_TAG)
            .map(|c| &c.data[8..])
            .collect()
    }
    pub fn events_of(&self, name: &str) -> Vec<&[u8]> {
        let d = event_disc(name);
        self.events().into_iter().filter(|e| e[..8] == d).map(|e| &e[8..]).collect()
    }
    pub fn calls_to(&self, program: &Pubkey) -> Vec<&Call> {
        self.trace.iter().filter(|c| c.program == *program && c.height > 1).collect()
    }
}

#[derive(Clone, Default)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Acc>,
    pub slot: u64,
    pub time: i64,
    pub knobs: mocks::Knobs,
    /// instructions are sent as clients of this release build them
    pub release: Option<&'static crate::released::Release>,
}

struct Frame {
    program: Pubkey,
    privileges: HashMap<Pubkey, (bool, bool)>,
}

struct Exec {
    frames: Vec<Frame>,
    trace: Vec<Call>,
    /// (top-level index, height) of executed instructions and their position in trace
    top: usize,
    slot: u64,
    time: i64,
    cpi_failed: bool,
    return_data: Option<(Pubkey, Vec<u8>)>,
    knobs: mocks::Knobs,
}

thread_local! {
    static EXEC: RefCell<Exec> = RefCell::new(Exec { frames: vec![], trace: vec![], top: 0, slot: 0, time: 0,
        cpi_failed: false, return_data: None, knobs: mocks::Knobs::default() });
}

struct Stubs;

fn rent_value() -> Rent {
    Rent::default()
}

pub fn rent_min(len: usize) -> u64 {
    rent_value().minimum_balance(len)
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        EXEC.with(|e| {
            let e = e.borrow();
            let c = Clock {
                slot: e.slot,
                epoch_start_timestamp: 0,
                epoch: e.slot / 432000,
                leader_schedule_epoch: e.slot / 432000 + 1,
                unix_timestamp: e.time,
            };
            unsafe { *(var_addr as *mut Clock) = c };
        });
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = rent_value() };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        EXEC.with(|e| e.borrow().return_data.clone())
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        EXEC.with(|e| {
            let mut e = e.borrow_mut();
            let p = e.frames.last().map(|f| f.program).unwrap_or_default();
            e.return_data = Some((p, data.to_vec()));
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        EXEC.with(|e| e.borrow().frames.len() as u64)
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        // as in the runtime: walk the trace of the transaction backwards; within a CPI stop at a top-level
        // instruction; the first match is the current instruction itself
        EXEC.with(|e| {
            let e = e.borrow();
            let height = e.frames.len();
            let mut found = 0;
            for c in e.trace.iter().rev() {
                if c.height == 1 && height > 1 {
                    break;
                }
                if c.height == height {
                    if index + 1 == found {
                        return Some(Instruction {
                            program_id: c.program,
                            accounts: c.metas.clone(),
                            data: c.data.clone(),
                        });
                    }
                    found += 1;
                }
            }
            None
        })
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let r = cpi(ix, infos, seeds);
        if r.is_err() {
            EXEC.with(|e| e.borrow_mut().cpi_failed = true);
        }
        r
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let (caller, knobs) = EXEC.with(|e| {
        let e = e.borrow();
        (e.frames.last().map(|f| f.program).unwrap_or_default(), e.knobs)
    });
    let mut pda_signers = Vec::with_capacity(seeds.len());
    for s in seeds {
        pda_signers
            .push(Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?);
    }
    let mut privileges: HashMap<Pubkey, (bool, bool)> = HashMap::new();
    EXEC.with(|e| -> ProgramResult {
        let e = e.borrow();
        let f = e.frames.last().ok_or(ProgramError::InvalidArgument)?;
        if !f.privileges.contains_key(&ix.program_id) {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        // reentrancy is limited to direct self-recursion
        let on_stack = e.frames.iter().any(|g| g.program == ix.program_id);
        if on_stack && f.program != ix.program_id {
            return Err(ProgramError::Custom(0xdead_0001));
        }
        if e.frames.len() >= 5 {
            return Err(ProgramError::Custom(0xdead_0002));
        }
        for m in &ix.accounts {
            let (s, w) = f.privileges.get(&m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !*s && !pda_signers.contains(&m.pubkey) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !*w {
                return Err(ProgramError::Custom(0xdead_0003));
            }
            let p = privileges.entry(m.pubkey).or_insert((false, false));
            p.0 |= m.is_signer;
            p.1 |= m.is_writable;
        }
        Ok(())
    })?;
    let mut callee: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let a = infos
            .iter()
            .find(|a| *a.key == m.pubkey)
            .ok_or(ProgramError::NotEnoughAccountKeys)?;
        let mut a = a.clone();
        let p = privileges[&m.pubkey];
        a.is_signer = p.0;
        a.is_writable = p.1;
        callee.push(a);
    }
    EXEC.with(|e| {
        let mut e = e.borrow_mut();
        let (height, top) = (e.frames.len() + 1, e.top);
        e.frames.push(Frame { program: ix.program_id, privileges });
        e.trace.push(Call {
            height,
            top,
            program: ix.program_id,
            metas: ix.accounts.clone(),
            data: ix.data.clone(),
        });
        e.return_data = None;
    });
    let callee: Vec<AccountInfo<'static>> = unsafe { std::mem::transmute(callee) };
    // read-only accounts must not change
    let ro: Vec<(usize, u64, Vec<u8>)> = callee
        .iter()
        .enumerate()
        .filter(|(_, a)| !a.is_writable && ix.program_id != dbc_id() && a.data_len() < 4096)
        .map(|(i, a)| (i, a.lamports(), a.data.borrow().to_vec()))
        .collect();
    let r = dispatch(&ix.program_id, &callee, &ix.data, &knobs);
    for (i, l, d) in ro {
        let bad = callee[i].lamports() != l || callee[i].data.try_borrow().map(|x| **x != d[..]).unwrap_or(false);
        if r.is_ok() && bad {
            return Err(ProgramError::Custom(0xdead_0004));
        }
    }
    EXEC.with(|e| {
        e.borrow_mut().frames.pop();
    });
    r
}

fn dispatch(
    program: &Pubkey,
    accounts: &[AccountInfo<'static>],
    data: &[u8],
    knobs: &mocks::Knobs,
) -> ProgramResult {
    if *program == dbc_id() {
        let accounts: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(accounts) };
        dynamic_bonding_curve::entry(program, accounts, data)
    } else if *program == spl_token::ID {
        spl_token::processor::Processor::process(program, accounts, data)
    } else if *program == spl_token_2022::ID {
        spl_token_2022::processor::Processor::process(program, accounts, data)
    } else {
        mocks::process(program, accounts, data, knobs)
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
}

impl World {
    pub fn new() -> Self {
        let mut w = World { accts: BTreeMap::new(), slot: 1000, time: 1_700_000_000, knobs: Default::default(), release: None };
        for p in programs() {
            let mut a = Acc::new(&p, 1, &bpf_loader(), &[]);
            a.executable = true;
            w.accts.insert(p, a);
        }
        w
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acc> {
        self.accts.get(k)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accts.get(k).map(|a| a.data()).unwrap_or(&[])
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map(|a| a.lamports()).unwrap_or(0)
    }
    pub fn put(&mut self, k: Pubkey, lamports: u64, owner: &Pubkey, data: &[u8]) {
        self.accts.insert(k, Acc::new(&k, lamports, owner, data));
    }
    /// token balance (0 if there is no such account)
    pub fn bal(&self, k: &Pubkey) -> u64 {
        let d = self.data(k);
        if d.len() < 72 {
            0
        } else {
            u64::from_le_bytes(d[64..72].try_into().unwrap())
        }
    }
    pub fn supply(&self, mint: &Pubkey) -> u64 {
        let d = self.data(mint);
        if d.len() < 44 {
            0
        } else {
            u64::from_le_bytes(d[36..44].try_into().unwrap())
        }
    }

    pub fn tx(&mut self, ixs: &[Ix]) -> Outcome {
        let Some(r) = self.release else { return self.send(ixs) };
        let ixs: Vec<Ix> = ixs.iter().map(|x| r.form(x).unwrap_or_else(|| x.clone())).collect();
        let out = self.send(&ixs);
        if out.ok {
            out.events().iter().for_each(|e| r.check_event(e));
        }
        out
    }

    fn send(&mut self, ixs: &[Ix]) -> Outcome {
        // snapshot
        let mut snapshot: BTreeMap<Pubkey, Option<Acc>> = BTreeMap::new();
        for ix in ixs {
            for m in &ix.metas {
                if !snapshot.contains_key(&m.pubkey) {
                    let old = self.accts.get(&m.pubkey).cloned();
                    if old.is_none() {
                        self.put(m.pubkey, 0, &system_id(), &[]);
                    }
                    snapshot.insert(m.pubkey, old);
                }
            }
        }
        // instructions sysvar
        let sys = instructions_sysvar();
        let uses_sysvar = snapshot.contains_key(&sys);
        if uses_sysvar {
            let d = serialize_instructions(ixs);
            let mut a = Acc::new(&sys, 1, &sysvar_owner(), &d);
            a.executable = false;
            self.accts.insert(sys, a);
        }
        EXEC.with(|e| {
            let mut e = e.borrow_mut();
            e.frames.clear();
            e.trace.clear();
            e.slot = self.slot;
            e.time = self.time;
            e.cpi_failed = false;
            e.return_data = None;
            e.knobs = self.knobs;
        });
        let mut out = Outcome::default();
        out.ok = true;
        for (i, ix) in ixs.iter().enumerate() {
            if uses_sysvar {
                let a = self.accts.get_mut(&sys).unwrap();
                let n = a.len();
                a.data_mut()[n - 2..].copy_from_slice(&(i as u16).to_le_bytes());
            }
            if let Err(e) = self.top_level(i, ix) {
                out.ok = false;
                out.err = e;
                out.failed_at = i;
                break;
            }
        }
        EXEC.with(|e| {
            let mut e = e.borrow_mut();
            out.trace = std::mem::take(&mut e.trace);
            e.frames.clear();
        });
        if out.ok {
            let mut before: u128 = 0;
            let mut after: u128 = 0;
            for (k, old) in &snapshot {
                if *k == sys {
                    continue;
                }
                let now = &self.accts[k];
                before += old.as_ref().map(|a| a.lamports()).unwrap_or(0) as u128;
                after += now.lamports() as u128;
                let l = now.lamports();
                if l > 0 && !now.executable && l < rent_min(now.len()) {
                    let was_poor = old.as_ref().map(|a| a.lamports() < rent_min(a.len()) && a.lamports() > 0).unwrap_or(false);
                    if !was_poor {
                        out.ok = false;
                        out.err = format!("InsufficientFundsForRent {}", k);
                    }
                }
            }
            if before != after {
                out.ok = false;
                out.err = "UnbalancedTransaction".into();
            }
        }
        if !out.ok {
            for (k, old) in snapshot {
                match old {
                    Some(a) => {
                        self.accts.insert(k, a);
                    }
                    None => {
                        self.accts.remove(&k);
                    }
                }
            }
        } else {
            for (k, _) in snapshot {
                if self.accts[&k].lamports() == 0 || k == sys {
                    self.accts.remove(&k);
                }
            }
        }
        out
    }

    fn top_level(&mut self, index: usize, ix: &Ix) -> Result<(), String> {
        let mut privileges: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for m in &ix.metas {
            let p = privileges.entry(m.pubkey).or_insert((false, false));
            p.0 |= m.is_signer;
            p.1 |= m.is_writable;
        }
        let mut made: HashMap<Pubkey, AccountInfo<'static>> = HashMap::new();
        let mut infos: Vec<AccountInfo<'static>> = Vec::with_capacity(ix.metas.len());
        let mut readonly: Vec<(Pubkey, Acc)> = vec![];
        for m in &ix.metas {
            if !made.contains_key(&m.pubkey) {
                let p = privileges[&m.pubkey];
                let a = self.accts.get_mut(&m.pubkey).unwrap();
                if !p.1 && !a.executable && a.len() < 4096 {
                    readonly.push((m.pubkey, a.clone()));
                }
                made.insert(m.pubkey, a.info(p.0, p.1));
            }
            infos.push(made[&m.pubkey].clone());
        }
        // the program account of a top-level instruction is part of the transaction
        privileges.entry(ix.program).or_insert((false, false));
        EXEC.with(|e| {
            let mut e = e.borrow_mut();
            e.frames.clear();
            e.frames.push(Frame { program: ix.program, privileges });
            e.top = index;
            e.return_data = None;
            e.trace.push(Call {
                height: 1,
                top: index,
                program: ix.program,
                metas: ix.metas.clone(),
                data: ix.data.clone(),
            });
        });
        let knobs = self.knobs;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            dispatch(&ix.program, &infos, &ix.data, &knobs)
        }));
        let cpi_failed = EXEC.with(|e| e.borrow().cpi_failed);
        drop(infos);
        drop(made);
        match r {
            Err(p) => {
                let s = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if s.starts_with("HARNESS") {
                    std::panic::resume_unwind(Box::new(s));
                }
                return Err(format!("panic: {s}"));
            }
            Ok(Err(e)) => return Err(format!("{e:?}")),
            Ok(Ok(())) => {}
        }
        if cpi_failed {
            return Err("a CPI failed".into());
        }
        for (k, old) in readonly {
            if !self.accts[&k].same(&old) {
                return Err(format!("ReadonlyDataModified {k}"));
            }
        }
        Ok(())
    }
}

fn serialize_instructions(ixs: &[Ix]) -> Vec<u8> {
    let mut d: Vec<u8> = vec![];
    d.extend((ixs.len() as u16).to_le_bytes());
    for _ in ixs {
        d.extend([0, 0]);
    }
    for (i, ix) in ixs.iter().enumerate() {
        let at = d.len() as u16;
        d[2 + 2 * i..4 + 2 * i].copy_from_slice(&at.to_le_bytes());
        d.extend((ix.metas.len() as u16).to_le_bytes());
        for m in &ix.metas {
            d.push(m.is_signer as u8 | (m.is_writable as u8) << 1);
            d.extend(m.pubkey.as_ref());
        }
        d.extend(ix.program.as_ref());
        d.extend((ix.data.len() as u16).to_le_bytes());
        d.extend(&ix.data);
    }
    d.extend([0, 0]);
    d
}
