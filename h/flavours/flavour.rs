//! One flavour of the SDK behind a C interface: the same source for every flavour.
use ephemeral_vrf_sdk as sdk;
use sdk::Pubkey;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> usize {
        u32::from_le_bytes(self.take(4).try_into().unwrap()) as usize
    }
    fn b32(&mut self) -> [u8; 32] {
        self.take(32).try_into().unwrap()
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32();
        self.take(n).to_vec()
    }
    fn key(&mut self) -> Pubkey {
        Pubkey::new_from_array(self.b32())
    }
}
fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
}
fn put_ix(o: &mut Vec<u8>, ix: &sdk::compat::Instruction) {
    o.extend(ix.program_id.to_bytes());
    o.extend((ix.accounts.len() as u32).to_le_bytes());
    for a in &ix.accounts {
        o.extend(a.pubkey.to_bytes());
        o.push(a.is_signer as u8);
        o.push(a.is_writable as u8);
    }
    put_bytes(o, &ix.data);
}
fn handle(inp: &[u8]) -> Vec<u8> {
    let mut r = Rd(inp);
    let mut o = vec![];
    match r.u8() {
        // request instruction
        1 => {
            let regular = r.u8() == 1;
            let payer = r.key();
            let oracle_queue = r.key();
            let callback_program_id = r.key();
            let callback_discriminator = r.bytes();
            let accounts_metas = (r.u8() == 1).then(|| {
                let n = r.u32();
                (0..n)
                    .map(|_| sdk::types::SerializableAccountMeta { pubkey: r.key(), is_signer: r.u8() == 1, is_writable: r.u8() == 1 })
                    .collect()
            });
            let caller_seed = r.b32();
            let callback_args = (r.u8() == 1).then(|| r.bytes());
            let p = sdk::instructions::RequestRandomnessParams { payer, oracle_queue, callback_program_id, callback_discriminator, accounts_metas, caller_seed, callback_args };
            let ix = if regular { sdk::instructions::create_request_regular_randomness_ix(p) } else { sdk::instructions::create_request_randomness_ix(p) };
            put_ix(&mut o, &ix);
        }
        // constants
        2 => {
            for k in [sdk::consts::VRF_PROGRAM_ID, sdk::consts::DEFAULT_QUEUE, sdk::consts::DEFAULT_EPHEMERAL_QUEUE, sdk::consts::VRF_PROGRAM_IDENTITY, sdk::compat::slot_hashes::ID, sdk::id(), anchor_id()] {
                o.extend(k.to_bytes());
            }
            put_bytes(&mut o, sdk::consts::IDENTITY);
        }
        // delegation addresses of (account, program, index)
        3 => {
            let (a, p, i) = (r.key(), r.key(), r.u8());
            use sdk::pda::*;
            for k in [
                delegation_record_pda_from_delegated_account(&a),
                delegation_metadata_pda_from_delegated_account(&a),
                commit_state_pda_from_delegated_account(&a),
                commit_record_pda_from_delegated_account(&a),
                delegate_buffer_pda_from_delegated_account_and_owner_program(&a, &p),
                undelegate_buffer_pda_from_delegated_account(&a),
                fees_vault_pda(),
                validator_fees_vault_pda_from_validator(&a),
                program_config_from_program_id(&a),
                ephemeral_balance_pda_from_payer(&a, i),
            ] {
                o.extend(k.to_bytes());
            }
        }
        // helpers
        4 => {
            let b = r.b32();
            o.push(sdk::rnd::random_u8(&b));
            o.extend(sdk::rnd::random_u32(&b).to_le_bytes());
            o.extend(sdk::rnd::random_i32(&b).to_le_bytes());
            o.extend(sdk::rnd::random_u64(&b).to_le_bytes());
            o.extend(sdk::rnd::random_i64(&b).to_le_bytes());
            o.push(sdk::rnd::random_bool(&b) as u8);
        }
        5 => {
            let b = r.b32();
            let (lo, hi) = (r.u8(), r.u8());
            o.push(sdk::rnd::random_u8_with_range(&b, lo, hi));
        }
        _ => panic!("unknown call"),
    }
    o
}
#[cfg(feature = "with-anchor")]
fn anchor_id() -> Pubkey {
    #[cfg(feature = "compat")]
    use anchor_lang_compat as anchor_lang;
    #[cfg(not(feature = "compat"))]
    use anchor_lang_current as anchor_lang;
    use anchor_lang::Id;
    Pubkey::new_from_array(sdk::anchor::VrfProgram::id().to_bytes())
}
#[cfg(not(feature = "with-anchor"))]
fn anchor_id() -> Pubkey {
    sdk::id()
}

/// # Safety
/// `inp` and `out` are valid for their lengths.
#[no_mangle]
pub unsafe extern "C" fn flavour_call(inp: *const u8, n: usize, out: *mut u8, cap: usize) -> i64 {
    let inp = std::slice::from_raw_parts(inp, n).to_vec();
    std::panic::set_hook(Box::new(|_| {}));
    match catch_unwind(AssertUnwindSafe(|| handle(&inp))) {
        Ok(o) if o.len() <= cap => {
            std::ptr::copy_nonoverlapping(o.as_ptr(), out, o.len());
            o.len() as i64
        }
        Ok(_) => -2,
        Err(_) => -1,
    }
}
