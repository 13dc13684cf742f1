//! Verification stub of the RPC client: answers come from a ledger the harness supplies, looked up
//! by address (an address the ledger does not list does not exist); the requested addresses are recorded.
pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError(pub u32);
    impl core::fmt::Display for ClientError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("rpc error")
        }
    }
    impl std::error::Error for ClientError {}
    pub type Result<T> = core::result::Result<T, ClientError>;
}

pub mod rpc_response {
    #[derive(Debug, Clone)]
    pub struct RpcResponseContext {
        pub slot: u64,
    }
    #[derive(Debug, Clone)]
    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }
    pub type RpcResult<T> = crate::client_error::Result<Response<T>>;
}

pub mod rpc_client {
    use crate::client_error::{ClientError, Result};
    use crate::rpc_response::{Response, RpcResponseContext, RpcResult};
    use solana_account::Account;
    use solana_commitment_config::CommitmentConfig;
    use solana_pubkey::Pubkey;
    use std::cell::RefCell;

    /// what one requested address resolves to
    pub struct Entry {
        pub key: Pubkey,
        pub exists: u8, // 0 missing, 1 exists, 2 the request fails
        pub owner: Pubkey,
        pub lamports: u64,
        pub data: *const u8,
        pub len: usize,
    }

    pub struct RpcClient {
        pub ledger: Vec<Entry>,
        pub asked: RefCell<Vec<Pubkey>>,
    }

    impl RpcClient {
        fn one(&self, key: &Pubkey) -> Result<Option<Account>> {
            self.asked.borrow_mut().push(*key);
            let e = match self.ledger.iter().find(|e| e.key == *key) {
                Some(e) => e,
                None => return Ok(None),
            };
            if e.exists == 2 {
                return Err(ClientError(1));
            }
            if e.exists == 0 {
                return Ok(None);
            }
            let data = unsafe { core::slice::from_raw_parts(e.data, e.len) }.to_vec();
            Ok(Some(Account { lamports: e.lamports, data, owner: e.owner, executable: false, rent_epoch: 0 }))
        }
        pub fn get_account(&self, key: &Pubkey) -> Result<Account> {
            self.one(key)?.ok_or(ClientError(2))
        }
        pub fn get_account_data(&self, key: &Pubkey) -> Result<Vec<u8>> {
            Ok(self.get_account(key)?.data)
        }
        pub fn get_account_with_commitment(&self, key: &Pubkey, _c: CommitmentConfig) -> RpcResult<Option<Account>> {
            Ok(Response { context: RpcResponseContext { slot: 0 }, value: self.one(key)? })
        }
        pub fn get_multiple_accounts(&self, keys: &[Pubkey]) -> Result<Vec<Option<Account>>> {
            // a node answers at most 100 addresses per request (MAX_MULTIPLE_ACCOUNTS)
            if keys.len() > 100 {
                return Err(ClientError(3));
            }
            let mut out = Vec::with_capacity(keys.len());
            for k in keys {
                out.push(self.one(k)?);
            }
            Ok(out)
        }
        pub fn get_multiple_accounts_with_commitment(
            &self,
            keys: &[Pubkey],
            _c: CommitmentConfig,
        ) -> RpcResult<Vec<Option<Account>>> {
            Ok(Response { context: RpcResponseContext { slot: 0 }, value: self.get_multiple_accounts(keys)? })
        }
        pub fn commitment(&self) -> CommitmentConfig {
            CommitmentConfig::confirmed()
        }
    }
}

pub mod nonblocking {}
