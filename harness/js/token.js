// What the client uses of @solana-program/token: the SPL token layouts.
import {
  getAddressDecoder, getEnumDecoder, getStructDecoder, getU64Decoder, getU8Decoder, getBooleanDecoder, getU32Decoder,
  createDecoder, decodeAccount, fetchEncodedAccount, assertAccountExists, getProgramDerivedAddress, getAddressEncoder,
} from '@solana/kit';

const AccountState = { Uninitialized: 0, Initialized: 1, Frozen: 2, 0: 'Uninitialized', 1: 'Initialized', 2: 'Frozen' };

// option with a 4-byte prefix and zeroes for none
function option(item) {
  const prefix = getU32Decoder();
  return createDecoder({
    fixedSize: 4 + item.fixedSize,
    read(bytes, offset) {
      const [flag, o] = prefix.read(bytes, offset);
      const [value, end] = item.read(bytes, o);
      if (flag !== 0 && flag !== 1) {
        throw new Error('invalid option prefix');
      }
      return [flag === 1 ? { __option: 'Some', value } : { __option: 'None' }, end];
    },
  });
}

export function getTokenDecoder() {
  return getStructDecoder([
    ['mint', getAddressDecoder()],
    ['owner', getAddressDecoder()],
    ['amount', getU64Decoder()],
    ['delegate', option(getAddressDecoder())],
    ['state', getEnumDecoder(AccountState)],
    ['isNative', option(getU64Decoder())],
    ['delegatedAmount', getU64Decoder()],
    ['closeAuthority', option(getAddressDecoder())],
  ]);
}

export function getMintDecoder() {
  return getStructDecoder([
    ['mintAuthority', option(getAddressDecoder())],
    ['supply', getU64Decoder()],
    ['decimals', getU8Decoder()],
    ['isInitialized', getBooleanDecoder()],
    ['freezeAuthority', option(getAddressDecoder())],
  ]);
}

export const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
export const getTokenSize = () => 165;
export const getMintSize = () => 82;
export const decodeToken = (account) => decodeAccount(account, getTokenDecoder());
export const decodeMint = (account) => decodeAccount(account, getMintDecoder());
export const fetchMaybeToken = async (rpc, address, config) => decodeToken(await fetchEncodedAccount(rpc, address, config));
export const fetchMaybeMint = async (rpc, address, config) => decodeMint(await fetchEncodedAccount(rpc, address, config));
export async function fetchToken(rpc, address, config) {
  const account = await fetchMaybeToken(rpc, address, config);
  assertAccountExists(account);
  return account;
}
export async function fetchMint(rpc, address, config) {
  const account = await fetchMaybeMint(rpc, address, config);
  assertAccountExists(account);
  return account;
}
export async function findAssociatedTokenPda(seeds, config = {}) {
  const e = getAddressEncoder();
  return getProgramDerivedAddress({
    programAddress: config.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
    seeds: [e.encode(seeds.owner), e.encode(seeds.tokenProgram), e.encode(seeds.mint)],
  });
}
