// What the checks run of the JS client, symbolically (engine/jsx.py) and natively (native.mjs):
// every function is (input bytes, parameter) -> [code, output bytes]; code 1: the client threw.
import * as X from 'xorca:index';

const num = (v, n = 8) => __v.intBytes(v, n);
const addr = (s) => __v.addressBytes(s);
const text = (s) => {
  const b = new TextEncoder().encode(s);
  return __v.concat([num(b.length), b]);
};
const big = (b, o, n = 8) => __v.bytesBig(b.slice(o, o + n));
const small = (b, o, n = 1) => __v.bytesNum(b.slice(o, o + n));
const key = (b, o) => __v.addressOf(b.slice(o, o + 32));
// a value must come back as the type the client declares, not only with the right amount
function bigint(v, n = 8) {
  if (typeof v !== 'bigint') throw new Error('not a bigint');
  return num(v, n);
}
function number(v, n = 1) {
  if (typeof v !== 'number') throw new Error('not a number');
  return num(v, n);
}
function bool(v) {
  if (typeof v !== 'boolean') throw new Error('not a boolean');
  return num(v ? 1 : 0, 1);
}
function caught(f) {
  try {
    return [0, __v.concat(f())];
  } catch (e) {
    return [1, new Uint8Array(0)];
  }
}
async function caughtAsync(f) {
  try {
    return [0, __v.concat(await f())];
  } catch (e) {
    return [1, new Uint8Array(0)];
  }
}

// ---- conversions: amount, unescrowed ORCA, supply
export function conv(input, which) {
  return caught(() => {
    const [a, n, s] = [big(input, 0), big(input, 8), big(input, 16)];
    return [bigint(which === 0 ? X.convertOrcaToXorca(a, n, s) : X.convertXorcaToOrca(a, n, s), 24)];
  });
}

// ---- codecs: fields in the order of the layout
const FIELDS = [
  (v) => [number(v.discriminator), v.padding1, number(v.bump), number(v.vaultBump), bigint(v.escrowedOrcaAmount),
    bigint(v.coolDownPeriodS), addr(v.updateAuthority), v.padding2],
  (v) => [number(v.discriminator), v.padding1, number(v.bump), number(v.withdrawIndex), addr(v.unstaker),
    bigint(v.withdrawableOrcaAmount), bigint(v.withdrawableTimestamp), v.padding2],
  (v) => [addr(v.mint), addr(v.owner), bigint(v.amount), number(v.delegateFlag, 4), addr(v.delegate), number(v.state),
    number(v.isNativeFlag, 4), bigint(v.nativeAmount), bigint(v.delegateAmount), number(v.closeAuthorityFlag, 4), addr(v.closeAuthority)],
  (v) => [number(v.mintAuthorityFlag, 4), addr(v.mintAuthority), bigint(v.supply), number(v.decimals), bool(v.isInitialized),
    number(v.freezeAuthorityFlag, 4), addr(v.freezeAuthority)],
];
const DECODERS = () => [X.getStateDecoder(), X.getPendingWithdrawDecoder(), X.getTokenAccountDecoder(), X.getTokenMintDecoder()];
const ENCODERS = () => [X.getStateEncoder(), X.getPendingWithdrawEncoder(), X.getTokenAccountEncoder(), X.getTokenMintEncoder()];
const CODECS = () => [X.getStateCodec(), X.getPendingWithdrawCodec(), X.getTokenAccountCodec(), X.getTokenMintCodec()];

// fields, then (length, bytes) of the re-encoding
export function account(input, kind) {
  return caught(() => {
    const v = DECODERS()[kind].decode(input);
    const e = ENCODERS()[kind].encode(v);
    return [...FIELDS[kind](v), num(e.length), e];
  });
}
export function accountCodec(input, kind) {
  return caught(() => {
    const c = CODECS()[kind];
    const v = c.decode(input);
    const e = c.encode(v);
    return [...FIELDS[kind](v), num(e.length), e];
  });
}
// decodeState and decodePendingWithdraw: of an encoded account that exists
export function accountInfo(input, kind) {
  return caught(() => {
    const a = { address: key(input, 0), exists: true, executable: false, lamports: big(input, 32), programAddress: key(input, 40),
      data: input.slice(72), space: 0n };
    const d = kind === 0 ? X.decodeState(a) : X.decodePendingWithdraw(a);
    return [addr(d.address), bigint(d.lamports), addr(d.programAddress), ...FIELDS[kind](d.data)];
  });
}
// encoding without padding gives zeroes
export function encodeDefault(input, kind) {
  return caught(() => {
    const v = DECODERS()[kind].decode(input);
    const { padding1, padding2, discriminator, ...rest } = v;
    return [ENCODERS()[kind].encode(rest)];
  });
}
export function identify(input) {
  return caught(() => {
    const k = X.identifyXorcaStakingProgramAccount(input);
    const k2 = X.identifyXorcaStakingProgramAccount({ data: input });
    const names = [X.XorcaStakingProgramAccount.State, X.XorcaStakingProgramAccount.PendingWithdraw];
    return [num(names.indexOf(k), 1), num(names.indexOf(k2), 1)];
  });
}
export function constants() {
  return caught(() => [
    num(X.getStateSize()), num(X.getPendingWithdrawSize()), num(X.STATE_DISCRIMINATOR), num(X.PENDING_WITHDRAW_DISCRIMINATOR),
    X.getStateDiscriminatorBytes(), X.getPendingWithdrawDiscriminatorBytes(),
    num(X.STAKE_DISCRIMINATOR), num(X.UNSTAKE_DISCRIMINATOR), num(X.WITHDRAW_DISCRIMINATOR), num(X.INITIALIZE_DISCRIMINATOR),
    num(X.SET_DISCRIMINATOR), X.getStakeDiscriminatorBytes(), X.getUnstakeDiscriminatorBytes(), X.getWithdrawDiscriminatorBytes(),
    X.getInitializeDiscriminatorBytes(), X.getSetDiscriminatorBytes(), addr(X.XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS),
    num(X.VIRTUAL_XORCA_SUPPLY), num(X.VIRTUAL_NON_ESCROWED_ORCA_AMOUNT),
  ]);
}

// ---- events: variant, fields, then (length, bytes) of the re-encoding
const EVENTS = ['Stake', 'Unstake', 'Withdraw', 'UpdateAuthoritySet'];
const EFIELDS = [
  (v) => [bigint(v.orcaStakeAmount), bigint(v.vaultOrcaAmount), bigint(v.vaultEscrowedOrcaAmount), bigint(v.xorcaMintSupply), bigint(v.xorcaToMint)],
  (v) => [bigint(v.xorcaUnstakeAmount), bigint(v.vaultOrcaAmount), bigint(v.vaultEscrowedOrcaAmount), bigint(v.xorcaMintSupply),
    bigint(v.withdrawableOrcaAmount), bigint(v.coolDownPeriodS), number(v.withdrawIndex)],
  (v) => [bigint(v.vaultEscrowedOrcaAmount), bigint(v.withdrawableOrcaAmount), bigint(v.coolDownPeriodS), number(v.withdrawIndex)],
  (v) => [addr(v.newAuthority), addr(v.setBy)],
];
export function event(input, viaCodec) {
  return caught(() => {
    const d = viaCodec ? X.getEventCodec() : X.getEventDecoder();
    const v = d.decode(input);
    const k = EVENTS.indexOf(v.__kind);
    for (const name of EVENTS) {
      if (X.isEvent(name, v) !== (name === v.__kind)) throw new Error('isEvent');
    }
    const { __kind, ...rest } = v;
    const e = (viaCodec ? X.getEventCodec() : X.getEventEncoder()).encode(X.event(__kind, rest));
    return [num(k), ...EFIELDS[k](v), num(e.length), e];
  });
}

// ---- instructions
const IX = [
  { get: 'getStakeInstruction', parse: 'parseStakeInstruction', accounts: ['stakerAccount', 'vaultAccount', 'stakerOrcaAta',
    'stakerXorcaAta', 'xorcaMintAccount', 'stateAccount', 'orcaMintAccount', 'tokenProgramAccount'], args: [['orcaStakeAmount', 8]] },
  { get: 'getUnstakeInstruction', parse: 'parseUnstakeInstruction', accounts: ['unstakerAccount', 'stateAccount', 'pendingWithdrawAccount',
    'unstakerXorcaAta', 'xorcaMintAccount', 'orcaMintAccount', 'vaultAccount', 'systemProgramAccount', 'tokenProgramAccount'],
    args: [['xorcaUnstakeAmount', 8], ['withdrawIndex', 1]] },
  { get: 'getWithdrawInstruction', parse: 'parseWithdrawInstruction', accounts: ['unstakerAccount', 'stateAccount', 'pendingWithdrawAccount',
    'unstakerOrcaAta', 'vaultAccount', 'orcaMintAccount', 'systemProgramAccount', 'tokenProgramAccount'], args: [['withdrawIndex', 1]] },
  { get: 'getInitializeInstruction', parse: 'parseInitializeInstruction', accounts: ['payerAccount', 'updateAuthorityAccount', 'stateAccount',
    'vaultAccount', 'xorcaMintAccount', 'orcaMintAccount', 'systemProgramAccount', 'tokenProgramAccount', 'associatedTokenProgramAccount'],
    args: [['coolDownPeriodS', -8]] },
  { get: 'getSetInstruction', parse: 'parseSetInstruction', accounts: ['updateAuthorityAccount', 'stateAccount'], args: null },
];
const SIGNERS = ['stakerAccount', 'unstakerAccount', 'payerAccount', 'updateAuthorityAccount'];
const SET = ['UpdateCoolDownPeriod', 'UpdateUpdateAuthority'];
const IDS = ['Stake', 'Unstake', 'Withdraw', 'Initialize', 'Set'];

function signer(address, mode) {
  const sign = async () => [];
  if (mode === 1) return { address, modifyAndSignTransactions: sign };
  if (mode === 2) return { address, signAndSendTransactions: sign };
  return { address, signTransactions: sign };
}
function arg(input, o, n, asNumber) {
  const v = __v.bytesBig(input.slice(o, o + (n < 0 ? -n : n)), n < 0);
  return asNumber || n === 1 ? Number(v) : v;
}
// input: 48 bytes of arguments (8 each), override program address (32), then one key per account
// param: instruction + 8 * variant + 16 * (0 default program, 1 given program) + 32 * kind of signer + 128 * (amounts as numbers)
function make(input, param) {
  const ix = IX[param & 7];
  const variant = (param >> 3) & 1;
  const given = (param >> 4) & 1;
  const asNumber = (param >> 7) & 1;
  const o = {};
  ix.accounts.forEach((name, i) => {
    const k = key(input, 80 + 32 * i);
    o[name] = SIGNERS.includes(name) ? signer(k, (param >> 5) & 3) : k;
  });
  if (ix.args) {
    ix.args.forEach(([name, n], i) => {
      o[name] = arg(input, 8 * i, n, asNumber);
    });
  } else {
    const data = variant ? { newAuthority: key(input, 8) } : { newCoolDownPeriodS: arg(input, 8, -8, asNumber) };
    o.instructionData = X.stateUpdateInstruction(SET[variant], data);
  }
  return [ix, o, given ? X[ix.get](o, { programAddress: key(input, 48) }) : X[ix.get](o)];
}
// program, accounts (address, role, signer is the one given), data
export function ix(input, param) {
  return caught(() => {
    const [ix, o, x] = make(input, param);
    const out = [addr(x.programAddress), num(x.accounts.length)];
    x.accounts.forEach((a, i) => {
      const given = o[ix.accounts[i]];
      const ok = typeof given === 'object' ? a.signer === given : a.signer === undefined;
      out.push(addr(a.address), number(a.role), bool(ok));
    });
    out.push(num(x.data.length), x.data);
    return out;
  });
}
// the client's own parser of the instruction it built
export function ixParse(input, param) {
  return caught(() => {
    const [ix, o, x] = make(input, param);
    const p = X[ix.parse](x);
    const out = [addr(p.programAddress), num(Object.keys(p.accounts).length)];
    for (const name of ix.accounts) out.push(addr(p.accounts[name].address), number(p.accounts[name].role));
    out.push(number(p.data.discriminator));
    if (ix.args) {
      for (const [name, n] of ix.args) out.push(n === 1 ? number(p.data[name], 8) : bigint(p.data[name]));
    } else {
      const d = p.data.instructionData;
      const k = SET.indexOf(d.__kind);
      for (const name of SET) {
        if (X.isStateUpdateInstruction(name, d) !== (name === d.__kind)) throw new Error('isStateUpdateInstruction');
      }
      out.push(num(k), k === 0 ? bigint(d.newCoolDownPeriodS) : addr(d.newAuthority));
    }
    const id = X.identifyXorcaStakingProgramInstruction(x);
    const id2 = X.identifyXorcaStakingProgramInstruction(x.data);
    out.push(num(IDS.findIndex((n) => X.XorcaStakingProgramInstruction[n] === id), 1));
    out.push(num(IDS.findIndex((n) => X.XorcaStakingProgramInstruction[n] === id2), 1));
    return out;
  });
}
// parsing with fewer accounts than the instruction has; param: as ix, + 256 * number of accounts kept
export function ixShort(input, param) {
  return caught(() => {
    const [ix, , x] = make(input, param & 255);
    X[ix.parse]({ ...x, accounts: x.accounts.slice(0, param >> 8) });
    return [];
  });
}
export function ixIdentify(input) {
  return caught(() => {
    const id = X.identifyXorcaStakingProgramInstruction(input);
    return [num(IDS.findIndex((n) => X.XorcaStakingProgramInstruction[n] === id), 1)];
  });
}

// ---- addresses
export function pda(input, which) {
  return caughtAsync(async () => {
    const [a, bump] =
      which === 0 ? await X.findStateAddress()
      : which === 1 ? await X.findVaultAddress(key(input, 0), key(input, 32), key(input, 64))
      : await X.findPendingWithdrawAddress(key(input, 0), small(input, 32));
    return [addr(a), number(bump)];
  });
}

// ---- errors
const PREFIX = 'XORCA_STAKING_PROGRAM_ERROR__';
// the names and codes the client exports: count, then (name, code)
export function errorNames() {
  return caught(() => {
    const names = Object.keys(X).filter((k) => k.startsWith(PREFIX));
    return [num(names.length), ...names.flatMap((k) => [text(k.slice(PREFIX.length)), number(X[k], 8)])];
  });
}
export function errorMessage(input) {
  return caught(() => {
    const m = X.getXorcaStakingProgramErrorMessage(small(input, 0, 4));
    return m === undefined ? [num(0, 1)] : [num(1, 1), text(m)];
  });
}
// input: code (4), index (1), two program addresses; param: 0 a custom program error, 1 another Solana error, 2 another
// error, 3 not an error; + 4: the code asked for is given
export function isError(input, param) {
  return caught(() => {
    const kind = param & 3;
    const code = small(input, 0, 4);
    const index = small(input, 4) & 1;
    const e = kind === 3 ? { context: { code, index, __code: 4615026 } } : new Error('x');
    if (kind < 2) {
      e.name = 'SolanaError';
      e.context = { __code: kind === 0 ? 4615026 : 4615025, index, code };
    }
    const tx = { instructions: [{ programAddress: key(input, 16) }, { programAddress: key(input, 48) }] };
    const r = param & 4 ? X.isXorcaStakingProgramError(e, tx, small(input, 8, 4)) : X.isXorcaStakingProgramError(e, tx);
    return [bool(r)];
  });
}

// ---- fetching, from a ledger
// input: staker (32), number of accounts (1), then per account: key (32), status (1: 0 missing, 1 present, 2 the request
// fails), length (2), owner (32), lamports (8), data
function ledger(input) {
  const n = small(input, 32);
  const list = [];
  let o = 33;
  for (let i = 0; i < n; i++) {
    const len = small(input, o + 33, 2);
    list.push({ key: key(input, o), status: small(input, o + 32), owner: key(input, o + 35), lamports: big(input, o + 67), data: input.slice(o + 75, o + 75 + len) });
    o += 75 + len;
  }
  const one = (address) => {
    if (typeof address !== 'string') throw new Error('not an address');
    for (const a of list) {
      if (a.key === address) {
        if (a.status === 2) throw new Error('request failed');
        return a.status === 0 ? null : a;
      }
    }
    return null;
  };
  const show = (a, encoding) =>
    a && {
      data: [encoding === 'base64' ? __v.bytesBase64(a.data) : 'another encoding', encoding],
      executable: false, lamports: a.lamports, owner: a.owner, space: 0n, rentEpoch: 0n,
    };
  const answer = (f) => ({ send: async () => ({ context: { slot: 1n }, value: f() }) });
  return {
    // the defaults of the RPC: base58 text for one account, base64 for several, at most 100
    getAccountInfo: (address, config) => answer(() => show(one(address), config?.encoding ?? 'base58')),
    getMultipleAccounts: (addresses, config) =>
      answer(() => {
        if (addresses.length > 100) throw new Error('Too many inputs provided; max 100');
        return addresses.map((a) => show(one(a), config?.encoding ?? 'base64'));
      }),
  };
}
export function fetched(input, which) {
  return caughtAsync(async () => {
    const rpc = ledger(input);
    const staker = key(input, 0);
    switch (which & 15) {
      case 0:
        return FIELDS[0](await X.fetchStateAccountData(rpc));
      case 1:
        return [bigint(await X.fetchStateAccountCoolDownPeriodS(rpc))];
      case 2: {
        const max = which >> 4;
        const l = max === 0 ? await X.fetchPendingWithdrawsForStaker(rpc, staker) : await X.fetchPendingWithdrawsForStaker(rpc, staker, max - 1);
        return [num(l.length), ...l.flatMap((v) => FIELDS[1](v))];
      }
      case 3: {
        const v = await X.fetchVaultState(rpc);
        return [addr(v.address), addr(v.owner), addr(v.mint), bigint(v.amount)];
      }
      case 4:
        return [bigint(await X.fetchXorcaMintSupply(rpc))];
      case 5: {
        const r = await X.fetchStakingExchangeRate(rpc);
        return [bigint(r.numerator), bigint(r.denominator)];
      }
      case 6:
      case 7: {
        const a = (which & 15) === 6 ? await X.fetchState(rpc, staker) : await X.fetchPendingWithdraw(rpc, staker);
        return [addr(a.address), bigint(a.lamports), addr(a.programAddress), ...FIELDS[(which & 15) - 6](a.data)];
      }
      case 8:
      case 9: {
        const a = (which & 15) === 8 ? await X.fetchMaybeState(rpc, staker) : await X.fetchMaybePendingWithdraw(rpc, staker);
        if (!a.exists) return [num(0), addr(a.address)];
        return [num(1), addr(a.address), bigint(a.lamports), addr(a.programAddress), ...FIELDS[(which & 15) - 8](a.data)];
      }
      case 10:
      case 11: {
        const l = [staker, key(input, 33)];
        const as = (which & 15) === 10 ? await X.fetchAllMaybeState(rpc, l) : await X.fetchAllMaybePendingWithdraw(rpc, l);
        return as.flatMap((a) => [num(a.exists ? 1 : 0), addr(a.address), ...(a.exists ? FIELDS[(which & 15) - 10](a.data) : [])]);
      }
      default: {
        const l = [staker, key(input, 33)];
        const as = (which & 15) === 12 ? await X.fetchAllState(rpc, l) : await X.fetchAllPendingWithdraw(rpc, l);
        return as.flatMap((a) => [addr(a.address), ...FIELDS[(which & 15) - 12](a.data)]);
      }
    }
  });
}
// the bounds of the search
export function searchLimit(input, which) {
  return caughtAsync(async () => {
    const rpc = { getMultipleAccounts: (l) => ({ send: async () => ({ value: l.map(() => null) }) }) };
    const values = [-1, 256, 0.5, 1.5, 300, -0.5, 254.999, 0, 1, 255];
    const l = await X.fetchPendingWithdrawsForStaker(rpc, key(input, 0), values[which]);
    return [num(l.length)];
  });
}
