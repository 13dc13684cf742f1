// The part of @solana/kit (v2/v3) the client uses, restated over the primitives __v (see native.mjs and engine/jsx.py).

// ---- codecs
function enough(what, expected, bytes, offset) {
  if (bytes.length - offset <= 0 && expected > 0) {
    throw new Error(`${what}: cannot decode empty bytes`);
  }
  if (bytes.length - offset < expected) {
    throw new Error(`${what}: not enough bytes`);
  }
}
export function createEncoder(e) {
  const bytesOf =
    e.bytesOf ??
    ((value) => {
      const b = new Uint8Array(e.fixedSize ?? e.getSizeFromValue(value));
      e.write(value, b, 0);
      return b;
    });
  const write = (value, bytes, offset) => {
    const b = bytesOf(value);
    bytes.set(b, offset);
    return offset + b.length;
  };
  return { ...e, bytesOf, write, encode: (value) => bytesOf(value) };
}
export function createDecoder(d) {
  return { ...d, decode: (bytes, offset = 0) => d.read(bytes, offset)[0] };
}
export const createCodec = (c) => ({ ...createDecoder(c), ...createEncoder(c) });
export function combineCodec(encoder, decoder) {
  return { ...decoder, ...encoder, decode: decoder.decode, encode: encoder.encode, read: decoder.read };
}
function intEncoder(name, size, min, max) {
  return createEncoder({
    fixedSize: size,
    bytesOf(value) {
      if (typeof value !== 'number' && typeof value !== 'bigint') {
        throw new Error(`${name}: not a number`);
      }
      if (value < min || value > max) {
        throw new Error(`${name}: out of range`);
      }
      return __v.intBytes(value, size);
    },
  });
}
function numDecoder(name, size, signed) {
  return createDecoder({
    fixedSize: size,
    read(bytes, offset) {
      enough(name, size, bytes, offset);
      return [__v.bytesNum(bytes.slice(offset, offset + size), signed), offset + size];
    },
  });
}
function bigDecoder(name, size, signed) {
  return createDecoder({
    fixedSize: size,
    read(bytes, offset) {
      enough(name, size, bytes, offset);
      return [__v.bytesBig(bytes.slice(offset, offset + size), signed), offset + size];
    },
  });
}
export const getU8Encoder = () => intEncoder('u8', 1, 0, 255);
export const getU8Decoder = () => numDecoder('u8', 1);
export const getU16Encoder = () => intEncoder('u16', 2, 0, 65535);
export const getU16Decoder = () => numDecoder('u16', 2);
export const getU32Encoder = () => intEncoder('u32', 4, 0, 4294967295);
export const getU32Decoder = () => numDecoder('u32', 4);
export const getU64Encoder = () => intEncoder('u64', 8, 0n, 18446744073709551615n);
export const getU64Decoder = () => bigDecoder('u64', 8, false);
export const getI64Encoder = () => intEncoder('i64', 8, -9223372036854775808n, 9223372036854775807n);
export const getI64Decoder = () => bigDecoder('i64', 8, true);
export const getU128Encoder = () => intEncoder('u128', 16, 0n, 340282366920938463463374607431768211455n);
export const getU128Decoder = () => bigDecoder('u128', 16, false);

export const getI8Encoder = () => intEncoder('i8', 1, -128, 127);
export const getI16Encoder = () => intEncoder('i16', 2, -32768, 32767);
export const getI8Decoder = () => numDecoder('i8', 1, true);
export const getI16Decoder = () => numDecoder('i16', 2, true);
export const getI32Decoder = () => numDecoder('i32', 4, true);
export const getI32Encoder = () => intEncoder('i32', 4, -2147483648, 2147483647);
export const getU8Codec = () => combineCodec(getU8Encoder(), getU8Decoder());
export const getU16Codec = () => combineCodec(getU16Encoder(), getU16Decoder());
export const getU32Codec = () => combineCodec(getU32Encoder(), getU32Decoder());
export const getU64Codec = () => combineCodec(getU64Encoder(), getU64Decoder());
export const getI8Codec = () => combineCodec(getI8Encoder(), getI8Decoder());
export const getI16Codec = () => combineCodec(getI16Encoder(), getI16Decoder());
export const getI32Codec = () => combineCodec(getI32Encoder(), getI32Decoder());
export const getI64Codec = () => combineCodec(getI64Encoder(), getI64Decoder());
export const getU128Codec = () => combineCodec(getU128Encoder(), getU128Decoder());
export const getBooleanCodec = () => combineCodec(getBooleanEncoder(), getBooleanDecoder());
export const getBytesCodec = () => combineCodec(getBytesEncoder(), getBytesDecoder());
export const getAddressCodec = () => combineCodec(getAddressEncoder(), getAddressDecoder());
export const getBase64Codec = () => combineCodec(getBase64Encoder(), getBase64Decoder());
export const getUtf8Encoder = () => createEncoder({ bytesOf: (value) => new TextEncoder().encode(value) });
export const fixCodecSize = (codec, size) => combineCodec(fixEncoderSize(codec, size), fixDecoderSize(codec, size));
export const getStructCodec = (fields) => combineCodec(getStructEncoder(fields), getStructDecoder(fields));
export const getEnumCodec = (e) => combineCodec(getEnumEncoder(e), getEnumDecoder(e));
export const getUnitCodec = () => combineCodec(getUnitEncoder(), getUnitDecoder());
export const getDiscriminatedUnionCodec = (list) => combineCodec(getDiscriminatedUnionEncoder(list), getDiscriminatedUnionDecoder(list));
export const transformCodec = (codec, unmap, map) =>
  combineCodec(transformEncoder(codec, unmap), map ? transformDecoder(codec, map) : codec);
export const getConstantEncoder = (constant) => createEncoder({ fixedSize: constant.length, bytesOf: () => constant.slice(0, constant.length) });
export function getTupleEncoder(items) {
  return createEncoder({
    fixedSize: total(items.map((c) => [0, c])),
    bytesOf: (value) => __v.concat(items.map((encoder, i) => encoder.encode(value[i]))),
  });
}
export function getTupleDecoder(items) {
  return createDecoder({
    fixedSize: total(items.map((c) => [0, c])),
    read(bytes, offset) {
      const values = [];
      let o = offset;
      for (const decoder of items) {
        const [value, end] = decoder.read(bytes, o);
        o = end;
        values.push(value);
      }
      return [values, o];
    },
  });
}
export function getArrayDecoder(item, { size }) {
  if (typeof size !== 'number') throw new Error('unmodelled: array size');
  return getTupleDecoder(Array.from({ length: size }, () => item));
}
export function getArrayEncoder(item, { size }) {
  if (typeof size !== 'number') throw new Error('unmodelled: array size');
  return getTupleEncoder(Array.from({ length: size }, () => item));
}
export const mergeBytes = (list) => __v.concat(list);

export function getBooleanEncoder() {
  const e = getU8Encoder();
  return createEncoder({ fixedSize: 1, bytesOf: (value) => e.encode(value ? 1 : 0) });
}
export function getBooleanDecoder() {
  const d = getU8Decoder();
  return createDecoder({
    fixedSize: 1,
    read(bytes, offset) {
      const [value, end] = d.read(bytes, offset);
      return [value === 1, end];
    },
  });
}
export const getBytesEncoder = () => createEncoder({ bytesOf: (value) => value.slice(0, value.length) });
export const getBytesDecoder = () =>
  createDecoder({
    read(bytes, offset) {
      const s = bytes.slice(offset, bytes.length);
      return [s, offset + s.length];
    },
  });
export function fixEncoderSize(encoder, size) {
  return createEncoder({
    fixedSize: size,
    bytesOf(value) {
      const b = encoder.encode(value);
      const r = new Uint8Array(size);
      r.set(b.length > size ? b.slice(0, size) : b, 0);
      return r;
    },
  });
}
export function fixDecoderSize(decoder, size) {
  return createDecoder({
    fixedSize: size,
    read(bytes, offset) {
      enough('fixDecoderSize', size, bytes, offset);
      const [value] = decoder.read(bytes.slice(offset, offset + size), 0);
      return [value, offset + size];
    },
  });
}
export const getAddressEncoder = () => createEncoder({ fixedSize: 32, bytesOf: (value) => __v.addressBytes(value) });
export const getAddressDecoder = () =>
  createDecoder({
    fixedSize: 32,
    read(bytes, offset) {
      enough('address', 32, bytes, offset);
      return [__v.addressOf(bytes.slice(offset, offset + 32)), offset + 32];
    },
  });
export const getBase64Encoder = () => createEncoder({ bytesOf: (value) => __v.base64Bytes(value) });
export const getBase64Decoder = () =>
  createDecoder({ read: (bytes, offset) => [__v.bytesBase64(bytes.slice(offset, bytes.length)), bytes.length] });

const total = (list) => list.reduce((n, [, c]) => (n === undefined || c.fixedSize === undefined ? undefined : n + c.fixedSize), 0);
export function getStructEncoder(fields) {
  return createEncoder({
    fixedSize: total(fields),
    bytesOf: (value) => __v.concat(fields.map(([name, encoder]) => encoder.encode(value[name]))),
  });
}
export function getStructDecoder(fields) {
  return createDecoder({
    fixedSize: total(fields),
    read(bytes, offset) {
      const struct = {};
      let o = offset;
      for (const [name, decoder] of fields) {
        const [value, end] = decoder.read(bytes, o);
        o = end;
        struct[name] = value;
      }
      return [struct, o];
    },
  });
}
export function transformEncoder(encoder, unmap) {
  return createEncoder({ fixedSize: encoder.fixedSize, bytesOf: (value) => encoder.encode(unmap(value)) });
}
export function transformDecoder(decoder, map) {
  return createDecoder({
    fixedSize: decoder.fixedSize,
    read(bytes, offset) {
      const [value, end] = decoder.read(bytes, offset);
      return [map(value), end];
    },
  });
}
// numerical enums: {A: 0, B: 1, 0: 'A', 1: 'B'}
function variants(enumeration) {
  return Object.keys(enumeration).filter((k) => typeof enumeration[k] === 'number').map((k) => [k, enumeration[k]]);
}
export function getEnumEncoder(enumeration) {
  const vs = variants(enumeration);
  const e = getU8Encoder();
  return createEncoder({
    fixedSize: 1,
    bytesOf(value) {
      for (const [name, number] of vs) {
        if (value === number || value === name) {
          return e.encode(vs.findIndex((v) => v[1] === number));
        }
      }
      throw new Error('enum: invalid variant');
    },
  });
}
export function getEnumDecoder(enumeration) {
  const vs = variants(enumeration);
  const d = getU8Decoder();
  return createDecoder({
    fixedSize: 1,
    read(bytes, offset) {
      const [value, end] = d.read(bytes, offset);
      if (value < 0 || value > vs.length - 1) {
        throw new Error('enum: discriminator out of range');
      }
      // the discriminators of the client's enums are contiguous from 0
      vs.forEach(([, number], i) => {
        if (number !== i) throw new Error('unmodelled: enum with gaps');
      });
      return [value, end];
    },
  });
}
export function getDiscriminatedUnionEncoder(list) {
  const e = getU8Encoder();
  return createEncoder({
    bytesOf(value) {
      const index = list.findIndex(([kind]) => kind === value.__kind);
      if (index < 0) {
        throw new Error('union: invalid variant');
      }
      return __v.concat([e.encode(index), list[index][1].encode(value)]);
    },
  });
}
export function getDiscriminatedUnionDecoder(list) {
  const d = getU8Decoder();
  return createDecoder({
    read(bytes, offset) {
      const [index, o] = d.read(bytes, offset);
      if (index < 0 || index > list.length - 1) {
        throw new Error('union: discriminator out of range');
      }
      const [kind, decoder] = list[index];
      const [value, end] = decoder.read(bytes, o);
      return [{ __kind: kind, ...(value ?? {}) }, end];
    },
  });
}
export function getUnitEncoder() {
  return createEncoder({ fixedSize: 0, bytesOf: () => new Uint8Array(0) });
}
export function getUnitDecoder() {
  return createDecoder({ fixedSize: 0, read: (bytes, offset) => [undefined, offset] });
}
export function containsBytes(data, bytes, offset) {
  const slice = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
  return slice.length === bytes.length && bytes.every((b, i) => b === slice[i]);
}

// ---- accounts
export const AccountRole = Object.freeze({
  READONLY: 0, WRITABLE: 1, READONLY_SIGNER: 2, WRITABLE_SIGNER: 3,
  0: 'READONLY', 1: 'WRITABLE', 2: 'READONLY_SIGNER', 3: 'WRITABLE_SIGNER',
});
export const upgradeRoleToSigner = (role) => role | 2;
export const upgradeRoleToWritable = (role) => role | 1;
export const downgradeRoleToReadonly = (role) => role & 2;
export const downgradeRoleToNonSigner = (role) => role & 1;
export const isSignerRole = (role) => role >= 2;
export const isWritableRole = (role) => (role & 1) !== 0;
export function isTransactionSigner(value) {
  return (
    ('signTransactions' in value && typeof value.signTransactions === 'function') ||
    ('modifyAndSignTransactions' in value && typeof value.modifyAndSignTransactions === 'function') ||
    ('signAndSendTransactions' in value && typeof value.signAndSendTransactions === 'function')
  );
}
export const isAddress = (value) => __v.isAddress(value);
export function address(value) {
  if (!__v.isAddress(value)) {
    throw new Error('not an address');
  }
  return value;
}
export function assertIsAddress(value) {
  address(value);
}
export function isProgramDerivedAddress(value) {
  return (
    Array.isArray(value) && value.length === 2 && typeof value[0] === 'string' && typeof value[1] === 'number' &&
    value[1] >= 0 && value[1] <= 255 && __v.isAddress(value[0])
  );
}
export async function getProgramDerivedAddress({ programAddress, seeds }) {
  if (seeds.length > 15) {
    throw new Error('too many seeds');
  }
  const list = seeds.map((s) => {
    const b = typeof s === 'string' ? new TextEncoder().encode(s) : s;
    if (b.length > 32) {
      throw new Error('seed too long');
    }
    return b;
  });
  const [bytes, bump] = __v.pda(list, __v.addressBytes(programAddress));
  return Object.freeze([__v.addressOf(bytes), bump]);
}
export function decodeAccount(encoded, decoder) {
  if ('exists' in encoded && !encoded.exists) {
    return encoded;
  }
  let data;
  try {
    data = decoder.decode(encoded.data);
  } catch (e) {
    throw new Error('failed to decode account');
  }
  return Object.freeze({ ...encoded, data });
}
function parseAccount(address, account) {
  if (!account) {
    return Object.freeze({ address, exists: false });
  }
  return Object.freeze({
    executable: account.executable,
    lamports: account.lamports,
    programAddress: account.owner,
    space: account.space,
    address,
    data: __v.base64Bytes(account.data[0]),
    exists: true,
  });
}
export async function fetchEncodedAccount(rpc, address, config = {}) {
  const response = await rpc.getAccountInfo(address, { ...config, encoding: 'base64' }).send();
  return parseAccount(address, response.value);
}
export async function fetchEncodedAccounts(rpc, addresses, config = {}) {
  const response = await rpc.getMultipleAccounts(addresses, { ...config, encoding: 'base64' }).send();
  return response.value.map((account, index) => parseAccount(addresses[index], account));
}
export function assertAccountExists(account) {
  if (!account.exists) {
    throw new Error('account not found');
  }
}
export function assertAccountsExist(accounts) {
  if (accounts.some((a) => !a.exists)) {
    throw new Error('one or more accounts not found');
  }
}

// ---- errors
export const SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM = 4615026;
export function isSolanaError(e, code) {
  const is = e instanceof Error && e.name === 'SolanaError';
  return is && (code === undefined || e.context.__code === code);
}
export function isProgramError(error, transactionMessage, programAddress, code) {
  if (!isSolanaError(error, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) {
    return false;
  }
  const p = transactionMessage.instructions[error.context.index]?.programAddress;
  if (!p || p !== programAddress) {
    return false;
  }
  return typeof code === 'undefined' || error.context.code === code;
}
