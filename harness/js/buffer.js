// node's buffer module
const B = Buffer;
export { B as Buffer };
