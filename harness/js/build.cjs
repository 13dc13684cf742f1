// build.cjs REPO OUT: transpile the JS client (and the harness) and write, for every module,
// its ESTree (OUT/ast.json, what the symbolic interpreter executes) and a runnable copy (OUT/m*.mjs, for replays).
const fs = require('fs'), path = require('path');
const NM = '/opt/veriftools/node/node_modules/';
const ts = require(NM + 'typescript');
const acorn = require(NM + 'acorn');
const [, , repo, out] = process.argv;
const src = path.join(repo, 'js-client', 'src');
const mods = new Map(); // absolute path -> {id, ast, code}
const order = [];
const EXT = { '@solana/kit': 'kit.js', '@solana/addresses': 'kit.js', '@solana-program/token': 'token.js', buffer: 'buffer.js', 'node:buffer': 'buffer.js' };

function resolve(from, spec) {
  if (EXT[spec]) return path.join(__dirname, EXT[spec]);
  if (spec.startsWith('xorca:')) return resolve(path.join(src, 'x.ts'), './' + spec.slice(6));
  // the packages that @solana/kit re-exports
  if (spec.startsWith('@solana/')) return path.join(__dirname, 'kit.js');
  if (!spec.startsWith('.')) throw new Error(`unmodelled import ${spec} in ${from}`);
  const base = path.resolve(path.dirname(from), spec);
  for (const c of [base + '.ts', base + '.js', path.join(base, 'index.ts'), base, base.replace(/\.js$/, '.ts')]) {
    if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
  }
  throw new Error(`cannot resolve ${spec} from ${from}`);
}

function load(file) {
  if (mods.has(file)) return mods.get(file).id;
  const rec = { id: mods.size, file };
  mods.set(file, rec);
  let code = fs.readFileSync(file, 'utf8');
  if (file.endsWith('.ts')) {
    const r = ts.transpileModule(code, {
      fileName: file,
      reportDiagnostics: true,
      compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, isolatedModules: false },
    });
    const bad = (r.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
    if (bad.length) throw new Error(file + ': ' + ts.flattenDiagnosticMessageText(bad[0].messageText, '\n'));
    code = r.outputText;
  }
  const ast = acorn.parse(code, { ecmaVersion: 2022, sourceType: 'module' });
  const edits = [];
  for (const n of ast.body) {
    if (n.source) {
      const id = load(resolve(file, n.source.value));
      edits.push([n.source.start, n.source.end, JSON.stringify(`./m${id}.mjs`)]);
      n.module = id;
    }
  }
  edits.sort((a, b) => b[0] - a[0]);
  let text = code;
  for (const [s, e, t] of edits) text = text.slice(0, s) + t + text.slice(e);
  rec.ast = ast;
  rec.text = text;
  return rec.id;
}

const main = load(path.join(__dirname, 'harness.js'));
fs.mkdirSync(out, { recursive: true });
const all = [...mods.values()];
for (const m of all) fs.writeFileSync(path.join(out, `m${m.id}.mjs`), m.text);
fs.copyFileSync(path.join(__dirname, 'native.mjs'), path.join(out, 'native.mjs'));
fs.writeFileSync(
  path.join(out, 'ast.json'),
  JSON.stringify(
    { main, modules: all.map((m) => ({ id: m.id, file: path.relative(repo, m.file), ast: m.ast })) },
    (k, v) => (typeof v === 'bigint' ? { big: v.toString() } : v instanceof RegExp ? {} : v)
  )
);
