// Evaluates type-level programs with the real TypeScript compiler.
// node ts_eval.js REPO JOBS OUT   (JOBS: one JSON object per line, written by the explorer)
'use strict';
const fs = require('fs');
const path = require('path');
const ts = require(process.env.TS_LIB || '/opt/veriftools/node/node_modules/typescript');
const [, , REPO, JOBS, OUT] = process.argv;
const BATCH = 24;
const LIBDIR = path.dirname(ts.getDefaultLibFilePath({}));

const raw = ts.readConfigFile(REPO + '/tsconfig.json', p => fs.readFileSync(p, 'utf8'));
const conf = ts.convertCompilerOptionsFromJson((raw.config || {}).compilerOptions || {}, REPO);
const options = Object.assign({}, conf.options, {
  noEmit: true, lib: ['lib.es2020.d.ts'], types: [], incremental: false, skipLibCheck: true, allowJs: false, jsx: undefined,
});
const src = n => fs.readFileSync(REPO + '/ts/' + n + '.ts', 'utf8');
const shared = { util: src('util'), chars: src('chars'), arith: 'export type SuccTable = {};\nexport type PredTable = {};\n' };
const runtime = { lex: src('lex'), parse: src('parse') };
let shipped = { lex: src('lex_state.gen'), parse: src('parse_state2.gen') };
// The repository's own tests overwrite the checked-in lexer tables with those of other grammars: when
// the two files are not of one grammar, what is checked in counts.
{
  const kinds = m => new Set([...m.lex.matchAll(/kind:\s*("(?:[^"\\]|\\.)*")/g)].map(x => x[1]));
  const idx = m => new Set([...m.parse.slice(m.parse.indexOf('TokenKindToIdx')).split('}')[0].matchAll(/("(?:[^"\\]|\\.)*")\s*:/g)].map(x => x[1]).filter(x => x !== '"EOF"'));
  const fits = m => { const a = kinds(m), b = idx(m); return a.size === b.size && [...a].every(x => b.has(x)); };
  if (!fits(shipped)) {
    try {
      const show = f => require('child_process').execFileSync('git', ['-C', REPO, '-c', 'safe.directory=*', 'show', 'HEAD:ts/' + f], { encoding: 'utf8', stdio: ['ignore', 'pipe', 'ignore'] });
      const m = { lex: show('lex_state.gen.ts'), parse: show('parse_state2.gen.ts') };
      if (fits(m)) shipped = m;
    } catch (e) { /* not a git tree */ }
  }
}

const libCache = new Map();
function libFile(name) {
  const b = path.basename(name);
  if (!libCache.has(b)) {
    const f = path.join(LIBDIR, b);
    libCache.set(b, fs.existsSync(f) ? ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.ESNext, true) : undefined);
  }
  return libCache.get(b);
}
const sharedCache = new Map();

function toJson(c, t, depth) {
  const f = t.flags;
  if (depth > 60) return { $: 'deep' };
  if (f & ts.TypeFlags.Any) return { $: t.intrinsicName === 'error' ? 'error' : 'any' };
  if (f & ts.TypeFlags.Never) return { $: 'never' };
  if (f & ts.TypeFlags.Unknown) return { $: 'unknown' };
  if (f & ts.TypeFlags.Null) return null;
  if (f & ts.TypeFlags.Undefined) return { $: 'undefined' };
  if (f & ts.TypeFlags.StringLiteral || f & ts.TypeFlags.NumberLiteral) return t.value;
  if (f & ts.TypeFlags.BooleanLiteral) return t.intrinsicName === 'true';
  if (f & ts.TypeFlags.Union) {
    const v = t.types.map(x => toJson(c, x, depth + 1)).map(x => [JSON.stringify(x), x]);
    v.sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0));
    return { $union: v.map(x => x[1]) };
  }
  if (c.isTupleType(t)) {
    const fixed = t.target.elementFlags.every(x => x === ts.ElementFlags.Required);
    const v = c.getTypeArguments(t).map(x => toJson(c, x, depth + 1));
    return fixed ? v : { $tuple: v };
  }
  if (c.isArrayType(t)) return { $array: c.getTypeArguments(t).map(x => toJson(c, x, depth + 1)) };
  if (f & ts.TypeFlags.Object || f & ts.TypeFlags.Intersection) {
    const o = {};
    for (const p of c.getPropertiesOfType(t).slice().sort((a, b) => (a.name < b.name ? -1 : 1))) o[(p.flags & ts.SymbolFlags.Optional ? '?' : '') + p.name] = toJson(c, c.getTypeOfSymbol(p), depth + 1);
    return o;
  }
  return { $: c.typeToString(t) };
}

// key order does not matter
function canon(x) {
  if (x !== null && typeof x === 'object' && Array.isArray(x.$union)) return '{union:' + x.$union.map(canon).sort().join('|') + '}';
  if (Array.isArray(x)) return '[' + x.map(canon).join(',') + ']';
  if (x !== null && typeof x === 'object') return '{' + Object.keys(x).sort().map(k => JSON.stringify(k) + ':' + canon(x[k])).join(',') + '}';
  return JSON.stringify(x);
}
const isMsg = x => typeof x === 'string' || (x !== null && typeof x === 'object' && typeof x.$ === 'string' && x.$.startsWith('`'));
const isParseErr = x => isMsg(x) || (Array.isArray(x) && x.length > 0 && isMsg(x[0]));

function judge(kind, want, got) {
  switch (kind) {
    case 'eq': return canon(want) === canon(got);
    case 'lexerr': return isMsg(got);
    case 'parseerr': return isParseErr(got);
    case 'limit': return canon(want) === canon(got) || isParseErr(got);
    default: throw new Error('kind ' + kind);
  }
}

function message(d) {
  const m = ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 300);
  let at = '';
  if (d.file) {
    const p = d.file.getLineAndCharacterOfPosition(d.start || 0);
    at = path.basename(d.file.fileName) + ':' + (p.line + 1) + ' ' + JSON.stringify(d.file.text.slice(d.start, d.start + Math.min(d.length || 0, 60)));
  }
  return 'TS' + d.code + ' ' + m + ' (' + at + ')';
}

// parse.ts applies itself to an example sentence of the shipped tables: aliases without parameters
// that are not exported. With other tables they stand for nothing.
function inDemo(sf, d) {
  for (const s of sf.statements) {
    if (d.start >= s.pos && d.start < s.end) {
      return ts.isTypeAliasDeclaration(s) && !(s.typeParameters && s.typeParameters.length) && !(s.modifiers || []).some(m => m.kind === ts.SyntaxKind.ExportKeyword);
    }
  }
  return false;
}

const res = { cases: 0, evaluations: 0, states: 0, transitions: 0, traces: 0, nviol: 0, hist: {}, families: {}, samples: {}, violations: [] };
const hist = (k, n = 1) => { res.hist[k] = (res.hist[k] || 0) + n; };

function runBatch(jobs) {
  const files = new Map();
  const roots = [];
  jobs.forEach((j, i) => {
    const d = '/b' + i + '/';
    const gen = j.shipped ? shipped : { lex: j.lex || 'export type States = []; export type Tokens = {}; export type DFAtoNFA = {};', parse: j.parse };
    files.set(d + 'lex_state.gen.ts', gen.lex);
    files.set(d + 'lex.ts', runtime.lex);
    let head = 'import * as U from "./util";\nimport * as L from "./lex";\nimport * as C from "./chars";\n';
    if (gen.parse) {
      files.set(d + 'parse_state2.gen.ts', gen.parse);
      files.set(d + 'parse.ts', runtime.parse + '\nexport type { Parse as __Parse };\n');
      head += 'import * as P from "./parse";\nimport * as D from "./parse_state2.gen";\n';
    }
    for (const n of Object.keys(j.files || {})) {
      files.set(d + n + '.ts', j.files[n]);
      head += 'import * as ' + n + ' from "./' + n + '";\n';
    }
    files.set(d + 'main.ts', head + j.exprs.map((e, k) => 'export type R' + k + ' = ' + e[0] + ';\n').join('') + 'export type Done = [U.Succ<0>];\n');
    roots.push(d + 'main.ts');
  });
  const get = name => {
    if (name.startsWith('/shared/')) {
      const k = path.basename(name, '.ts');
      if (!sharedCache.has(k)) sharedCache.set(k, ts.createSourceFile(name, shared[k], options.target || ts.ScriptTarget.ES2020, true));
      return sharedCache.get(k);
    }
    if (files.has(name)) return ts.createSourceFile(name, files.get(name), options.target || ts.ScriptTarget.ES2020, true);
    return libFile(name);
  };
  const host = {
    getSourceFile: get,
    getDefaultLibFileName: () => '/lib/lib.es2020.d.ts',
    getDefaultLibLocation: () => '/lib',
    writeFile() {}, getCurrentDirectory: () => '/', getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true, getNewLine: () => '\n',
    fileExists: f => files.has(f), readFile: f => files.get(f), directoryExists: () => true, getDirectories: () => [],
    resolveModuleNames: (names, from) => names.map(n => {
      const b = path.basename(n);
      const m = { './util': '/shared/util.ts', './chars': '/shared/chars.ts', './arith_table.gen': '/shared/arith.ts' }[n];
      const f = m || path.dirname(from) + '/' + b + '.ts';
      return m || files.has(f) ? { resolvedFileName: f, extension: '.ts', isExternalLibraryImport: false } : undefined;
    }),
  };
  const prog = ts.createProgram(roots, options, host);
  const c = prog.getTypeChecker();
  jobs.forEach((j, i) => {
    const d = '/b' + i + '/';
    res.cases++;
    const fam = 'type level: ' + j.family;
    res.families[fam] = (res.families[fam] || 0) + 1;
    const fails = [];
    const main = prog.getSourceFile(d + 'main.ts');
    const syn = prog.getSyntacticDiagnostics(main);
    if (syn.length) { console.error('job ' + j.label + ': ' + message(syn[0])); process.exit(98); }
    const dm = prog.getSemanticDiagnostics(main);
    const diagAt = new Map();
    const aliases = main.statements.filter(s => ts.isTypeAliasDeclaration(s));
    for (const x of dm) {
      const k = aliases.findIndex(s => x.start >= s.pos && x.start < s.end);
      if (!diagAt.has(k)) diagAt.set(k, []);
      diagAt.get(k).push(message(x));
    }
    const seen = new Set();
    aliases.forEach((s, k) => {
      const e = j.exprs[k];
      if (!e) return;
      const got = toJson(c, c.getTypeAtLocation(s.name), 0);
      res.evaluations++;
      res.traces++;
      const g = JSON.stringify(got);
      if (!seen.has(g)) { seen.add(g); res.states++; }
      res.transitions++;
      hist(e[1] === 'eq' ? 'value as expected' : e[1] === 'limit' ? 'beyond the step limit' : 'error as expected');
      const dk = diagAt.get(k);
      if (dk || !judge(e[1], e[2], got)) {
        fails.push([e[3], 'type ' + e[0].slice(0, 300) + '\ngives ' + g.slice(0, 500) + '\nexpected ' + (e[1] === 'eq' || e[1] === 'limit' ? JSON.stringify(e[2]).slice(0, 500) : 'an error (' + e[1] + ')') + (dk ? '\ncompiler: ' + dk[0] : '') + '\n' + (j.text || '')]);
      }
    });
    if (j.diag) {
      for (const n of j.diag) {
        const sf = prog.getSourceFile((n[0] === '/' ? n : d + n) + '.ts');
        if (!sf) { fails.push(['module ' + n, 'is not there']); continue; }
        const ds = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)].filter(x => j.shipped || n !== 'parse' || !inDemo(sf, x));
        res.evaluations++;
        res.traces++;
        res.states++;
        res.transitions++;
        hist('modules compiled');
        if (ds.length) fails.push(['module ' + n, ds.slice(0, 3).map(message).join('\n') + '\n' + (j.text || '')]);
      }
    }
    if (!res.samples[fam]) res.samples[fam] = [];
    if (res.samples[fam].length < 1 && aliases.length > 1) res.samples[fam].push(j.label + ': ' + j.exprs.length + ' types, e.g. ' + j.exprs[0][0].slice(0, 200) + ' = ' + JSON.stringify(toJson(c, c.getTypeAtLocation(aliases[0].name), 0)).slice(0, 300));
    fails.slice(0, 5).forEach(([what, detail]) => {
      res.nviol++;
      if (res.violations.length < 200) res.violations.push({ idx: j.idx, key: j.label + ' | ' + what, detail });
    });
  });
}

let batch = [];
let weight = 0;
// What the batch in progress consists of, for the case that the compiler never returns from it
const progress = () => fs.writeFileSync(OUT + '.progress', batch.map(j => j.line).join(','));
const flush = () => {
  if (batch.length) {
    progress();
    const before = JSON.stringify(res);
    try {
      runBatch(batch);
    } catch (e) {
      // the compiler itself gave up: find the case
      Object.assign(res, JSON.parse(before));
      for (const j of batch) {
        const before1 = JSON.stringify(res);
        try {
          runBatch([j]);
        } catch (e1) {
          Object.assign(res, JSON.parse(before1));
          res.cases++;
          res.nviol++;
          res.violations.push({ idx: j.idx, key: j.label + ' | the compiler gives up', detail: String(e1 && e1.stack).slice(0, 500) + '\n' + (j.text || '') });
        }
      }
    }
  }
  batch = [];
  weight = 0;
};
// ONLY: numbers of the lines to run
const only = process.env.ONLY ? new Set(process.env.ONLY.split(',').map(Number)) : null;
let lineNo = 0;
for (const line of fs.readFileSync(JOBS, 'utf8').split('\n')) {
  lineNo++;
  if (!line) continue;
  const j = JSON.parse(line);
  if (only && j.arith === undefined && !only.has(lineNo)) continue;
  j.line = lineNo;
  if (j.arith !== undefined) {
    flush();
    shared.arith = j.arith;
    sharedCache.delete('arith');
    continue;
  }
  batch.push(j);
  weight += 1 + j.exprs.length / 60;
  if (weight >= BATCH) flush();
}
flush();
fs.writeFileSync(OUT, JSON.stringify(res));
