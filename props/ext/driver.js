// Runs the VS Code extension against a stand-in for the editor, real files and a stand-in for the diagram tool.
// One line of JSON in per case, one line of JSON out.
const fs = require('fs'), path = require('path'), util = require('util'), Module = require('module');
const out = require('/opt/veriftools/node/node_modules/esbuild').buildSync({ entryPoints: [process.argv[2] + '/extension.ts'], bundle: true, platform: 'node', format: 'cjs', external: ['vscode'], write: false, logLevel: 'error' });
const code = out.outputFiles[0].text, script = new (require('vm').Script)('(function(require,module,exports,setTimeout,clearTimeout,console,process){' + code + '\n})');
const cpReal = require('child_process');
const TICK = () => new Promise(r => setTimeout(r, 3));
function tool(file, place, dir) {
    fs.mkdirSync(path.dirname(file), { recursive: true });
    fs.writeFileSync(file, `#!/bin/sh\nl="${dir}/log/$(ls "${dir}/log" | wc -l).$$"\nprintf '%s\\0' "${place}" "$@" > "$l.tmp"; mv "$l.tmp" "$l"\nfor a; do :; done\nc=$(cat "$1"; echo .)\ncase "$c" in *SLOW*) sleep 0.06;; esac\ncase "$c" in *FAIL*) echo failed >&2; exit 1;; *NONE*) exit 0;; esac\nprintf '%s' "\${c%.}" > "$a.md"\n`);
    fs.chmodSync(file, 0o755);
}
async function run(c) {
    const dir = c.dir; fs.mkdirSync(dir + '/log', { recursive: true }); fs.mkdirSync(dir + '/cwd'); fs.mkdirSync(dir + '/home'); fs.mkdirSync(dir + '/tmp'); process.chdir(dir + '/cwd');
    const env = { PATH: dir + '/path:/usr/bin:/bin', HOME: dir + '/home', TMPDIR: dir + '/tmp' }; Object.assign(process.env, env);
    const places = { configured: dir + '/conf/my tool', workspace: dir + '/ws/tools/mermaid/build/cler-mermaid', path: dir + '/path/cler-mermaid', home: dir + '/home/.local/bin/cler-mermaid' };
    for (const p of c.tools) tool(places[p], p, dir);
    const cfg = { toolPath: c.configured ? places.configured : '', autoUpdate: true, updateDelay: c.delay };
    const docs = c.docs.map((d, i) => ({ fileName: dir + '/src/' + d.name, languageId: d.cpp ? 'cpp' : 'markdown', uri: { fsPath: dir + '/src/' + d.name }, isUntitled: false, getText() { return fs.readFileSync(this.fileName, 'utf8'); } }));
    docs.forEach((d, i) => { fs.mkdirSync(path.dirname(d.fileName), { recursive: true }); fs.writeFileSync(d.fileName, c.docs[i].text); });
    const seen = []; let save = [], change = [], commands = {}, active, children = 0, timers = new Set();
    const ev = l => (f => { l.push(f); return { dispose() { l.splice(l.indexOf(f), 1); } }; });
    const uri = p => ({ fsPath: p, path: p, scheme: 'file', toString: () => 'file://' + p });
    const vscode = {
        window: { get activeTextEditor() { return active; }, showWarningMessage: m => { seen.push(['warning', String(m)]); return Promise.resolve(); }, showErrorMessage: m => { seen.push(['error', String(m)]); return Promise.resolve(); }, showInformationMessage: () => Promise.resolve(), createOutputChannel: () => ({ appendLine() {}, append() {}, show() {}, dispose() {} }) },
        commands: { registerCommand: (n, f) => { commands[n] = f; return { dispose() { delete commands[n]; } }; }, executeCommand: (n, u) => { let t = null; try { t = fs.readFileSync(u.fsPath, 'utf8'); } catch (e) {} seen.push(['show', n, u.fsPath, t]); return Promise.resolve(); } },
        workspace: { onDidSaveTextDocument: ev(save), onDidChangeTextDocument: ev(change), getConfiguration: s => ({ get: (k, d) => s === 'cler' && k in cfg ? cfg[k] : d }), workspaceFolders: c.workspace ? [{ uri: uri(dir + '/ws'), name: 'ws', index: 0 }] : undefined, get textDocuments() { return docs; } },
        Uri: { file: uri, parse: s => uri(s.replace('file://', '')), joinPath: (u, ...p) => uri(path.join(u.fsPath, ...p)) }, ViewColumn: { One: 1, Two: 2, Beside: -2 }, Disposable: class { constructor(f) { this.f = f; } dispose() { this.f && this.f(); } },
        EventEmitter: class { constructor() { this.l = []; this.event = ev(this.l); } fire(x) { for (const f of this.l) f(x); } dispose() {} },
    };
    const watch = ch => { if (ch && ch.on) { ++children; let done = false; const end = () => { if (!done) { done = true; --children; } }; ch.on('close', end); ch.on('error', end); } return ch; };
    const cp = Object.assign({}, cpReal);
    for (const n of ['exec', 'execFile', 'spawn', 'fork']) { cp[n] = (...a) => watch(cpReal[n](...a)); if (cpReal[n][util.promisify.custom]) cp[n][util.promisify.custom] = (...a) => { const p = cpReal[n][util.promisify.custom](...a); watch(p.child); return p; }; }
    const st = (f, ms, ...a) => { const t = setTimeout(() => { timers.delete(t); f(...a); }, ms); timers.add(t); return t; }, ct = t => { timers.delete(t); clearTimeout(t); };
    const mod = { exports: {} }, req = n => n === 'vscode' ? vscode : /^(node:)?child_process$/.test(n) ? cp : require(n);
    script.runInThisContext()(req, mod, mod.exports, st, ct, { log() {}, error() {}, warn() {}, info() {} }, process);
    const ctx = { subscriptions: [], extensionUri: uri('/ext'), extensionPath: '/ext' }; await mod.exports.activate(ctx);
    const quiet = async () => { for (let k = 0, n = 0; k < 4; ++n) { await TICK(); k = timers.size || children ? 0 : k + 1; if (n > 6000) throw new Error('the extension does not come to rest'); } };
    const state = [];
    const snap = () => { const logs = fs.readdirSync(dir + '/log').filter(f => !f.endsWith('.tmp')).sort((a, b) => parseInt(a) - parseInt(b)).map(f => fs.readFileSync(dir + '/log/' + f, 'utf8').split('\0').slice(0, -1)); state.push({ runs: logs.length, last: logs, seen: seen.length }); };
    for (const o of c.ops) {
        const d = docs[o.doc];
        if (o.op === 'open') { active = d ? { document: d } : undefined; await commands['cler.openPreview'](); if (!o.rush) await quiet(); }
        else if (o.op === 'save') { fs.writeFileSync(d.fileName, o.text); for (const f of [...save]) f(d); }
        else if (o.op === 'change') { fs.writeFileSync(d.fileName, o.text); for (const f of [...change]) f({ document: d, contentChanges: [{}] }); }
        else if (o.op === 'wait') await new Promise(r => setTimeout(r, o.ms));
        else if (o.op === 'quiet') await quiet();
        else if (o.op === 'auto') cfg.autoUpdate = o.on;
        else if (o.op === 'deactivate') { mod.exports.deactivate && mod.exports.deactivate(); for (const x of ctx.subscriptions) x.dispose(); }
    }
    await quiet(); snap();
    const shown = {}; for (const e of seen) if (e[0] === 'show') { try { shown[e[2]] = fs.readFileSync(e[2], 'utf8'); } catch (x) { shown[e[2]] = null; } }
    const r = { seen, shown, runs: state[0].last, stray: fs.readdirSync(dir + '/cwd') };
    process.chdir('/'); fs.rmSync(dir, { recursive: true, force: true }); return r;
}
// strings travel as hex, fields separated by blanks, so that the other side needs no parser
const hex = s => s === null || s === undefined ? '-' : 'x' + Buffer.from(s, 'utf8').toString('hex');
let chain = Promise.resolve();
require('readline').createInterface({ input: process.stdin }).on('line', l => { chain = chain.then(async () => {
    let t; try { const r = await run(JSON.parse(l)); t = ['ok', r.seen.length]; for (const e of r.seen) t.push(e[0], hex(e[e[0] === 'show' ? 2 : 1]), hex(e[0] === 'show' ? e[3] : ''), hex(e[0] === 'show' ? r.shown[e[2]] : '')); t.push(r.runs.length); for (const a of r.runs) { t.push(a.length); for (const x of a) t.push(hex(x)); } t.push(r.stray.length); for (const x of r.stray) t.push(hex(x)); } catch (e) { t = ['bad', hex(String(e && e.stack || e))]; }
    process.stdout.write(t.join(' ') + '\n'); }); }).on('close', () => chain.then(() => process.exit(0)));
