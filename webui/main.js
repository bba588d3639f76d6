// C25: explores the web page: the scripts of web/src/ts run in a small browser whose events all
// come from here. Two explorations: the graph of states, to its end, and every sequence of coarser
// events up to a length.
'use strict';
const fs = require('fs');
const path = require('path');
const { spawnSync } = require('child_process');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const { Page, Ev, File_, Blob_, DataTransfer_, fileList } = require('./browser.js');

const WEB = '/repo/web';
const verif = process.env.MC_VERIF;
const res = n => fs.readFileSync(`/repo/packages/optivorbis/resources/test/${n}.ogg`);

// --- Files, and what the library makes of them ---

const known = new Map();
function optimize(data) {
  const b = Buffer.from(data.buffer, data.byteOffset, data.byteLength);
  const key = b.toString('latin1');
  if (!known.has(key)) {
    const head = Buffer.alloc(9);
    head.write('n');
    head.writeBigUInt64LE(BigInt(b.length), 1);
    const env = { ...process.env, SOURCE_DATE_EPOCH: '1' };
    const a = spawnSync(process.env.MC_WEBAPI, { input: Buffer.concat([head, b]), env, maxBuffer: 1 << 28 }).stdout;
    known.set(key, { status: String.fromCharCode(a[0]), data: a.subarray(9) });
  }
  const r = known.get(key);
  // What wasm-bindgen makes of results, error messages and panics
  if (r.status === 'o') return Uint8Array.from(r.data);
  if (r.status === 'e') throw r.data.toString();
  throw new Error('unreachable');
}

const crcTable = [...Array(256).keys()].map(i => {
  let r = i << 24;
  for (let k = 0; k < 8; k += 1) r = r < 0 ? (r << 1) ^ 0x04c11db7 : r << 1;
  return r;
});
/** The same stream, with another character in the vendor string */
function retitled(data) {
  const d = Buffer.from(data);
  // The second page
  const at = d.indexOf('OggS', 4);
  const vendor = d.indexOf('\x03vorbis', at, 'latin1') + 11;
  d[vendor] ^= 1;
  const lacing = d.subarray(at + 27, at + 27 + d[at + 26]);
  const end = at + 27 + lacing.length + lacing.reduce((x, y) => x + y, 0);
  d.writeUInt32LE(0, at + 22);
  const crc = d.subarray(at, end).reduce((c, b) => (c << 8) ^ crcTable[((c >>> 24) & 255) ^ b], 0);
  d.writeUInt32LE(crc >>> 0, at + 22);
  return d;
}

const first = res('8khz_500ms_mono_400hz_sine_wave');
const second = res('8khz_500ms_mono_400hz_sine_wave_comments');
const FILES = {
  a: new File_([first], 'a.ogg', { type: 'audio/ogg' }),
  b: new File_([second], 'b & c.oga', { type: 'video/ogg' }),
  bad: new File_([first.subarray(0, 100)], 'bad.ogg', { type: 'application/ogg' }),
  text: new File_(['text'], 'notes.txt', { type: 'text/plain' }),
  // Like a, with other contents
  twin: new File_([retitled(first)], 'a.ogg', { type: 'audio/ogg' }),
  gone: new File_([first], 'gone.ogg', { type: 'audio/ogg' }),
};
FILES.gone.unreadable = Object.assign(new Error('The file could not be read'), { name: 'NotReadableError' });

/** What has to be shown for a file in the end */
const RESULT = {};
for (const [k, f] of Object.entries(FILES)) {
  if (f.unreadable) {
    RESULT[k] = { error: String(f.unreadable) };
    continue;
  }
  try {
    RESULT[k] = { data: Buffer.from(optimize(f.bytes)) };
  } catch (e) {
    RESULT[k] = { error: String(e) };
  }
}

if (RESULT.a.data && RESULT.twin.data && RESULT.a.data.equals(RESULT.twin.data)) throw new Error('twin is a');

const DRAGS = { a: ['a'], b: ['b'], bad: ['bad'], text: ['text'], mixed: ['text', 'b', 'a'] };
const oggOf = drag => DRAGS[drag].find(k => /ogg/.test(FILES[k].type));

// --- A run of the page, and of what it ought to do ---

class Run {
  constructor() {
    this.page = new Page(WEB, optimize);
    // idle, busy or done
    this.phase = 'idle';
    this.file = null;
    this.message = null;
    this.drag = null;
    this.issues = [];
    this.start = [...this.page.el('file-input-label').classList].sort().join(' ');
    this.check();
  }
  bad(m) {
    this.issues.push(m);
  }
  get worker() {
    return this.page.workers.findLast(w => !w.dead);
  }
  /** Whether the user could click here, or drop something */
  reachable(id) {
    return this.page.el(id).visible && !this.page.el(id).disabled && !this.page.el('file-error-modal').visible;
  }
  enabled() {
    const p = this.page;
    const e = [];
    const worker = this.worker;
    if (worker.inbox.length) e.push('work', 'crash');
    if (worker.outbox.length) e.push('answer', 'garble');
    if (p.dialog) {
      return [...e, 'cancel', 'pick a', 'pick b', 'pick bad', 'pick gone', 'pick twin'];
    }
    if (this.drag) {
      return [...e, 'drop', 'leave', this.drag.on === 'file-input-label' ? 'move file-input-button' : 'move file-input-label', 'over'];
    }
    if (p.el('file-error-modal').visible) {
      return [...e, 'close'];
    }
    if (this.reachable('file-input-button')) {
      e.push('open file-input-button', 'open file-input-label');
      for (const d of Object.keys(DRAGS)) e.push(`drag ${d} file-input-label`, `drag ${d} file-input-button`);
    }
    if (this.reachable('output-file-download')) e.push('download');
    if (this.reachable('output-file-back')) e.push('back');
    if (this.reachable('output-file-preview') && p.el('output-file-preview').paused) e.push('play');
    return e;
  }
  /** Coarser events, which are made of those above */
  coarse() {
    const e = this.enabled();
    const c = [];
    if (e.includes('work')) c.push(['work', 'answer'], ['crash'], ['work', 'garble']);
    else if (e.includes('answer')) c.push(['answer']);
    for (const [i, x] of e.entries()) {
      if (x === 'open file-input-button') for (const f of ['a', 'b', 'bad', 'gone', 'twin']) c.push([x, 'pick ' + f]);
      if (/^drag (b \S+|mixed file-input-label|text file-input-button)$/.test(x)) c.push([x, 'drop']);
      if (['download', 'back', 'play', 'close'].includes(x)) c.push([x]);
    }
    return c;
  }
  dragEvent(type, on) {
    const dt = this.drag.dt;
    dt.secret = type !== 'drop';
    dt.dropEffect = 'none';
    return this.page.emit(this.page.el(on), new Ev(type, { bubbles: true, cancelable: type !== 'dragleave', dataTransfer: dt, isTrusted: true }));
  }
  async step(name) {
    const p = this.page;
    const [kind, x, y] = name.split(' ');
    const worker = this.worker;
    const click = id => {
      const e = p.el(id);
      e.click();
      // A click on a label, but not on a button within it, is also one on its control
      if (id === 'file-input-label') p.el('file-input').click();
    };
    switch (kind) {
      case 'open':
        click(x);
        if (!p.dialog) this.bad('no file can be chosen');
        break;
      case 'cancel':
        p.dialog = false;
        p.emit(p.el('file-input'), new Ev('cancel', { bubbles: true }));
        break;
      case 'pick': {
        p.dialog = false;
        const i = p.el('file-input');
        const same = i.files.length === 1 && i.files[0] === FILES[x];
        i.files = fileList([FILES[x]]);
        if (!same) {
          p.emit(i, new Ev('input', { bubbles: true }));
          p.emit(i, new Ev('change', { bubbles: true }));
        }
        this.phase = 'busy';
        this.file = x;
        break;
      }
      case 'drag':
        this.drag = { what: x, on: y, dt: new DataTransfer_(), accepted: false };
        DRAGS[x].forEach(k => this.drag.dt.items.add(FILES[k]));
        this.dragEvent('dragenter', y);
        this.over();
        break;
      case 'over':
        this.over();
        break;
      case 'move':
        this.dragEvent('dragenter', x);
        this.dragEvent('dragleave', this.drag.on);
        this.drag.on = x;
        this.over();
        break;
      case 'leave':
        this.dragEvent('dragleave', this.drag.on);
        this.drag = null;
        break;
      case 'drop': {
        const d = this.drag;
        const f = oggOf(d.what);
        if (d.accepted) {
          const ev = this.dragEvent('drop', d.on);
          if (!f) this.bad('something that is not a file to optimize can be dropped');
          else {
            if (!ev.defaultPrevented) this.bad('the browser leaves the page for the dropped file');
            this.phase = 'busy';
            this.file = f;
          }
        } else {
          this.dragEvent('dragleave', d.on);
        }
        this.drag = null;
        break;
      }
      case 'work': {
        const data = worker.inbox.shift();
        const ev = p.emit(worker.self, new Ev('message', { data }));
        void ev;
        break;
      }
      case 'crash':
        worker.inbox.shift();
        p.emit(worker, new Ev('error', { cancelable: true, message: 'crash' }));
        this.phase = 'idle';
        break;
      case 'garble':
        worker.outbox.shift();
        p.emit(worker, new Ev('messageerror', { data: null }));
        this.phase = 'idle';
        break;
      case 'answer': {
        p.emit(worker, new Ev('message', { data: worker.outbox.shift() }));
        const r = RESULT[this.file];
        this.phase = r?.data ? 'done' : 'idle';
        this.message = r?.error ?? null;
        break;
      }
      case 'download': {
        p.downloads = [];
        click('output-file-download');
        const d = p.downloads;
        if (d.length !== 1) this.bad(`${d.length} downloads`);
        else {
          if (d[0].name !== FILES[this.file]?.name) this.bad(`the download is named ${JSON.stringify(d[0].name)}`);
          this.same(d[0].href, 'downloaded');
        }
        break;
      }
      case 'back':
        click('output-file-back');
        this.phase = 'idle';
        break;
      case 'play':
        p.el('output-file-preview').paused = false;
        break;
      case 'close':
        click('file-error-modal-close');
        this.message = null;
        break;
      default:
        throw new Error(name);
    }
    await p.settle();
    this.check();
  }
  over() {
    const ev = this.dragEvent('dragover', this.drag.on);
    const want = !!oggOf(this.drag.what);
    this.drag.accepted = ev.defaultPrevented;
    if (ev.defaultPrevented !== want) this.bad(`dragging ${this.drag.what} here is ${want ? 'not ' : ''}accepted`);
    if (want && this.drag.dt.dropEffect !== 'copy') this.bad(`the drop effect is ${this.drag.dt.dropEffect}`);
    if (this.highlit !== want) this.bad(`the drop zone is ${want ? 'not ' : ''}highlighted`);
  }
  get highlit() {
    return [...this.page.el('file-input-label').classList].sort().join(' ') !== this.start;
  }
  same(url, how) {
    const b = this.page.urls.get(url);
    const want = RESULT[this.file]?.data;
    if (!b) this.bad(`what is ${how} was revoked`);
    else if (!(b instanceof Blob_) || !want || !b.bytes.equals(want)) this.bad(`what is ${how} is not ${this.file} optimized`);
    else if (b.type !== 'audio/ogg') this.bad(`what is ${how} is of type ${b.type}`);
  }
  check() {
    const p = this.page;
    const vis = id => p.el(id).visible;
    const want = { 'file-input-section': this.phase === 'idle', 'file-process-text': this.phase === 'busy', 'output-file-section': this.phase === 'done', 'file-error-modal': this.message !== null };
    for (const [id, w] of Object.entries(want)) if (vis(id) !== w) this.bad(`${id} is ${w ? 'not ' : ''}shown when ${this.phase}`);
    if (p.el('optivorbis-logo').classList.contains('animate-pulse') !== (this.phase === 'busy')) this.bad(`the logo is ${this.phase === 'busy' ? 'still' : 'pulsing'} when ${this.phase}`);
    const jobs = p.workers.reduce((n, w) => n + w.inbox.length + w.outbox.length, 0);
    if (jobs !== +(this.phase === 'busy')) this.bad(`the worker has ${jobs} things to do when ${this.phase}`);
    if (this.message !== null && p.el('file-error-modal-message').innerText !== this.message) {
      this.bad(`the message is ${JSON.stringify(p.el('file-error-modal-message').innerText)} instead of ${JSON.stringify(this.message)}`);
    }
    // Whatever is shown can be used
    if (this.message === null) {
      const use = { idle: ['file-input-button', 'file-input-label'], busy: [], done: ['output-file-back', 'output-file-download'] }[this.phase];
      for (const id of use) if (!this.reachable(id)) this.bad(`${id} can't be used when ${this.phase}`);
    } else if (!p.el('file-error-modal-close').visible || p.el('file-error-modal-close').disabled) this.bad("the message can't be closed");
    const audio = p.el('output-file-preview');
    if (this.phase === 'done') this.same(audio.src, 'played');
    else if (!audio.paused) this.bad(`audio is played when ${this.phase}`);
    if (p.urls.size !== +(this.phase === 'done')) this.bad(`${p.urls.size} results are kept when ${this.phase}`);
    if (!this.drag && this.highlit) this.bad('the drop zone is highlighted');
    p.problems.splice(0).forEach(x => this.bad(x));
  }
  /** What tells states apart */
  key() {
    const p = this.page;
    const name = d => (d instanceof File_ ? Object.keys(FILES).find(k => FILES[k] === d) ?? d.name : d instanceof Blob_ ? Object.keys(RESULT).find(k => RESULT[k].data?.equals(d.bytes)) ?? d.size : String(d));
    return JSON.stringify([
      this.phase, this.file, this.message, this.drag && [this.drag.what, this.drag.on, this.drag.accepted], p.dialog,
      ['file-input-section', 'file-process-text', 'output-file-section', 'file-error-modal', 'optivorbis-logo', 'file-input-label'].map(i => p.el(i).className),
      p.el('output-file-preview').paused, name(p.urls.get(p.el('output-file-preview').src)), p.urls.size,
      p.workers.map(w => [w.inbox.map(name), w.outbox.map(name)]), p.el('file-input').files.map(name), p.window.outputFileName, p.el('file-error-modal-message').innerText,
    ]);
  }
}

async function replay(trace) {
  const r = new Run();
  for (const x of trace) {
    if (r.issues.length) break;
    await r.step(x);
  }
  return r;
}

// --- Explorations ---

/** All states, whatever the number of events */
async function graph(report) {
  const seen = new Map();
  const s = { states: 0, transitions: 0, depth: 0, complete: true, samples: [] };
  let level = [[]];
  const r0 = await replay([]);
  report(r0, []);
  seen.set(r0.key(), []);
  while (level.length) {
    const next = [];
    for (const t of level) {
      const here = await replay(t);
      if (here.issues.length) continue;
      for (const e of here.enabled()) {
        const r = await replay([...t, e]);
        s.transitions += 1;
        report(r, [...t, e]);
        if (r.issues.length) continue;
        const k = r.key();
        if (!seen.has(k)) {
          seen.set(k, t);
          next.push([...t, e]);
        }
      }
    }
    level = next;
    if (level.length) {
      s.depth += 1;
      s.samples = [level[0].join(', '), ...s.samples].slice(0, 4);
    }
  }
  s.states = seen.size;
  return s;
}

/** All sequences of coarser events up to a length, that start with the given ones */
async function sequences(prefix, depth, report) {
  const s = { executions: 0, distinct: new Set() };
  const go = async (t, left) => {
    const r = await replay(t.flat());
    s.executions += 1;
    s.distinct.add(r.key());
    report(r, t.flat());
    if (r.issues.length || left === 0) return;
    for (const c of r.coarse()) await go([...t, c], left - 1);
  };
  await go(prefix, depth - prefix.length);
  return { executions: s.executions, distinct: [...s.distinct] };
}

async function main() {
  if (!isMainThread) {
    const found = [];
    const report = (r, t) => r.issues.length && found.length < 20 && found.push({ issues: r.issues, trace: t });
    const out = [];
    for (const p of workerData.prefixes) out.push(await sequences(p, workerData.depth, report));
    parentPort.postMessage({ out, found });
    return 0;
  }
  const [tier, space, choices] = process.argv.slice(2);
  const began = Date.now();
  if (tier === 'replay') {
    let bad = [];
    const r = await replay(choices.split(',').filter(Boolean));
    bad = r.issues;
    bad.forEach(b => console.log(`  ${b}`));
    if (bad.length) console.log(`VIOLATION property=C25 replay=${choices}`);
    return +(bad.length > 0);
  }
  const found = new Map();
  const report = (r, t) => {
    for (const m of r.issues) if (!found.has(m) || found.get(m).length > t.length) found.set(m, t);
  };
  const g = await graph(report);
  const depth = tier === 'thorough' ? 9 : 7;
  // The beginnings are shared out
  const starts = [];
  const n0 = { executions: 0, distinct: new Set() };
  const spread = async (t, left) => {
    const r = await replay(t.flat());
    report(r, t.flat());
    if (r.issues.length) return;
    if (left === 0) return void starts.push(t);
    n0.executions += 1;
    for (const c of r.coarse()) await spread([...t, c], left - 1);
  };
  await spread([], 3);
  const threads = Math.min(8, starts.length);
  await Promise.all([...Array(threads).keys()].map(i => new Promise((ok, no) => {
    const w = new Worker(__filename, { workerData: { prefixes: starts.filter((_, k) => k % threads === i), depth } });
    w.on('message', m => {
      for (const o of m.out) {
        n0.executions += o.executions;
        o.distinct.forEach(k => n0.distinct.add(k));
      }
      for (const f of m.found) report({ issues: f.issues }, f.trace);
      ok();
    });
    w.on('error', no);
  })));
  const list = [...found].sort((a, b) => a[1].length - b[1].length).slice(0, 8);
  fs.mkdirSync(path.join(verif, 'replay/C25'), { recursive: true });
  fs.mkdirSync(path.join(verif, 'evidence'), { recursive: true });
  list.forEach(([m, t], i) => {
    const f = path.join(verif, `replay/C25/${i}.txt`);
    fs.writeFileSync(f, `${m}\n./check.sh C25 replay webui '${t.join(',')}'\n`);
    console.log(`VIOLATION property=C25 replay=${f}`);
    console.log(`  after ${t.join(', ') || 'nothing'}: ${m}`);
  });
  const wall = (Date.now() - began) / 1000;
  fs.writeFileSync(path.join(verif, 'evidence/C25.json'), JSON.stringify({
    property: 'C25',
    tier,
    seed: +(process.env.VERIF_SEED ?? 1),
    level: 'model_checking',
    coverage: {
      states: g.states,
      transitions: g.transitions,
      traces_validated_against_impl: g.transitions + n0.executions,
      depth_of_the_graph: g.depth,
      graph_complete: found.size === 0,
      evaluations: n0.executions,
      distinct_nontrivial: n0.distinct.size,
      rule: 'states are told apart by what the page shows, keeps and has sent to its worker; a sequence of coarser events is one of choosing or dropping a file, an answer or a failure of the worker, and clicks; distinct ones end in a different state',
      length_of_sequences: depth,
      samples: g.samples,
    },
    assumptions: ['the browser is a stand-in: elements, events with bubbling, files, object URLs, and a worker that gets one message at a time', 'the WebAssembly module is the same source compiled for this machine', 'the user can click and drop only on what is visible'],
    wall_s: wall,
    violations: found.size,
  }, null, 1) + '\n');
  console.log(`C25 ${tier}: ${g.states} states, ${g.transitions} transitions, ${n0.executions} sequences up to length ${depth}, ${found.size} violations, ${wall.toFixed(1)} s`);
  return +(found.size > 0);
}

main().then(c => isMainThread && process.exit(c), e => {
  console.error(e);
  process.exit(2);
});
