// Reads documents (4-byte LE length + UTF-8 bytes) from stdin; for each, writes one line of JSON:
// {"data":[...]} what the document's scripts hand to the drawing library, or {"error":"..."}.
// Script boundaries are found the way an HTML parser does (script data / escaped / double-escaped states).
import vm from 'node:vm';
import fs from 'node:fs';

function scripts(html) {
  html = html.replace(/\r\n?/g, '\n');               // input stream preprocessing
  const out = [];
  let i = 0;
  const nameEnd = c => c === undefined || /[\t\n\f \/>]/.test(c);
  const isTag = (at, name) => html.substr(at, name.length).toLowerCase() === name && nameEnd(html[at + name.length]);
  const skipTag = at => {                              // returns [attributes text, index after '>']
    let q = null, j = at;
    for (; j < html.length; j++) { const c = html[j]; if (q) { if (c === q) q = null; } else if (c === '"' || c === "'") q = c; else if (c === '>') break; }
    return [html.slice(at, j), j + 1];
  };
  while (i < html.length) {
    if (html[i] !== '<') { i++; continue; }
    if (html.startsWith('<!--', i)) { const e = html.indexOf('-->', i + 4); if (e < 0) break; i = e + 3; continue; }
    let raw = ['title', 'style', 'textarea'].find(n => isTag(i + 1, n));
    if (raw) {
      let [, j] = skipTag(i + 1);
      while (j < html.length && !(html[j] === '<' && html[j + 1] === '/' && isTag(j + 2, raw))) j++;
      i = j + 1; continue;
    }
    if (isTag(i + 1, 'script')) {
      let [attrs, j] = skipTag(i + 7);
      const start = j;
      let state = 0, closed = false;                   // 0 data, 1 escaped, 2 double escaped
      for (; j < html.length; j++) {
        const c = html[j];
        if (c === '<') {
          if (state === 0 && html.startsWith('<!--', j)) { state = 1; j += 1; continue; }
          if (state !== 2 && html[j + 1] === '/' && isTag(j + 2, 'script')) { closed = true; break; }
          if (state === 1 && isTag(j + 1, 'script')) { state = 2; continue; }
          if (state === 2 && html[j + 1] === '/' && isTag(j + 2, 'script')) { state = 1; continue; }
        } else if (c === '-' && state !== 0 && html.startsWith('-->', j)) { state = 0; j += 2; }
      }
      if (closed) out.push({ attrs, text: html.slice(start, j).replace(/\0/g, '\ufffd') });
      i = closed ? skipTag(j)[1] : html.length;
      continue;
    }
    i++;
  }
  return out;
}

function anything() {
  const f = function () {};
  const p = new Proxy(f, {
    get(_, k) { if (k === Symbol.toPrimitive) return () => 0; if (k === Symbol.iterator) return function* () {}; if (k === 'then') return undefined; if (k === 'length') return 0; return p; },
    set: () => true, apply: () => p, construct: () => p, has: () => true,
  });
  return p;
}

let seen = [];
const any = anything();
const d3base = new Proxy(function () {}, { get(_, k) { return k === 'hierarchy' ? (d => { seen.push(d); return any; }) : k === 'then' ? undefined : any; } });
const names = ['tree', 'cluster', 'hierarchy', 'create', 'select', 'linkVertical', 'linkHorizontal', 'link', 'curveBumpX', 'curveBumpY', 'event', 'zoom', 'stratify', 'selection', 'transition', 'default', 'scaleLinear'];
let ctx, d3mod;
async function fresh() {
  ctx = vm.createContext({ document: any, window: any, console: any, navigator: any, requestAnimationFrame: any, setTimeout: any, ResizeObserver: any });
  d3mod = new vm.SyntheticModule(names, function () { for (const n of names) this.setExport(n, d3base[n]); }, { context: ctx });
  await d3mod.link(() => {}); await d3mod.evaluate();
}
async function evaluate(html) {
  seen = [];
  const found = scripts(html);
  for (const s of found) {
    if (/\bsrc\s*=/i.test(s.attrs)) continue;
    if (/type\s*=\s*["']?module/i.test(s.attrs)) {
      const m = new vm.SourceTextModule(s.text, { context: ctx });
      await m.link(() => d3mod);
      await m.evaluate({ timeout: 5000 });
    } else vm.runInContext(s.text, ctx, { timeout: 5000 });
  }
  if (ctx.pwned !== undefined) { delete ctx.pwned; throw new Error('a text ran as code'); }
  return seen;
}
// nodes in document order: [number of children or -1, name, id, text]
function flat(root) {
  const out = [], todo = [root], sv = v => v === undefined || v === null ? null : String(v);
  while (todo.length) {
    const d = todo.pop();
    if (d === null || typeof d !== 'object') { out.push([-2, sv(d), null, null]); continue; }
    const ch = Array.isArray(d.children) ? d.children : null;
    out.push([ch ? ch.length : -1, sv(d.name), sv(d.id), sv(d.text)]);
    if (ch) for (let i = ch.length - 1; i >= 0; i--) todo.push(ch[i]);
  }
  return out;
}
function bytes(n) { const b = Buffer.alloc(n); let k = 0; while (k < n) { const r = fs.readSync(0, b, k, n - k, null); if (r === 0) return null; k += r; } return b; }
await fresh();
for (;;) {
  const h = bytes(4); if (!h) break;
  const d = bytes(h.readUInt32LE(0)); if (!d) break;
  let ans;
  try { ans = { data: (await evaluate(new TextDecoder('utf-8').decode(d))).map(flat) }; } catch (e) { ans = { error: String(e).slice(0, 300) }; }
  let line; try { line = JSON.stringify(ans); } catch (e) { line = JSON.stringify({ error: 'data is not plain: ' + e }); }
  const o = Buffer.from(line + '\n'); for (let k = 0; k < o.length;) k += fs.writeSync(1, o, k);
}
