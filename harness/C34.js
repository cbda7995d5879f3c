// Runs the page of a HTML log in a minimal document and compares what it shows with the recorded rows.
'use strict';
const fs = require('fs'), vm = require('vm');
const VOID = new Set(['input', 'br', 'hr', 'img', 'meta', 'link']);
const unescape = t => t.replace(/&(#x?[0-9a-fA-F]+|[a-z]+);/g, (m, e) => e[0] === '#' ? String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : ({ lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: '\u00a0' })[e] || m);
const escape = t => t.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
class El {
  constructor(tag) { this.tag = tag; this.tagName = tag.toUpperCase(); this.attrs = {}; this.kids = []; this.parent = null; this.style = {}; }
  get id() { return this.attrs.id || ''; } set id(v) { this.attrs.id = String(v); }
  get type() { return this.attrs.type || ''; } set type(v) { this.attrs.type = String(v); }
  setAttribute(n, v) { this.attrs[n.toLowerCase()] = String(v); } getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
  all() { const r = []; for (const k of this.kids) if (k instanceof El) { r.push(k); r.push(...k.all()); } return r; }
  byTag(t) { return this.all().filter(e => e.tag === t); } getElementsByTagName(t) { return this.byTag(t.toLowerCase()); }
  get children() { return this.kids.filter(k => k instanceof El); } get childNodes() { return this.kids; }
  get textContent() { return this.kids.map(k => k instanceof El ? k.textContent : k.text).join(''); }
  set textContent(t) { this.kids = [{ text: String(t) }]; }
  get innerText() { return this.textContent; } set innerText(t) { this.textContent = t; }
  get innerHTML() { return this.kids.map(k => k instanceof El ? k.outerHTML : this.tag === 'script' ? k.text : escape(k.text)).join(''); }
  get outerHTML() { return '<' + this.tag + Object.keys(this.attrs).map(a => ' ' + a + '="' + this.attrs[a].replace(/&/g, '&amp;').replace(/"/g, '&quot;') + '"').join('') + '>' + (VOID.has(this.tag) ? '' : this.innerHTML + '</' + this.tag + '>'); }
  set innerHTML(t) { this.kids = []; parse(String(t), this); }
  insertAdjacentHTML(where, t) { const box = new El('div'); parse(String(t), box); if (where === 'beforeend') box.kids.forEach(k => this.appendChild(k)); else if (where === 'afterbegin') this.kids = box.kids.map(k => { k.parent = this; return k; }).concat(this.kids); else throw Error('insertAdjacentHTML ' + where); }
  appendChild(k) { if (k.parent && k.parent.kids.includes(k)) k.parent.kids.splice(k.parent.kids.indexOf(k), 1); k.parent = this; this.kids.push(k); return k; } append(...a) { a.forEach(k => this.appendChild(k instanceof El ? k : { text: String(k) })); }
  insertRow() { const e = new El('tr'); return this.appendChild(e); } insertCell() { const e = new El('td'); return this.appendChild(e); }
  get value() { if (this.tag === 'select') { const o = this.byTag('option')[this.selectedIndex]; return o ? o.textContent : ''; } return 'dirty' in this ? this.dirty : this.attrs.value || ''; } set value(v) { this.dirty = String(v); }
  get selectedIndex() { return 'sel' in this ? this.sel : this.byTag('option').length ? 0 : -1; } set selectedIndex(v) { this.sel = v; }
  get valueAsNumber() { return this.value === '' ? NaN : Number(this.value); }
}
function parse(html, root) { // enough of the tree construction for the pages
  let stack = [root], i = 0; const top = () => stack[stack.length - 1];
  while (i < html.length) {
    const m = /^<(\/?)([a-zA-Z][a-zA-Z0-9]*)/.exec(html.substr(i, 40));
    if (!m) { if (html.startsWith('<!--', i)) { const e = html.indexOf('-->', i); i = e < 0 ? html.length : e + 3; continue; } let e = html.indexOf('<', i + 1); if (e < 0) e = html.length; const t = unescape(html.slice(i, e)); const k = top().kids; if (k.length && !(k[k.length - 1] instanceof El)) k[k.length - 1].text += t; else k.push({ text: t }); i = e; continue; }
    const tag = m[2].toLowerCase(); i += m[0].length; const attrs = {};
    for (;;) { const a = /^[\s/]*([^\s=>\/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/.exec(html.slice(i, i + 4000)); if (!a || !a[0]) break; attrs[a[1].toLowerCase()] = unescape(a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] || ''); i += a[0].length; }
    const gt = html.indexOf('>', i); i = gt < 0 ? html.length : gt + 1;
    if (m[1]) { for (let d = stack.length - 1; d > 0; d--) if (stack[d].tag === tag) { stack.length = d; break; } continue; }
    const implied = { tr: ['tr', 'td', 'th'], td: ['td', 'th'], th: ['td', 'th'], option: ['option'] }[tag]; // a new row or cell closes the open one
    if (implied) for (let d = stack.length - 1; d > 0 && stack[d].tag !== 'table'; d--) if (implied.includes(stack[d].tag)) { stack.length = d; }
    const e = new El(tag); e.attrs = attrs; top().appendChild(e); if (VOID.has(tag)) continue;
    if (tag === 'script') { let end = html.toLowerCase().indexOf('</script', i); if (end < 0) end = html.length; e.kids.push({ text: html.slice(i, end) }); i = html.indexOf('>', end) + 1 || html.length; continue; }
    stack.push(e);
  }
}
class Wrong extends Error { constructor(kind, msg) { super(msg); this.kind = kind; } }
function page(job) {
  const root = new El('#document'); parse(fs.readFileSync(job.path, 'latin1'), root);
  const document = { getElementById: id => root.all().find(e => e.id === String(id)) || null, createElement: t => new El(t.toLowerCase()), createTextNode: t => ({ text: String(t) }), get body() { return root.byTag('body')[0]; }, getElementsByTagName: t => root.byTag(t.toLowerCase()), querySelectorAll: t => root.byTag(t) };
  const ctx = vm.createContext({ document }); ctx.window = ctx;
  for (const s of root.byTag('script')) try { vm.runInContext(s.textContent, ctx, { timeout: 10000 }); } catch (e) { throw new Wrong('script-error', 'script of the page failed: ' + e); }
  const click = text => { const b = root.byTag('button').find(e => e.textContent.trim() === text); if (!b) throw new Wrong('button', 'no button ' + text); try { vm.runInContext(b.attrs.onclick, ctx, { timeout: 10000 }); } catch (e) { throw new Wrong('script-error', text + ' failed: ' + e); } };
  const field = id => { const e = document.getElementById(id); if (!e) throw new Wrong('field', 'no field ' + id); return e; };
  let stats = { shown: 0, filters: 0, hidden: 0 };
  const shown = what => {
    const rows = root.byTag('tr').map(r => r.byTag('td').map(d => d.textContent)).filter(r => r.length === 5 && !/^select:/.test(r[0])), want = what.map(r => [String(r[0]), String(r[1]), r[2], r[3], JSON.stringify(r[4])]);
    for (let i = 0; i < Math.max(rows.length, want.length); i++) if (!rows[i] || !want[i] || rows[i].some((t, k) => t !== want[i][k])) throw new Wrong('display', 'row ' + i + ' of ' + rows.length + ' shown is ' + JSON.stringify(rows[i]) + ', expected (' + want.length + ' rows) ' + JSON.stringify(want[i]));
    const heads = root.byTag('th').map(h => h.textContent); if (heads.length !== 5) throw new Wrong('display', 'the table has ' + heads.length + ' headings');
    stats.shown += rows.length;
  };
  // model of the page
  let line = -1; const filters = [], data = job.rows, done = [];
  const judge = r => { if (!filters.length) return 'row'; for (const f of filters) { const v = r[4]; if (r[3] !== f.name) continue; if (f.op === 0 ? v < f.a : f.op === 1 ? v > f.a : f.op === 2 ? v === f.a : v > f.a && v < f.b) return f.group ? 'group' : 'row'; } return ''; };
  const filtered = () => { const rows = new Set(), groups = new Set(); data.forEach((r, i) => { if (line >= 0 && r[1] !== line) return; const j = judge(r); if (j === 'row') rows.add(i); else if (j === 'group') groups.add(r[0]); }); return data.filter((r, i) => rows.has(i) || groups.has(r[0])); };
  try {
    shown(data);
    for (const a of job.actions) {
      done.push(a[0] + (a.length > 1 ? ' ' + a.slice(1).join(' ') : ''));
      if (a[0] === 'line') { line = a[1]; field('selected_line').value = String(a[1]); }
      else if (a[0] === 'add') { click('add filter'); filters.push({ group: 0, name: '', op: 0, a: 0, b: 0 }); stats.filters++; }
      else if (a[0] === 'set') { const k = a[1]; filters[k] = { group: a[2], name: a[3], op: a[4], a: a[5], b: a[6] }; field('sO' + k).selectedIndex = a[2]; field('vN' + k).value = a[3]; field('cO' + k).selectedIndex = a[4]; field('firstVal' + k).value = String(a[5]); field('secondVal' + k).value = String(a[6]); }
      else if (a[0] === 'filter') { click('filter'); const w = filtered(); shown(w); stats.hidden += data.length - w.length; }
      else { click('show all data'); shown(data); }
    }
  } catch (e) { if (e instanceof Wrong) e.message += ' after [' + done.join(', ') + ']'; throw e; }
  return stats;
}
for (const job of JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))) {
  try { const s = page(job); console.log('OK ' + s.shown + ' ' + s.filters + ' ' + s.hidden); } catch (e) { if (!(e instanceof Wrong)) throw e; console.log('WRONG ' + e.kind + ' ' + e.message.replace(/\n/g, ' ')); }
}
