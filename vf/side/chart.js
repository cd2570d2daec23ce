// Runs the scripts of display_tsv.html against a recording stand-in for the
// part of d3 (version 3) that charts use, and reports what was drawn.
'use strict';
const fs = require('fs'), path = require('path'), vm = require('vm'), readline = require('readline');
const html = fs.readFileSync(path.join(process.env.VERIF_REPO || '/repo', 'display_tsv.html'), 'utf8');
const scripts = [];
html.replace(/<script\b([^>]*)>([\s\S]*?)<\/script>/gi, (m, at, body) => { if (!/\bsrc\s*=/.test(at)) scripts.push(body); return m; });

class Unsupported extends Error {}

function element(tag, parent) {
  return { tag, parent, attrs: {}, styles: {}, text: null, kids: [], datum: parent ? parent.datum : undefined };
}

function functor(v) { return typeof v === 'function' ? v : () => v; }

function makeD3(files, document) {
  function matches(n, sel) {
    return sel.split(',').some(s => {
      const m = /^([a-z0-9*]*)((?:[.#][\w-]+)*)$/i.exec(s.trim());
      if (!m) throw new Unsupported('selector ' + sel);
      if (m[1] && m[1] !== '*' && m[1] !== n.tag) return false;
      const cls = String(n.attrs['class'] || '').split(/\s+/);
      return (m[2].match(/[.#][\w-]+/g) || []).every(c => c[0] === '.' ? cls.includes(c.slice(1)) : n.attrs.id === c.slice(1));
    });
  }
  function descend(n, sel, one) {
    let cur = [n];
    for (const part of sel.trim().split(/\s+/)) {
      const next = [];
      const walk = x => { for (const k of x.kids) { if (matches(k, part)) next.push(k); walk(k); } };
      for (const x of cur) walk(x);
      cur = next;
    }
    return one ? cur.slice(0, 1) : cur;
  }

  // groups: [{parent, nodes: [element or null], enter: [{datum}]}]
  class Selection {
    constructor(groups) { this.groups = groups; }
    eachNode(f) {
      this.groups.forEach((g, j) => g.nodes.forEach((n, i) => { if (n) f.call(n, n.datum, i, j, n); }));
      return this;
    }
    _set(where, k, v) {
      if (typeof k === 'object' && k !== null) { for (const q in k) this._set(where, q, k[q]); return this; }
      const f = functor(v);
      return this.eachNode(function (d, i, j) {
        const r = f.call(this, d, i, j);
        if (r === null || r === undefined) delete this[where][k]; else this[where][k] = r;
      });
    }
    _get(where, k) { const n = this.node(); return n ? (n[where][k] === undefined ? null : String(n[where][k])) : null; }
    attr(k, v) { return arguments.length < 2 && typeof k === 'string' ? this._get('attrs', k) : this._set('attrs', k, v); }
    style(k, v) { return arguments.length < 2 && typeof k === 'string' ? this._get('styles', k) : this._set('styles', k, v); }
    property(k, v) { return this; }
    classed(k, v) {
      const f = functor(v);
      return this.eachNode(function (d, i, j) {
        const s = new Set(String(this.attrs['class'] || '').split(/\s+/).filter(Boolean));
        for (const c of k.split(/\s+/)) { if (f.call(this, d, i, j)) s.add(c); else s.delete(c); }
        this.attrs['class'] = [...s].join(' ');
      });
    }
    text(v) {
      if (!arguments.length) { const n = this.node(); return n ? n.text : null; }
      const f = functor(v);
      return this.eachNode(function (d, i, j) { const t = f.call(this, d, i, j); this.text = t === null || t === undefined ? '' : String(t); });
    }
    html(v) { return this.text(v); }
    append(what) {
      const f = functor(what);
      return new Selection(this.groups.map((g, j) => {
        const out = { parent: g.parent, nodes: [] };
        if (g.enter) {
          g.enter.forEach((e, i) => {
            if (!e) { out.nodes.push(null); return; }
            const k = element(String(f.call(g.parent, e.datum, i, j)).replace(/^svg:/, ''), g.parent);
            k.datum = e.datum; g.parent.kids.push(k); out.nodes.push(k);
            g.update.nodes[i] = k;
          });
        } else {
          g.nodes.forEach((n, i) => {
            if (!n) { out.nodes.push(null); return; }
            const k = element(String(f.call(n, n.datum, i, j)).replace(/^svg:/, ''), n);
            n.kids.push(k); out.nodes.push(k);
          });
        }
        return out;
      }));
    }
    insert(what) { return this.append(what); }
    remove() { return this.eachNode(function () { if (this.parent) this.parent.kids = this.parent.kids.filter(k => k !== this); }); }
    select(sel) {
      if (typeof sel !== 'string') throw new Unsupported('select');
      return new Selection(this.groups.map(g => ({ parent: g.parent, nodes: g.nodes.map(n => {
        if (!n) return null;
        const k = descend(n, sel, true)[0] || null;
        if (k && n.datum !== undefined) k.datum = n.datum;
        return k;
      }) })));
    }
    selectAll(sel) {
      if (typeof sel !== 'string') throw new Unsupported('selectAll');
      const gs = [];
      for (const g of this.groups) for (const n of g.nodes) if (n) gs.push({ parent: n, nodes: descend(n, sel) });
      return new Selection(gs);
    }
    datum(v) {
      if (!arguments.length) { const n = this.node(); return n ? n.datum : undefined; }
      const f = functor(v);
      return this.eachNode(function (d, i, j) { this.datum = f.call(this, d, i, j); });
    }
    data(v, key) {
      if (!arguments.length) return this.groups[0].nodes.map(n => n && n.datum);
      if (key) throw new Unsupported('data with a key');
      const f = functor(v);
      const update = [], enter = [], exit = [];
      this.groups.forEach((g, j) => {
        const d = f.call(g.parent, g.parent && g.parent.datum, j);
        const u = { parent: g.parent, nodes: [] }, en = { parent: g.parent, nodes: [], enter: [], update: u };
        for (let i = 0; i < d.length; i++) {
          const n = g.nodes[i];
          if (n) { n.datum = d[i]; u.nodes.push(n); en.enter.push(null); } else { u.nodes.push(null); en.enter.push({ datum: d[i] }); }
        }
        update.push(u); enter.push(en); exit.push({ parent: g.parent, nodes: g.nodes.slice(d.length) });
      });
      const s = new Selection(update);
      s.enter = () => new Selection(enter);
      s.exit = () => new Selection(exit);
      return s;
    }
    filter(f) { return new Selection(this.groups.map((g, j) => ({ parent: g.parent, nodes: g.nodes.filter((n, i) => n && (typeof f === 'string' ? matches(n, f) : f.call(n, n.datum, i, j))) }))); }
    each(f) { return this.eachNode(f); }
    call(f, ...a) { f.call(this, this, ...a); return this; }
    node() { for (const g of this.groups) for (const n of g.nodes) if (n) return n; return null; }
    size() { let c = 0; this.eachNode(() => { c++; }); return c; }
    empty() { return this.size() === 0; }
    on() { return this; }
    order() { return this; }
    sort() { return this; }
    transition() { return this; }
    duration() { return this; }
    delay() { return this; }
    ease() { return this; }
  }

  function linear(domain, range) {
    domain = domain || [0, 1]; range = range || [0, 1];
    const interp = (a, b) => { a = +a; const w = (b - a) || Infinity; return x => (x - a) / w; };
    const map = (dm, rg) => x => { const t = interp(dm[0], dm[1])(+x); return (+rg[0]) * (1 - t) + (+rg[1]) * t; };
    const s = x => map(domain, range)(x);
    s.invert = y => map(range, domain)(y);
    s.domain = function (d) { if (!arguments.length) return domain.slice(); domain = d.map(Number); return s; };
    s.range = function (r) { if (!arguments.length) return range.slice(); range = r.slice(); return s; };
    s.rangeRound = s.range;
    s.clamp = () => s;
    s.nice = () => s;
    s.ticks = () => domain.slice();
    s.tickFormat = () => String;
    s.copy = () => linear(domain.slice(), range.slice());
    return s;
  }
  function ordinal(range) {
    let domain = [];
    const s = x => {
      let i = domain.indexOf(String(x));
      if (i < 0) { domain.push(String(x)); i = domain.length - 1; }
      return range.length ? range[i % range.length] : undefined;
    };
    s.domain = function (d) {
      if (!arguments.length) return domain.slice();
      domain = []; for (const x of d) if (!domain.includes(String(x))) domain.push(String(x));
      return s;
    };
    s.range = function (r) { if (!arguments.length) return range.slice(); range = r.slice(); return s; };
    s.copy = () => { const c = ordinal(range.slice()); c.domain(domain); return c; };
    return s;
  }
  const palette = (p, n) => () => ordinal(Array.from({ length: n }, (_, i) => p + i));

  function axis() {
    const st = { scale: linear(), orient: 'bottom' };
    const a = sel => { sel.eachNode(function () { this.axis = { orient: st.orient, domain: st.scale.domain(), range: st.scale.range() }; }); };
    for (const k of ['scale', 'orient', 'ticks', 'tickSize', 'innerTickSize', 'outerTickSize', 'tickFormat', 'tickPadding', 'tickValues', 'tickSubdivide'])
      a[k] = function (v) { if (!arguments.length) return st[k]; st[k] = v; return a; };
    return a;
  }
  function shape(area) {
    const st = { x: d => d[0], y: d => d[1], defined: () => true };
    const f = data => {
      const pts = [];
      Array.prototype.forEach.call(data, (d, i) => { if (functor(st.defined)(d, i)) pts.push([+functor(st.x)(d, i), +functor(st.y)(d, i)]); });
      return pts.length ? (area ? 'area ' : '') + JSON.stringify(pts.map(p => p.map(v => Number.isFinite(v) ? v : null))) : null;
    };
    for (const k of ['x', 'y', 'x0', 'x1', 'y0', 'y1', 'interpolate', 'tension', 'defined'])
      f[k] = function (v) { if (!arguments.length) return st[k]; st[k] = v; return f; };
    return f;
  }

  function parseRows(text, delim) {
    const rows = [];
    let i = 0, row = [], eol = true;
    const n = text.length;
    while (i < n) {
      let field = '';
      if (text[i] === '"') {
        i++;
        while (i < n) { if (text[i] === '"') { if (text[i + 1] === '"') { field += '"'; i += 2; continue; } i++; break; } field += text[i++]; }
      } else {
        while (i < n && text[i] !== delim && text[i] !== '\n' && text[i] !== '\r') field += text[i++];
      }
      row.push(field);
      if (i >= n) { rows.push(row); row = []; break; }
      if (text[i] === delim) { i++; if (i >= n || text[i] === '\n' || text[i] === '\r') { row.push(''); } else continue; if (i >= n) { rows.push(row); row = []; break; } }
      if (text[i] === '\r' && text[i + 1] === '\n') i++;
      i++; rows.push(row); row = [];
    }
    return rows;
  }
  function dsv(delim) {
    const parse = (text, f) => {
      const rows = parseRows(text, delim), head = rows.shift() || [];
      return rows.map((r, i) => { const o = {}; head.forEach((h, k) => { if (k < r.length) o[h] = r[k]; else o[h] = undefined; }); return f ? f(o, i) : o; }).filter(o => o !== null && o !== undefined);
    };
    const load = (url, acc, cb) => {
      if (arguments.length < 3 && cb === undefined) { cb = acc; acc = null; }
      const deliver = (f, callback) => {
        if (files[url] === undefined) callback(new Error('no such file ' + url), undefined);
        else callback(null, parse(files[url], f));
      };
      const req = { row: f => { acc = f; return req; }, get: c => { pending.push(() => deliver(acc, c)); return req; }, mimeType: () => req, header: () => req, on: () => { throw new Unsupported('on'); } };
      if (cb) req.get(cb);
      return req;
    };
    load.parse = parse;
    load.parseRows = t => parseRows(t, delim);
    return load;
  }
  const pending = [];
  const nums = (a, f) => Array.prototype.map.call(a, f || (x => x)).filter(v => v !== null && v !== undefined && !(v !== v));
  const pick = better => (a, f) => { let b; for (const v of nums(a, f)) if (b === undefined || better(v, b)) b = v; return b; };
  const doc = () => new Selection([{ parent: null, nodes: [document] }]);
  const d3 = {
    version: '3.5.17',
    select: s => typeof s === 'string' ? (s === 'body' ? doc() : doc().select(s)) : new Selection([{ parent: null, nodes: [s] }]),
    selectAll: s => doc().selectAll(s),
    keys: o => { const k = []; for (const q in o) k.push(q); return k; },
    values: o => { const k = []; for (const q in o) k.push(o[q]); return k; },
    entries: o => { const k = []; for (const q in o) k.push({ key: q, value: o[q] }); return k; },
    min: pick((v, b) => b > v), max: pick((v, b) => v > b),
    extent: (a, f) => [d3.min(a, f), d3.max(a, f)],
    sum: (a, f) => nums(a, f).reduce((x, y) => x + +y, 0),
    mean: (a, f) => { const v = nums(a, f); return v.length ? v.reduce((x, y) => x + +y, 0) / v.length : undefined; },
    range: (a, b, c) => { if (b === undefined) { b = a; a = 0; } c = c || 1; const r = []; for (let v = a; c > 0 ? v < b : v > b; v += c) r.push(v); return r; },
    merge: a => [].concat(...a),
    zip: (...a) => d3.range(d3.min(a, x => x.length) || 0).map(i => a.map(x => x[i])),
    permute: (o, k) => k.map(i => o[i]),
    ascending: (a, b) => a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN,
    descending: (a, b) => b < a ? -1 : b > a ? 1 : b >= a ? 0 : NaN,
    functor, format: () => String, identity: x => x,
    scale: { linear: () => linear(), ordinal: () => ordinal([]), category10: palette('#c', 10), category20: palette('#d', 20), category20b: palette('#e', 20), category20c: palette('#f', 20) },
    svg: { axis, line: () => shape(false), area: () => shape(true) },
    tsv: dsv('\t'), csv: dsv(','),
  };
  const guard = (o, name) => new Proxy(o, { get(t, k) { if (k in t || typeof k === 'symbol') { const v = t[k]; return v && typeof v === 'object' ? guard(v, name + '.' + k) : v; } throw new Unsupported(name + '.' + String(k)); } });
  return { d3: guard(d3, 'd3'), run: order => { while (pending.length) { const k = order ? pending.length - 1 : 0; pending.splice(k, 1)[0](); } } };
}

function dump(n) {
  return { tag: n.tag, attrs: n.attrs, styles: n.styles, text: n.text, axis: n.axis, kids: n.kids.map(dump) };
}

function draw(req) {
  const body = element('body', null);
  const { d3, run } = makeD3(req.files, body);
  const logs = [];
  const console = { log: (...a) => { logs.push(a.join(' ')); } };
  console.warn = console.error = console.info = console.debug = console.log;
  const ctx = { d3, console, document: {}, location: { search: '', hash: '' } };
  ctx.window = ctx;
  vm.createContext(ctx);
  try {
    for (const s of scripts) vm.runInContext(s, ctx, { timeout: 10000 });
    run(req.late);
  } catch (e) {
    if (e instanceof Unsupported) return { harness: 'stand-in for d3 lacks ' + e.message };
    return { exc: String(e && e.name), msg: String(e && e.message), tb: String(e && e.stack).slice(0, 800) };
  }
  return { ok: dump(body) };
}

process.stdout.write(JSON.stringify({ ready: true }) + '\n');
readline.createInterface({ input: process.stdin, terminal: false }).on('line', l => {
  if (!l) return;
  let r;
  try { r = draw(JSON.parse(l)); } catch (e) { r = { harness: String(e && e.stack) }; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
