// Runs display_tsv.html with a stand-in for d3 (version 3) that records what
// is drawn. One request (JSON) per line on stdin, one answer per line.
'use strict';
const fs = require('fs'), vm = require('vm');
const html = fs.readFileSync(process.argv[2], 'utf8');
const scripts = [];
html.replace(/<script([^>]*)>([\s\S]*?)<\/script>/g, (_, a, body) => {
  if (!/\bsrc=/.test(a)) scripts.push(body);
  return '';
});

class Elem {
  constructor(tag, parent) {
    this.tag = tag; this.parent = parent; this.kids = [];
    this.attrs = {}; this.styles = {}; this.txt = null; this.data = undefined;
    if (parent) parent.kids.push(this);
  }
  json() {
    return {tag: this.tag, attrs: this.attrs, styles: this.styles,
            text: this.txt, kids: this.kids.map(k => k.json())};
  }
}
const copy = (from, to) => { to.data = from.data; return to; };
function match(e, sel) {
  const parts = sel.split(','); 
  return parts.some(p => {
    const m = /^([a-zA-Z]*)((?:\.[\w-]+)*)$/.exec(p.trim());
    if (!m) throw new Error('selector ' + sel);
    const cls = String(e.attrs['class'] || '').split(/\s+/);
    return (!m[1] || e.tag === m[1]) &&
        m[2].split('.').filter(Boolean).every(c => cls.includes(c));
  });
}
function descend(e, sel, out) {
  for (const k of e.kids) {
    if (match(k, sel)) out.push(k);
    descend(k, sel, out);
  }
  return out;
}
const val = (v, e, i) => typeof v === 'function' ? v.call(e, e.data, i) : v;
class Sel {
  constructor(nodes, parents) { this.nodes = nodes; this.parents = parents; }
  each(f) { this.nodes.forEach((e, i) => f.call(e, e.data, i)); return this; }
  append(tag) {
    return new Sel(this.nodes.map(e => copy(e, new Elem(tag, e))));
  }
  insert(tag) { return this.append(tag); }
  set(where, name, v) {
    if (typeof name === 'object') {
      for (const k of Object.keys(name)) this.set(where, k, name[k]);
      return this;
    }
    this.nodes.forEach((e, i) => {
      const x = val(v, e, i);
      if (x === null || x === undefined) delete e[where][name];
      else e[where][name] = String(x);
    });
    return this;
  }
  attr(name, v) {
    if (arguments.length < 2 && typeof name === 'string')
      return this.nodes[0].attrs[name];
    return this.set('attrs', name, v);
  }
  style(name, v) { return this.set('styles', name, v); }
  classed(name, v) {
    this.nodes.forEach((e, i) => {
      const c = String(e.attrs['class'] || '').split(/\s+/).filter(
          x => x && x !== name);
      if (val(v, e, i)) c.push(name);
      e.attrs['class'] = c.join(' ');
    });
    return this;
  }
  text(v) {
    if (!arguments.length) return this.nodes[0].txt;
    this.nodes.forEach((e, i) => {
      const x = val(v, e, i);
      e.txt = x === null || x === undefined ? '' : String(x);
    });
    return this;
  }
  call(f) {
    f.apply(null, [this].concat([].slice.call(arguments, 1)));
    return this;
  }
  datum(v) {
    if (!arguments.length) return this.nodes[0].data;
    this.nodes.forEach((e, i) => { e.data = val(v, e, i); });
    return this;
  }
  select(sel) {
    const out = [];
    for (const e of this.nodes) {
      const d = descend(e, sel, [])[0];
      if (d) out.push(e.data === undefined ? d : copy(e, d));
    }
    return new Sel(out);
  }
  selectAll(sel) {
    const out = [];
    for (const e of this.nodes) descend(e, sel, out);
    return new Sel(out, this.nodes);
  }
  data(v) {
    const parent = this.parents[0];
    const list = typeof v === 'function' ? v.call(parent, parent.data, 0) : v;
    const n = Math.min(list.length, this.nodes.length);
    const upd = new Sel(this.nodes.slice(0, n));
    upd.nodes.forEach((e, i) => { e.data = list[i]; });
    upd.enter = () => ({append: tag => {
      const made = [];
      for (let i = n; i < list.length; i++) {
        const e = new Elem(tag, parent);
        e.data = list[i];
        made.push(e);
      }
      upd.nodes.push(...made);
      return new Sel(made);
    }});
    upd.exit = () => new Sel(this.nodes.slice(n));
    return upd;
  }
  remove() {
    for (const e of this.nodes)
      e.parent.kids.splice(e.parent.kids.indexOf(e), 1);
    return this;
  }
  empty() { return !this.nodes.length; }
  node() { return this.nodes[0] || null; }
  size() { return this.nodes.length; }
  on() { return this; }
}

function accessor(obj, name, init) {
  let v = init;
  obj[name] = function(x) {
    if (!arguments.length) return v;
    v = x;
    return obj;
  };
}
const CAT10 = ['#1f77b4', '#ff7f0e', '#2ca02c', '#d62728', '#9467bd',
               '#8c564b', '#e377c2', '#7f7f7f', '#bcbd22', '#17becf'];
function ordinal(range) {
  let dom = [];
  const s = x => {
    x = String(x);
    if (!dom.includes(x)) dom.push(x);
    return range[dom.indexOf(x) % range.length];
  };
  s.domain = function(d) {
    if (!arguments.length) return dom.slice();
    dom = [];
    for (const x of d) if (!dom.includes(String(x))) dom.push(String(x));
    return s;
  };
  s.range = function(r) {
    if (!arguments.length) return range;
    range = r;
    return s;
  };
  return s;
}
function linear() {
  let dom = [0, 1], ran = [0, 1];
  const s = x => {
    let b = dom[1] - dom[0];
    b = b || 1 / b;
    const t = (x - dom[0]) / b;
    return ran[0] * (1 - t) + ran[1] * t;
  };
  s.domain = function(d) {
    if (!arguments.length) return dom.slice();
    dom = Array.from(d, Number);
    return s;
  };
  s.range = function(r) {
    if (!arguments.length) return ran.slice();
    ran = Array.from(r);
    return s;
  };
  s.rangeRound = s.range;
  s.nice = () => {
    dom = [Math.floor(dom[0]), Math.ceil(dom[1])];
    return s;
  };
  s.clamp = () => s;
  s.ticks = () => dom.slice();
  s.copy = () => linear().domain(dom).range(ran);
  return s;
}
function axis() {
  const a = sel => {
    sel.nodes.forEach(e => {
      const g = new Elem('axis', e);
      g.attrs.domain = JSON.stringify(a.scale().domain().map(String));
      g.attrs.range = JSON.stringify(a.scale().range());
      g.attrs.orient = a.orient();
    });
  };
  for (const n of ['scale', 'orient', 'ticks', 'tickSize', 'tickFormat',
                   'tickPadding', 'tickValues', 'innerTickSize',
                   'outerTickSize'])
    accessor(a, n, n === 'orient' ? 'bottom' : undefined);
  return a;
}
function lineGen() {
  const l = list => JSON.stringify(list.filter(
      (d, i) => l.defined().call(l, d, i)).map((d, i) => [
    +(typeof l.x() === 'function' ? l.x()(d, i) : l.x()),
    +(typeof l.y() === 'function' ? l.y()(d, i) : l.y())]));
  accessor(l, 'x', d => d[0]);
  accessor(l, 'y', d => d[1]);
  accessor(l, 'interpolate', 'linear');
  accessor(l, 'tension', 0.7);
  accessor(l, 'defined', () => true);
  return l;
}
function parse(text, delim) {           // d3.dsv
  const rows = [];
  let row = [], cur = '', i = 0, any = false;
  const endRow = () => { row.push(cur); rows.push(row); row = []; cur = ''; };
  while (i < text.length) {
    const c = text[i];
    any = true;
    if (c === '"' && cur === '') {
      for (i++; i < text.length; i++) {
        if (text[i] === '"') {
          if (text[i + 1] === '"') { cur += '"'; i++; } else break;
        } else cur += text[i];
      }
      i++;
    } else if (c === delim) {
      row.push(cur); cur = ''; i++;
    } else if (c === '\n' || c === '\r') {
      endRow(); any = false;
      i += c === '\r' && text[i + 1] === '\n' ? 2 : 1;
    } else { cur += c; i++; }
  }
  if (any) endRow();
  const head = rows.shift() || [];
  return rows.map(r => {
    const o = {};
    head.forEach((h, k) => { o[h] = r[k]; });
    return o;
  });
}
const bound = (a, f, better) => {
  let out;
  for (let i = 0; i < a.length; i++) {
    const v = f ? f.call(a, a[i], i) : a[i];
    if (v !== null && v !== undefined && v >= v &&
        (out === undefined || better(v, out))) out = v;
  }
  return out;
};

function run(files) {
  const body = new Elem('body', null);
  const fetched = [], pending = [];
  const fetch = (delim, conv) => function(url, row, cb) {
    if (arguments.length < 3) { cb = row; row = null; }
    fetched.push(url);
    pending.push(() => {
      if (!(url in files)) return cb({status: 404}, undefined);
      let data = parse(files[url], delim);
      if (row) data = data.map(row).filter(x => x !== null);
      cb(null, data);
    });
  };
  const d3 = {
    select: s => new Sel(s === 'body' || s === body ? [body] :
                         s instanceof Elem ? [s] : descend(body, s, [])
                             .slice(0, 1)),
    selectAll: s => new Sel(Array.isArray(s) ? s : descend(body, s, []),
                            [body]),
    scale: {linear: linear, category10: () => ordinal(CAT10),
            category20: () => ordinal(CAT10.concat(CAT10.map(x => x + '2'))),
            ordinal: () => ordinal([])},
    svg: {axis: axis, line: lineGen},
    keys: m => { const k = []; for (const x in m) k.push(x); return k; },
    values: m => { const k = []; for (const x in m) k.push(m[x]); return k; },
    entries: m => {
      const k = [];
      for (const x in m) k.push({key: x, value: m[x]});
      return k;
    },
    min: (a, f) => bound(a, f, (v, o) => v < o),
    max: (a, f) => bound(a, f, (v, o) => v > o),
    extent: (a, f) => [d3.min(a, f), d3.max(a, f)],
    merge: a => [].concat.apply([], a),
    range: (a, b, c) => {
      if (b === undefined) { b = a; a = 0; }
      const out = [];
      for (let x = a; x < b; x += c || 1) out.push(x);
      return out;
    },
    tsv: fetch('\t'), csv: fetch(','),
  };
  const document = {body: body};
  const box = {d3: d3, document: document, console: {log() {}}};
  box.window = box;
  vm.createContext(box);
  for (const s of scripts) vm.runInContext(s, box, {timeout: 10000});
  pending.forEach(f => f());
  return {fetched: fetched, body: body.json()};
}

require('readline').createInterface({input: process.stdin}).on('line', l => {
  let out;
  try {
    out = run(JSON.parse(l));
  } catch (e) {
    out = {error: String(e && e.stack || e).slice(0, 600)};
  }
  process.stdout.write(JSON.stringify(out) + '\n');
});
