// Persistent oracle: reads "<len>\n<program>", runs it in a fresh context with emit(), answers "<status> <len>\n<output>".
const vm = require('vm'), fs = require('fs');
function ds(s) {
  const b = Buffer.from(s, 'utf8'); let o = '"';
  for (const c of b) o += (c < 0x20 || c > 0x7e || c === 34 || c === 92) ? '\\x' + (c < 16 ? '0' : '') + c.toString(16) : String.fromCharCode(c);
  return o + '"';
}
function dn(d) {
  if (d !== d) return '#nan';
  if (d === Infinity) return '#inf';
  if (d === -Infinity) return '#-inf';
  if (Object.is(d, -0)) return '#-0';
  return '#' + String(d);
}
function dv(v, k) {
  if (k > 60) return 'DEEP';
  switch (typeof v) {
    case 'undefined': return 'u';
    case 'boolean': return v ? 't' : 'f';
    case 'number': return dn(v);
    case 'string': return ds(v);
    case 'function': return 'F';
    case 'object': {
      if (v === null) return 'n';
      const t = Object.prototype.toString.call(v);
      if (t === '[object Array]') { let o = '['; for (let i = 0; i < v.length; i++) o += dv(v[i], k + 1) + ','; return o + ']'; }
      if (t === '[object Number]') return '(N' + dn(Number(v)) + ')';
      if (t === '[object String]') return '(S' + ds(String(v)) + ')';
      if (t === '[object Boolean]') return '(B' + (v.valueOf() ? 1 : 0) + ')';
      if (t === '[object RegExp]') return 'R';
      let o = '{'; for (const p of Object.keys(v).sort()) o += ds(p) + ':' + dv(v[p], k + 1) + ','; return o + '}';
    }
  }
  return '?';
}
let inb = Buffer.alloc(0);
function rd(n) { const b = Buffer.alloc(65536); const r = fs.readSync(0, b, 0, 65536); if (r <= 0) process.exit(0); inb = Buffer.concat([inb, b.subarray(0, r)]); }
for (;;) {
  let i;
  while ((i = inb.indexOf(10)) < 0) rd();
  const len = parseInt(inb.subarray(0, i).toString());
  inb = inb.subarray(i + 1);
  while (inb.length < len) rd();
  const src = inb.subarray(0, len).toString('utf8');
  inb = inb.subarray(len);
  const out = []; let st = 0, err = '';
  const ctx = vm.createContext({ emit: function () { if (!arguments.length) out.push('u'); for (const a of arguments) out.push(dv(a, 0)); } });
  try { vm.runInContext(src, ctx, { timeout: 10000 }); }
  catch (e) { st = 1; try { err = String(e) } catch (e2) { err = '?' } }
  const o = Buffer.from(out.join('\n') + (out.length ? '\n' : ''), 'utf8'), e = Buffer.from(err, 'utf8');
  fs.writeSync(1, st + ' ' + o.length + ' ' + e.length + '\n');
  const all = Buffer.concat([o, e]); let p = 0;
  while (p < all.length) p += fs.writeSync(1, all, p);
}
