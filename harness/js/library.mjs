// C23: calls the runtime's library functions on every record of the oracle and compares all of the
// memory they may touch.   usage: node library.mjs REPO JOB RECORDS RESULT
// What printf prints goes to standard output, which the caller compares with the oracle.
import {readFileSync, writeFileSync} from "fs";
const [repo, job, records, result] = process.argv.slice(2);
const data = readFileSync(records);
const io = await import(`${repo}/runtime/stdlib/stdio.mjs`), lib = await import(`${repo}/runtime/stdlib/stdlib.mjs`), str = await import(`${repo}/runtime/stdlib/string.mjs`);
const memory = new WebAssembly.Memory({initial: 1});
const mem = new Uint8Array(memory.buffer), dv = new DataView(memory.buffer), want = new Uint8Array(65536), wv = new DataView(want.buffer);
const words = new BigUint64Array(memory.buffer), wantWords = new BigUint64Array(want.buffer);
const f = {printf: io.printf(memory), strtol: lib.strtol(memory), strtoul: lib.strtoul(memory), strlen: str.strlen(memory), strstr: str.strstr(memory)};
let at = 0, calls = 0; const bad = [];
const u8 = () => data[at++], u16 = () => { const v = data.readUInt16LE(at); at += 2; return v; }, i32 = () => { const v = data.readInt32LE(at); at += 4; return v; }, u64 = () => { const v = data.readBigUInt64LE(at); at += 8; return v; }, bytes = (n) => { const v = data.subarray(at, at + n); at += n; return v; };
const show = (b) => JSON.stringify(Buffer.from(b).toString("latin1"));
// the windows of memory that a call may see: low page and the page the strings are in
const FP = 100, VAR = 300;
function fill(lo, hi) { mem.fill(0xAB, lo, hi); want.fill(0xAB, lo, hi); }
function setup(sp) { fill(0, 512); for (const v of [dv, wv]) { v.setUint32(0, FP, true); v.setUint32(8, sp, true); } }
const both = (g) => { g(dv); g(wv); };
function place(addr, b) { mem.set(b, addr); want.set(b, addr); mem[addr + b.length] = 0; want[addr + b.length] = 0; }
function check(what, lo, hi) {
  calls++;
  for (const [a, b] of [[0, 512], [lo, hi]]) for (let i = a >> 3; i < (b + 7) >> 3; i++) if (words[i] !== wantWords[i]) {
    if (bad.length < 5) { const x = i * 8; bad.push(`${what()}: memory at ${x} is ${Buffer.from(mem.slice(x, x + 8)).toString("hex")}, expected ${Buffer.from(want.slice(x, x + 8)).toString("hex")}`); }
    mem.set(want.subarray(a, b), a); return;
  }
}
function call(name, what, lo, hi) {
  try { f[name](); } catch (e) { if (bad.length < 5) bad.push(`${what()}: ${e}`); calls++; return; }
  check(what, lo, hi);
}
if (job === "strto" || job === "limits" || job === "bytes") {
  let k = 0;
  while (at < data.length) {
    const s = bytes(u8()), base = u8(), l = u64(), le = u8(), ul = u64(), ule = u8();
    const S = k++ % 3 === 0 ? 400 : k % 3 === 1 ? 401 + (k & 15) : 65536 - 8 - s.length;
    const lo = S > 512 ? S - 8 & ~7 : 0, hi = S > 512 ? 65536 : 512 + 160 + 16;
    for (const [name, r, e] of [["strtol", l, le], ["strtoul", ul, ule]]) for (const end of [0, VAR]) {
      setup(600); if (S > 512) fill(lo, hi); else fill(512, hi);
      place(S, s);
      both((v) => { v.setUint32(FP + 12, S, true); v.setUint32(FP + 16, end, true); v.setUint32(FP + 20, base, true); });
      wv.setBigUint64(FP + 4, r, true); if (end) wv.setUint32(end, S + e, true);
      call(name, () => `${name}(${show(s)}, ${end ? "&end" : "NULL"}, ${base})`, lo, hi);
    }
  }
} else if (job === "strstr") {
  let k = 0;
  while (at < data.length) {
    const h = bytes(u8()), n = bytes(u8()), r = i32();
    const H = k++ & 1 ? 400 : 40000, N = k & 2 ? 450 : 40100, lo = 40000 - 8, hi = 40128;
    setup(600); fill(lo, hi); place(H, h); place(N, n);
    both((v) => { v.setUint32(FP + 8, H, true); v.setUint32(FP + 12, N, true); });
    wv.setUint32(FP + 4, r < 0 ? 0 : H + r, true);
    call("strstr", () => `strstr(${show(h)}, ${show(n)})`, lo, hi);
    setup(600); fill(lo, hi); place(N, h);
    both((v) => v.setUint32(FP + 8, N, true)); wv.setUint32(FP + 4, h.length, true);
    call("strlen", () => `strlen(${show(h)})`, lo, hi);
  }
} else {
  let p = 4096; const n = u16(); for (let i = 0; i < n; i++) { const s = bytes(u16()); place(p, s); p += s.length + 1; }
  while (at < data.length) {
    const fmt = bytes(u16()), args = bytes(u16()), out = bytes(u16());
    setup(600);
    place(400, fmt); both((v) => v.setUint32(FP + 8, 400, true));
    mem.set(args, FP + 12); want.set(args, FP + 12);
    wv.setUint32(FP + 4, out.length, true);
    call("printf", () => `printf(${show(fmt)}, ${Buffer.from(args).toString("hex")})`, 4096, p);
  }
}
writeFileSync(result, JSON.stringify({calls, bad}));
