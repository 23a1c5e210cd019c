// Runs a checker compiled to 32-bit WebAssembly: node wasm.js FILE.wasm ARGS..
const fs = require('fs');
const args = process.argv.slice(3);
const out = args[args.indexOf('--out') + 1];
let mem;
const text = (p, n) => Buffer.from(mem.buffer, p >>> 0, n >>> 0).toString('utf8');
const mc = {
  host_args: (p, cap) => {
    const b = Buffer.from(args.join('\n'));
    if (b.length > cap) process.exit(4);
    b.copy(Buffer.from(mem.buffer, p >>> 0, cap));
    return b.length;
  },
  host_out: (p, n) => fs.writeFileSync(out, text(p, n)),
  host_say: (p, n) => process.stderr.write(text(p, n) + '\n'),
  host_ms: () => performance.now(),
  host_exit: (c) => process.exit(c),
};
const i = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), { mc });
mem = i.exports.memory;
(i.exports.main || i.exports._start)(0, 0);
