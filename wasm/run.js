// Serves the compiled WebAssembly interface with the protocol of shims/src/bin/webapi.rs
'use strict';
const fs = require('fs');
const crypto = require('crypto');

const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x;
function start() {
	const imports = { mc: { random: (at, len) => crypto.randomFillSync(new Uint8Array(x.memory.buffer, at, len)) } };
	// What only the generated glue uses
	for (const { module, name, kind } of WebAssembly.Module.imports(module_)) {
		imports[module] ??= {};
		if (kind === 'function') imports[module][name] ??= () => { throw new Error(`${module}.${name} was called`); };
	}
	x = new WebAssembly.Instance(module_, imports).exports;
}
start();

function read(n) {
	const b = Buffer.allocUnsafe(n);
	for (let at = 0; at < n;) {
		let k;
		try {
			k = fs.readSync(0, b, at, n - at, null);
		} catch (e) {
			if (e.code === 'EAGAIN') continue;
			throw e;
		}
		if (k === 0) process.exit(0);
		at += k;
	}
	return b;
}
function write(b) {
	for (let at = 0; at < b.length;) {
		try {
			at += fs.writeSync(1, b, at);
		} catch (e) {
			if (e.code !== 'EAGAIN') throw e;
		}
	}
}

for (;;) {
	const head = read(9);
	const input = read(Number(head.readBigUInt64LE(1)));
	let status, data;
	try {
		const at = x.mc_input(input.length) >>> 0;
		new Uint8Array(x.memory.buffer).set(input, at);
		const ok = x.mc_remux(head[0]);
		const out = x.mc_output() >>> 0;
		data = Buffer.from(new Uint8Array(x.memory.buffer, out, x.mc_output_len() >>> 0));
		status = ok ? 'o' : 'e';
	} catch (e) {
		// Whatever a trap leaves behind is not used again
		start();
		status = 'p';
		data = Buffer.from(String(e));
	}
	const a = Buffer.alloc(9);
	a.write(status, 0);
	a.writeBigUInt64LE(BigInt(data.length), 1);
	write(a);
	write(data);
}
