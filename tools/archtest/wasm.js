const fs=require('fs');const m=new WebAssembly.Module(fs.readFileSync('target/wasm32-unknown-unknown/debug/at.wasm'));
const i=new WebAssembly.Instance(m,{});const p=i.exports.go(),n=i.exports.len();process.stdout.write(Buffer.from(i.exports.memory.buffer,p,n));
