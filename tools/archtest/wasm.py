import re
s=open('/verif/harness/arch/std.rs').read()
arm,wasm=s.split('pub mod wasm32')
def lane(src):
    out=[]
    for m in re.finditer(r'lanewise! \{ (\w+):(.*?)\n?        \}\n|lanewise! \{ (\w+):(.*?)\}\n', src, re.S): out.append(m.group(0))
    return out
# wasm ops
b=re.findall(r'(\w+) \|a, b\|', wasm)
T=[]
for f in b: T.append(f'h.p("{f}", |x,y| v(w::{f}(x,y)))')
for f in ['v128_not','u8x16_popcnt','i8x16_popcnt']: T.append(f'h.p("{f}", |x,_| v(w::{f}(x)))')
T.append('h.p("bitselect", |x,y| v(w::v128_bitselect(x,y,w::v128_xor(x,w::u64x2_shl(y,3)))))')
for f in ['v128_any_true','u64x2_all_true','i64x2_all_true']: T.append(f'h.p("{f}", |x,_| [w::{f}(x) as u64,0])')
for f in ['u64x2_shl','u64x2_shr','i64x2_shl','i64x2_shr']:
    for n in (0,1,2,4,8,31,32,33,63,64,65): T.append(f'h.p("{f}{n}", |x,_| v(w::{f}(x,{n})))')
for n in (0,1):
    T.append(f'h.p("ex{n}", |x,_| [w::u64x2_extract_lane::<{n}>(x), w::i64x2_extract_lane::<{n}>(x) as u64])')
    T.append(f'h.p("rep{n}", |x,y| v(w::u64x2_replace_lane::<{n}>(x, w::u64x2_extract_lane::<0>(y))))')
for i in range(4):
    for j in range(4): T.append(f'h.p("shuf{i}{j}", |x,y| v(w::u64x2_shuffle::<{i},{j}>(x,y)))')
T.append('h.p("u64x2", |x,y| v(w::u64x2(v(x)[1], v(y)[0])))'); T.append('h.p("i64x2", |x,y| v(w::i64x2(v(x)[1] as i64, v(y)[0] as i64)))')
T.append('h.p("splat", |x,y| v(w::u64x2_splat(v(x)[1])))')
T.append('h.p("isplat", |x,y| v(w::i64x2_splat(v(x)[1] as i64)))')
T.append('h.p("ld", |x,y| v(unsafe{w::v128_load(&x)}))'); 
body=';\n'.join(T)
open('body.rs','w').write('''
pub struct H { pub out: String }
fn v(x: w::v128) -> [u64;2] { unsafe { core::mem::transmute(x) } }
impl H { fn p(&mut self, n: &str, f: impl Fn(w::v128,w::v128)->[u64;2]) {
 let mut s: u64 = 88172645463325252; let mut r=move||{s^=s<<13;s^=s>>7;s^=s<<17;s};
 let mut h: u64=0; let e=[0u64,1,!0,1<<63,0x7fff_ffff_ffff_ffff,0xffff_ffff,1<<32,0x0002_0000];
 for i in 0..400 { let mut g=||{let k=r(); match i%4 {0=>e[(k>>8) as usize%8],1=>r()&r()&r(),2=>r()>>(k%64),_=>r()}};
  let x:[u64;2]=[g(),g()]; let mut y:[u64;2]=[g(),g()]; if i%7==0 {y[0]=x[0]} if i%9==0 {y[1]=x[1]}
  let q=unsafe{f(core::mem::transmute(x),core::mem::transmute(y))};
  h=h.rotate_left(5).wrapping_mul(0x9e3779b97f4a7c15)^q[0]; h=h.rotate_left(5).wrapping_mul(0x9e3779b97f4a7c15)^q[1]; }
 self.out += &format!("{} {:016x}\\n", n, h); } }
pub fn run() -> String { let mut h=H{out:String::new()};
'''+body+'; h.out }\n')
