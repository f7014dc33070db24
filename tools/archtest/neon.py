import re
s=open('/verif/harness/arch/std.rs').read()
arm=s.split('pub mod wasm32')[0]
T=[]
C={'uint64x2_t':'q64','uint32x4_t':'q32','uint8x16_t':'q8','uint64x1_t':'d64','uint32x2_t':'d32'}
for m in re.finditer(r'lanewise! \{ (\w+):(.*?)\}\s*\n(?=        (?:lanewise|\n|macro|    misc)|\n)', arm, re.S):
    ty=m.group(1)
    for f in re.findall(r'(v\w+) \|a, b\|', m.group(2)):
        if f.endswith('_'): continue
        T.append(f'h.p("{f}", |x,y| unsafe {{ o(w::{f}(c::<w::{ty}>(x),c(y))) }})')
misc=arm.split('misc! {\n')[1].split('fn shl')[0]
for m in re.finditer(r'^\s*(v\w+)\((.*?)\) -> (\w+) \{', misc, re.M):
    f=m.group(1); a=[x.split(': ')[1] for x in m.group(2).split(', ')]
    args=','.join(('c::<%s>(%s)'%(t if t in('u64','u32','u8','i64') else 'w::'+t, ['x','y','[x[1],y[0]]'][i])) for i,t in enumerate(a))
    if f in ('vqmovn_u64', 'vaddlvq_u8', 'vshlq_u64'): continue  # miri cannot run these
    T.append(f'h.p("{f}", |x,y| unsafe {{ o(w::{f}({args})) }})')
for f in ('vshlq_n_u64','vshrq_n_u64'):
    for n in (1,2,4,8,31,32,33,63)+((64,) if 'shr' in f else (0,)): T.append(f'h.p("{f}{n}", |x,y| unsafe {{ o(w::{f}::<{n}>(c(x))) }})')
for n in (0,1):
    T.append(f'h.p("vextq{n}", |x,y| unsafe {{ o(w::vextq_u64::<{n}>(c(x),c(y))) }})')
    for f in('vdupq_laneq_u64','vgetq_lane_u64','vget_lane_u32','vgetq_lane_u32'): T.append(f'h.p("{f}{n}", |x,y| unsafe {{ o(w::{f}::<{n}>(c(x))) }})')
    T.append(f'h.p("vset{n}", |x,y| unsafe {{ o(w::vsetq_lane_u64::<{n}>(y[1],c(x))) }})')
T.append('h.p("vget_lane_u64", |x,y| unsafe { o(w::vget_lane_u64::<0>(c(x))) })')
for f in re.findall(r'(vreinterpretq?_\w+):', arm): T.append(f'h.p("{f}", |x,y| unsafe {{ o(w::{f}(c(x))) }})')
T.append('h.p("ld", |x,y| unsafe { o(w::vld1q_u64(x.as_ptr())) })')
T.append('h.p("st", |x,y| unsafe { let mut z=[0u64;2]; w::vst1q_u64(z.as_mut_ptr(), c(x)); z })')
T.append('h.p("ld1", |x,y| unsafe { o(w::vld1_u64(x.as_ptr())) })')
open('body.rs','w').write('''
pub struct H { pub out: String }
unsafe fn o<T>(t: T) -> [u64;2] { let mut z=[0u64;2]; core::ptr::copy_nonoverlapping(&t as *const T as *const u8, z.as_mut_ptr() as *mut u8, core::mem::size_of::<T>()); z }
unsafe fn c<T: Copy>(x: [u64;2]) -> T { let mut t=core::mem::MaybeUninit::<T>::uninit(); core::ptr::copy_nonoverlapping(x.as_ptr() as *const u8, t.as_mut_ptr() as *mut u8, core::mem::size_of::<T>()); t.assume_init() }
impl H { fn p(&mut self, n: &str, f: impl Fn([u64;2],[u64;2])->[u64;2]) {
 let mut s: u64 = 88172645463325252; let mut r=move||{s^=s<<13;s^=s>>7;s^=s<<17;s};
 let mut h: u64=0; let e=[0u64,1,!0,1<<63,0x7fff_ffff_ffff_ffff,0xffff_ffff,1<<32,0x0002_0000];
 for i in 0..100 { let mut g=||{let k=r(); match i%4 {0=>e[(k>>8) as usize%8],1=>r()&r()&r(),2=>r()>>(k%64),_=>r()}};
  let x:[u64;2]=[g(),g()]; let mut y:[u64;2]=[g(),g()]; if i%7==0 {y[0]=x[0]} if i%9==0 {y[1]=x[1]}
  let q=f(x,y);
  h=h.rotate_left(5).wrapping_mul(0x9e3779b97f4a7c15)^q[0]; h=h.rotate_left(5).wrapping_mul(0x9e3779b97f4a7c15)^q[1]; }
 println!("{} {:016x}", n, h); } }
pub fn run() { let mut h=H{out:String::new()};
'''+';\n'.join(T)+';}\n')
