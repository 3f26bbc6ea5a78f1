//! Copy-on-write flat memory with a per-byte symbolic overlay.

use crate::expr::*;
use std::rc::Rc;

pub const PAGE: usize = 1024;
const PPC: usize = 64; // pages per chunk
const CHUNK: u64 = (PAGE * PPC) as u64;

pub const HEAP_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0x9000_0000;
pub const STACK_SIZE: u64 = 0x20_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PAGE],
    pub s: Option<Box<[E; PAGE]>>,
}
type Chunk = [Option<Rc<Page>>; PPC];

#[derive(Clone)]
pub struct Alloc {
    top: u64,
    free: Vec<Vec<u64>>, // small classes, 16-byte granules
    big: Vec<Vec<u64>>,  // power-of-two classes
}

#[derive(Clone)]
pub struct Mem {
    zones: [Vec<Option<Rc<Chunk>>>; 16],
    pub globals_end: u64,
    pub alloc: Rc<Alloc>,
    pub nstacks: u64,
}

pub struct Fault(pub u64);

fn empty_chunk() -> Rc<Chunk> {
    Rc::new(std::array::from_fn(|_| None))
}

impl Mem {
    pub fn new(globals_end: u64) -> Mem {
        Mem {
            zones: std::array::from_fn(|_| vec![]),
            globals_end,
            alloc: Rc::new(Alloc { top: HEAP_BASE + 64, free: vec![vec![]; 65], big: vec![vec![]; 40] }),
            nstacks: 0,
        }
    }
    fn valid(&self, a: u64) -> bool {
        if a < crate::ir::GLOBAL_BASE {
            false
        } else if a < HEAP_BASE {
            a < self.globals_end
        } else if a < STACK_BASE {
            a < self.alloc.top
        } else {
            a < STACK_BASE + self.nstacks * STACK_SIZE
        }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let z = (a >> 28) as usize;
        if z >= 16 {
            return None;
        }
        let off = a & 0x0fff_ffff;
        let c = self.zones[z].get((off / CHUNK) as usize)?.as_ref()?;
        c[((off % CHUNK) as usize) / PAGE].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let z = (a >> 28) as usize;
        if z >= 16 || !self.valid(a) {
            return Err(Fault(a));
        }
        let off = a & 0x0fff_ffff;
        let ci = (off / CHUNK) as usize;
        let zone = &mut self.zones[z];
        if zone.len() <= ci {
            zone.resize(ci + 1, None);
        }
        let c = zone[ci].get_or_insert_with(empty_chunk);
        let c = Rc::make_mut(c);
        let p = c[((off % CHUNK) as usize) / PAGE].get_or_insert_with(|| Rc::new(Page { d: [0; PAGE], s: None }));
        Ok(Rc::make_mut(p))
    }
    pub fn read_byte(&self, a: u64) -> Result<(u8, E), Fault> {
        match self.page(a) {
            Some(p) => {
                let o = a as usize % PAGE;
                Ok((p.d[o], p.s.as_ref().map(|s| s[o]).unwrap_or(0)))
            }
            None => {
                if self.valid(a) {
                    Ok((0, 0))
                } else {
                    Err(Fault(a))
                }
            }
        }
    }
    pub fn write_byte(&mut self, a: u64, v: u8, e: E) -> Result<(), Fault> {
        let o = a as usize % PAGE;
        let p = self.page_mut(a)?;
        p.d[o] = v;
        if e != 0 || p.s.is_some() {
            p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o] = e;
        }
        Ok(())
    }
    /// Read n (1..=16) bytes; Ok(Ok(v)) if concrete.
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Result<Result<u64, E>, Fault> {
        let o = a as usize % PAGE;
        if o + n <= PAGE && n <= 8 {
            match self.page(a) {
                Some(p) => {
                    if p.s.is_none() || p.s.as_ref().unwrap()[o..o + n].iter().all(|x| *x == 0) {
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&p.d[o..o + n]);
                        return Ok(Ok(u64::from_le_bytes(b)));
                    }
                }
                None => {
                    return if self.valid(a) { Ok(Ok(0)) } else { Err(Fault(a)) };
                }
            }
        }
        // general
        let mut any = false;
        let mut bs: [(u8, E); 16] = [(0, 0); 16];
        for i in 0..n {
            bs[i] = self.read_byte(a.wrapping_add(i as u64))?;
            any |= bs[i].1 != 0;
        }
        if !any && n <= 8 {
            let mut v = 0u64;
            for i in 0..n {
                v |= (bs[i].0 as u64) << (8 * i);
            }
            return Ok(Ok(v));
        }
        let x = ex();
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = if bs[i].1 != 0 { bs[i].1 } else { x.cst(bs[i].0 as u64, 8) };
            acc = Some(match acc {
                None => b,
                Some(l) => x.concat(b, l),
            });
        }
        Ok(Err(acc.unwrap()))
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = a as usize % PAGE;
        if o + n <= PAGE {
            let p = self.page_mut(a)?;
            p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = p.s.as_mut() {
                for x in &mut s[o..o + n] {
                    *x = 0;
                }
            }
            return Ok(());
        }
        for i in 0..n {
            self.write_byte(a + i as u64, (v >> (8 * i)) as u8, 0)?;
        }
        Ok(())
    }
    /// e has width 8*n.
    pub fn write_e(&mut self, a: u64, n: usize, e: E) -> Result<(), Fault> {
        let x = ex();
        for i in 0..n {
            let b = x.extract(e, 8 * i as u32, 8);
            match x.cval(b) {
                Some(c) => self.write_byte(a + i as u64, c as u8, 0)?,
                None => self.write_byte(a + i as u64, 0, b)?,
            }
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Fault> {
        let mut i = 0;
        while i < b.len() {
            let o = (a as usize + i) % PAGE;
            let n = (PAGE - o).min(b.len() - i);
            let p = self.page_mut(a + i as u64)?;
            p.d[o..o + n].copy_from_slice(&b[i..i + n]);
            if let Some(s) = p.s.as_mut() {
                for x in &mut s[o..o + n] {
                    *x = 0;
                }
            }
            i += n;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), Fault> {
        if n == 0 {
            return Ok(());
        }
        let mut buf: Vec<u8> = Vec::with_capacity(n);
        let mut sym: Option<Vec<E>> = None;
        let mut i = 0;
        while i < n {
            let a = src.wrapping_add(i as u64);
            let o = a as usize % PAGE;
            let k = (PAGE - o).min(n - i);
            match self.page(a) {
                Some(p) => {
                    buf.extend_from_slice(&p.d[o..o + k]);
                    if let Some(s) = &p.s {
                        let v = sym.get_or_insert_with(|| vec![0; n]);
                        v[i..i + k].copy_from_slice(&s[o..o + k]);
                    }
                }
                None => {
                    if !self.valid(a) {
                        return Err(Fault(a));
                    }
                    buf.resize(i + k, 0);
                }
            }
            i += k;
        }
        self.write_bytes(dst, &buf)?;
        if let Some(s) = sym {
            if s.iter().any(|x| *x != 0) {
                for (i, e) in s.iter().enumerate() {
                    if *e != 0 {
                        self.write_byte(dst + i as u64, 0, *e)?;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn cstr(&self, a: u64) -> Option<String> {
        let mut v = vec![];
        for i in 0..4096 {
            let (b, e) = self.read_byte(a + i).ok()?;
            if e != 0 {
                return None;
            }
            if b == 0 {
                return Some(String::from_utf8_lossy(&v).into_owned());
            }
            v.push(b);
        }
        None
    }
    pub fn bytes_lossy(&self, a: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(4096) {
            match self.read_byte(a + i) {
                Ok((b, 0)) => v.push(b),
                Ok(_) => v.push(b'?'),
                Err(_) => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> Result<u64, Fault> {
        // 16-byte header holding the class
        let al = Rc::make_mut(&mut self.alloc);
        let align = align.max(16);
        let (small, cls, sz) = if size <= 1024 {
            let c = ((size.max(1) + 15) / 16) as usize;
            (true, c, c as u64 * 16)
        } else {
            let p = size.next_power_of_two();
            (false, p.trailing_zeros() as usize, p)
        };
        let mut a = 0;
        let list = if small { &mut al.free[cls] } else { &mut al.big[cls] };
        if align == 16 {
            if let Some(x) = list.pop() {
                a = x;
            }
        }
        let fresh = a == 0;
        if fresh {
            a = (al.top + 16 + align - 1) / align * align;
            al.top = a + sz + 16; // 16 bytes of slack
            if al.top >= STACK_BASE {
                return Err(Fault(al.top));
            }
        }
        let tag = if small { cls as u64 } else { cls as u64 | 0x1_0000 };
        self.write(a - 16, 8, tag | 0xabcd_0000_0000_0000)?;
        self.write(a - 8, 8, size)?;
        Ok(a)
    }
    pub fn size_of(&self, a: u64) -> Option<u64> {
        match (self.read(a - 16, 8), self.read(a - 8, 8)) {
            (Ok(Ok(t)), Ok(Ok(s))) if t >> 48 == 0xabcd => Some(s),
            _ => None,
        }
    }
    pub fn free(&mut self, a: u64) -> Result<(), Fault> {
        if a == 0 {
            return Ok(());
        }
        let t = match self.read(a - 16, 8)? {
            Ok(t) => t,
            Err(_) => return Err(Fault(a)),
        };
        if t >> 48 != 0xabcd {
            return Err(Fault(a));
        }
        self.write(a - 16, 8, 0xdead_0000_0000_0000)?;
        let al = Rc::make_mut(&mut self.alloc);
        let cls = (t & 0xffff) as usize;
        if t & 0x1_0000 != 0 {
            al.big[cls].push(a);
        } else {
            al.free[cls].push(a);
        }
        Ok(())
    }
}
