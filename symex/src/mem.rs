//! Flat memory in copy-on-write pages; each byte is concrete or an 8-bit expression.
use crate::expr::{Arena, E};
use crate::ll::{GLOBAL_BASE};
use std::rc::Rc;

pub const PAGE: u64 = 256;
pub const HEAP_BASE: u64 = 0x1000_0000;
pub const HEAP_MAX: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x2000_0000;
pub const STACK_MAX: u64 = 0x0400_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PAGE as usize],
    pub s: Option<Box<[E; PAGE as usize]>>,
}
impl Page {
    fn zero() -> Page {
        Page { d: [0; PAGE as usize], s: None }
    }
}

#[derive(Clone)]
pub struct Mem {
    glob: Rc<Vec<Page>>,
    gmut: Vec<(u32, Rc<Page>)>, // written global pages
    heap: Vec<Rc<Page>>,
    stack: Vec<Rc<Page>>,
    zero: Rc<Page>,
}

pub enum Byte {
    C(u8),
    S(E),
}

impl Mem {
    pub fn new(image: &[u8]) -> Mem {
        let mut g = vec![];
        for c in image.chunks(PAGE as usize) {
            let mut p = Page::zero();
            p.d[..c.len()].copy_from_slice(c);
            g.push(p);
        }
        Mem { glob: Rc::new(g), gmut: vec![], heap: vec![], stack: vec![], zero: Rc::new(Page::zero()) }
    }
    #[inline]
    fn page(&self, a: u64) -> Result<&Page, String> {
        if a >= STACK_BASE && a < STACK_BASE + STACK_MAX {
            let i = ((a - STACK_BASE) / PAGE) as usize;
            Ok(self.stack.get(i).map(|r| &**r).unwrap_or(&self.zero))
        } else if a >= HEAP_BASE && a < HEAP_BASE + HEAP_MAX {
            let i = ((a - HEAP_BASE) / PAGE) as usize;
            Ok(self.heap.get(i).map(|r| &**r).unwrap_or(&self.zero))
        } else if a >= GLOBAL_BASE && a < GLOBAL_BASE + self.glob.len() as u64 * PAGE {
            let i = ((a - GLOBAL_BASE) / PAGE) as usize;
            for (k, p) in &self.gmut {
                if *k as usize == i {
                    return Ok(p);
                }
            }
            Ok(&self.glob[i])
        } else {
            Err(format!("access to invalid address {:#x}", a))
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, String> {
        if a >= STACK_BASE && a < STACK_BASE + STACK_MAX {
            let i = ((a - STACK_BASE) / PAGE) as usize;
            while self.stack.len() <= i {
                self.stack.push(self.zero.clone());
            }
            Ok(Rc::make_mut(&mut self.stack[i]))
        } else if a >= HEAP_BASE && a < HEAP_BASE + HEAP_MAX {
            let i = ((a - HEAP_BASE) / PAGE) as usize;
            while self.heap.len() <= i {
                self.heap.push(self.zero.clone());
            }
            Ok(Rc::make_mut(&mut self.heap[i]))
        } else if a >= GLOBAL_BASE && a < GLOBAL_BASE + self.glob.len() as u64 * PAGE {
            let i = ((a - GLOBAL_BASE) / PAGE) as u32;
            if !self.gmut.iter().any(|(k, _)| *k == i) {
                self.gmut.push((i, Rc::new(self.glob[i as usize].clone())));
            }
            for (k, p) in self.gmut.iter_mut() {
                if *k == i {
                    return Ok(Rc::make_mut(p));
                }
            }
            unreachable!()
        } else {
            Err(format!("write to invalid address {:#x}", a))
        }
    }
    pub fn byte(&self, a: u64) -> Result<Byte, String> {
        let p = self.page(a)?;
        let o = (a % PAGE) as usize;
        if let Some(s) = &p.s {
            if s[o] != 0 {
                return Ok(Byte::S(s[o]));
            }
        }
        Ok(Byte::C(p.d[o]))
    }
    pub fn put(&mut self, a: u64, b: Byte) -> Result<(), String> {
        let p = self.page_mut(a)?;
        let o = (a % PAGE) as usize;
        match b {
            Byte::C(c) => {
                p.d[o] = c;
                if let Some(s) = &mut p.s {
                    s[o] = 0;
                }
            }
            Byte::S(e) => {
                p.s.get_or_insert_with(|| Box::new([0; PAGE as usize]))[o] = e;
            }
        }
        Ok(())
    }
    /// Little-endian read of up to 16 bytes; None if some byte is symbolic.
    #[inline]
    pub fn read_c(&self, a: u64, n: u64) -> Result<Option<u128>, String> {
        let o = (a % PAGE) as usize;
        if o as u64 + n <= PAGE {
            let p = self.page(a)?;
            if let Some(s) = &p.s {
                if s[o..o + n as usize].iter().any(|x| *x != 0) {
                    return Ok(None);
                }
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&p.d[o..o + n as usize]);
            return Ok(Some(u128::from_le_bytes(b)));
        }
        let mut v = 0u128;
        for i in 0..n {
            match self.byte(a + i)? {
                Byte::C(c) => v |= (c as u128) << (8 * i),
                Byte::S(_) => return Ok(None),
            }
        }
        Ok(Some(v))
    }
    pub fn read_e(&self, ar: &mut Arena, a: u64, n: u64) -> Result<E, String> {
        let mut acc: E = 0;
        for i in (0..n).rev() {
            let b = match self.byte(a + i)? {
                Byte::C(c) => ar.k(c as u128, 8),
                Byte::S(e) => e,
            };
            acc = if acc == 0 { b } else { ar.concat(acc, b) };
        }
        Ok(acc)
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, n: u64, v: u128) -> Result<(), String> {
        let o = (a % PAGE) as usize;
        if o as u64 + n <= PAGE {
            let p = self.page_mut(a)?;
            p.d[o..o + n as usize].copy_from_slice(&v.to_le_bytes()[..n as usize]);
            if let Some(s) = &mut p.s {
                s[o..o + n as usize].fill(0);
            }
            return Ok(());
        }
        for i in 0..n {
            self.put(a + i, Byte::C((v >> (8 * i)) as u8))?;
        }
        Ok(())
    }
    pub fn write_e(&mut self, ar: &mut Arena, a: u64, n: u64, e: E) -> Result<(), String> {
        for i in 0..n {
            let b = ar.extract(e, 8 * i as u32, 8);
            match ar.cst(b) {
                Some(k) => self.put(a + i, Byte::C(k as u8))?,
                None => self.put(a + i, Byte::S(b))?,
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        // memmove semantics
        if n == 0 {
            return Ok(());
        }
        let mut buf = Vec::with_capacity(n as usize);
        for i in 0..n {
            buf.push(self.byte(src + i)?);
        }
        for (i, b) in buf.into_iter().enumerate() {
            self.put(dst + i as u64, b)?;
        }
        Ok(())
    }
}
