//! Decoder for WebAssembly MVP (+ sign extension) modules, and translation of function bodies to
//! an internal code with resolved branch targets.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct FuncType {
    pub params: usize,
    pub results: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum I {
    Unreachable,
    /// jump to pc, keep `ar` values, cut the operand stack to height `h`
    Br { pc: u32, h: u32, ar: u8 },
    BrIf { pc: u32, h: u32, ar: u8 },
    /// jump if the condition is zero, no stack change
    JmpZ(u32),
    Jmp(u32),
    /// targets in `br_tables[idx]`
    BrTable(u32),
    Return,
    Call(u32),
    CallIndirect(u32),
    Drop,
    Select,
    LocalGet(u32),
    LocalSet(u32),
    LocalTee(u32),
    GlobalGet(u32),
    GlobalSet(u32),
    /// bytes loaded, sign-extended, result width (32/64), offset
    Load { n: u8, sx: bool, w: u8, off: u32 },
    Store { n: u8, off: u32 },
    MemSize,
    MemGrow,
    Const(u64),
    /// opcode of the comparison / arithmetic instruction
    Un(u8),
    Bin(u8),
    MemCopy,
    MemFill,
    TruncSat(u8),
}

pub struct Func {
    pub ty: usize,
    pub nparams: usize,
    pub nresults: usize,
    pub nlocals: usize, // including params
    pub code: Vec<I>,
    pub br_tables: Vec<Vec<(u32, u32, u8)>>,
    pub max_stack: usize,
}

pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<(String, String, usize)>, // functions only
    pub funcs: Vec<Func>,                      // defined functions; index = i - imports.len()
    pub table: Vec<Option<u32>>,
    pub mem_min: u32,
    pub globals: Vec<u64>,
    pub exports: HashMap<String, u32>,
    pub data: Vec<(u32, Vec<u8>)>,
    pub names: HashMap<u32, String>,
    pub functype: Vec<usize>,
    /// imports that the module provides itself: models of JavaScript's side
    pub links: HashMap<u32, u32>,
}

struct R<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let b = self.d[self.p];
        self.p += 1;
        b
    }
    fn u32(&mut self) -> u32 {
        let mut r: u64 = 0;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 {
                return r as u32;
            }
            s += 7;
        }
    }
    fn sleb(&mut self) -> i64 {
        let mut r: i64 = 0;
        let mut s = 0;
        loop {
            let b = self.u8();
            if s < 64 {
                r |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        r
    }
    fn name(&mut self) -> String {
        let n = self.u32() as usize;
        String::from_utf8_lossy(self.bytes(n)).into_owned()
    }
    fn const_expr(&mut self) -> u64 {
        let op = self.u8();
        let v = match op {
            0x41 => self.sleb() as i32 as u32 as u64,
            0x42 => self.sleb() as u64,
            0x43 => u32::from_le_bytes(self.bytes(4).try_into().unwrap()) as u64,
            0x44 => u64::from_le_bytes(self.bytes(8).try_into().unwrap()),
            _ => panic!("const expr {op:x}"),
        };
        assert_eq!(self.u8(), 0x0b);
        v
    }
}

pub fn parse(d: &[u8]) -> Module {
    assert_eq!(&d[0..8], b"\0asm\x01\0\0\0");
    let mut r = R { d, p: 8 };
    let mut m = Module {
        types: vec![],
        imports: vec![],
        funcs: vec![],
        table: vec![],
        mem_min: 0,
        globals: vec![],
        exports: HashMap::new(),
        data: vec![],
        names: HashMap::new(),
        functype: vec![],
        links: HashMap::new(),
    };
    let mut code_bodies: Vec<(usize, usize)> = vec![];
    while r.p < d.len() {
        let id = r.u8();
        let n = r.u32() as usize;
        let end = r.p + n;
        match id {
            0 => {
                let nm = r.name();
                if nm == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sn = r.u32() as usize;
                        let send = r.p + sn;
                        if sid == 1 {
                            let c = r.u32();
                            for _ in 0..c {
                                let i = r.u32();
                                let s = r.name();
                                m.names.insert(i, s);
                            }
                        }
                        r.p = send;
                    }
                }
            }
            1 => {
                let c = r.u32();
                for _ in 0..c {
                    assert_eq!(r.u8(), 0x60);
                    let np = r.u32() as usize;
                    r.bytes(np);
                    let nr = r.u32() as usize;
                    r.bytes(nr);
                    m.types.push(FuncType { params: np, results: nr });
                }
            }
            2 => {
                let c = r.u32();
                for _ in 0..c {
                    let a = r.name();
                    let b = r.name();
                    let k = r.u8();
                    assert_eq!(k, 0, "only function imports are supported");
                    let t = r.u32() as usize;
                    m.functype.push(t);
                    m.imports.push((a, b, t));
                }
            }
            3 => {
                let c = r.u32();
                for _ in 0..c {
                    let t = r.u32() as usize;
                    m.functype.push(t);
                }
            }
            4 => {
                let c = r.u32();
                assert!(c <= 1);
                for _ in 0..c {
                    r.u8();
                    let f = r.u32();
                    let min = r.u32();
                    if f & 1 != 0 {
                        r.u32();
                    }
                    m.table = vec![None; min as usize];
                }
            }
            5 => {
                let c = r.u32();
                assert!(c <= 1);
                for _ in 0..c {
                    let f = r.u32();
                    m.mem_min = r.u32();
                    if f & 1 != 0 {
                        r.u32();
                    }
                }
            }
            6 => {
                let c = r.u32();
                for _ in 0..c {
                    r.u8();
                    r.u8();
                    let v = r.const_expr();
                    m.globals.push(v);
                }
            }
            7 => {
                let c = r.u32();
                for _ in 0..c {
                    let nm = r.name();
                    let k = r.u8();
                    let i = r.u32();
                    if k == 0 {
                        m.exports.insert(nm, i);
                    }
                }
            }
            8 => {
                panic!("start section not supported");
            }
            9 => {
                let c = r.u32();
                for _ in 0..c {
                    let f = r.u32();
                    assert_eq!(f, 0);
                    let off = r.const_expr() as usize;
                    let k = r.u32();
                    for j in 0..k {
                        let fi = r.u32();
                        if m.table.len() <= off + j as usize {
                            m.table.resize(off + j as usize + 1, None);
                        }
                        m.table[off + j as usize] = Some(fi);
                    }
                }
            }
            10 => {
                let c = r.u32();
                for _ in 0..c {
                    let sz = r.u32() as usize;
                    code_bodies.push((r.p, r.p + sz));
                    r.p += sz;
                }
            }
            11 => {
                let c = r.u32();
                for _ in 0..c {
                    let f = r.u32();
                    assert_eq!(f, 0);
                    let off = r.const_expr() as u32;
                    let n = r.u32() as usize;
                    m.data.push((off, r.bytes(n).to_vec()));
                }
            }
            12 => {}
            _ => panic!("section {id}"),
        }
        r.p = end;
    }
    let ni = m.imports.len();
    let mut funcs = vec![];
    for (k, (s, e)) in code_bodies.iter().enumerate() {
        let t = m.functype[ni + k];
        funcs.push(compile(&m, d, *s, *e, t));
    }
    m.funcs = funcs;
    // __wbg_NAME_HASH is js_NAME_HASH, or js_NAME_PARAMETERS; __wbindgen_NAME is js_NAME_PARAMETERS
    for (i, (module, name, t)) in m.imports.iter().enumerate() {
        if !module.starts_with("__wbindgen") {
            continue;
        }
        let n = m.types[*t].params;
        let base = if let Some(x) = name.strip_prefix("__wbg_") { x } else { name.strip_prefix("__wbindgen_").unwrap_or(name) };
        let short = match base.rsplit_once('_') {
            Some((x, h)) if h.len() == 16 => x,
            _ => base,
        };
        if let Some(f) = m.exports.get(&format!("js_{base}")).or_else(|| m.exports.get(&format!("js_{short}_{n}"))) {
            if m.types[m.functype[*f as usize]] == m.types[*t] {
                m.links.insert(i as u32, *f);
            }
        }
    }
    m
}

struct Ctl {
    kind: u8, // 0 block, 1 loop, 2 if, 3 func
    height: u32,
    arity: u8,
    loop_pc: u32,
    patches: Vec<usize>, // code index to patch with end pc
    tpatches: Vec<(usize, usize)>,
    else_patch: Option<usize>,
}

fn compile(m: &Module, d: &[u8], s: usize, e: usize, t: usize) -> Func {
    let mut r = R { d, p: s };
    let ty = &m.types[t];
    let mut nlocals = ty.params;
    let c = r.u32();
    for _ in 0..c {
        let n = r.u32() as usize;
        r.u8();
        nlocals += n;
    }
    let mut code: Vec<I> = vec![];
    let mut tables: Vec<Vec<(u32, u32, u8)>> = vec![];
    let mut h: u32 = 0;
    let mut maxh: u32 = 0;
    let mut ctl: Vec<Ctl> = vec![Ctl {
        kind: 3,
        height: 0,
        arity: ty.results as u8,
        loop_pc: 0,
        patches: vec![],
        tpatches: vec![],
        else_patch: None,
    }];
    let mut dead = false;
    let mut dead_depth = 0usize;
    while r.p < e {
        let op = r.u8();
        if dead {
            // skip instructions until the enclosing construct ends
            match op {
                0x02 | 0x03 | 0x04 => {
                    r.sleb();
                    dead_depth += 1;
                    continue;
                }
                0x05 => {
                    if dead_depth > 0 {
                        continue;
                    }
                }
                0x0b => {
                    if dead_depth > 0 {
                        dead_depth -= 1;
                        continue;
                    }
                }
                _ => {
                    skip_imm(&mut r, op);
                    continue;
                }
            }
        }
        macro_rules! target {
            ($l:expr, $idx:expr, $tab:expr) => {{
                let li = ctl.len() - 1 - ($l as usize);
                let c = &mut ctl[li];
                if c.kind == 1 {
                    (c.loop_pc, c.height, 0u8)
                } else {
                    match $tab {
                        None => c.patches.push($idx),
                        Some((a, b)) => c.tpatches.push((a, b)),
                    }
                    (u32::MAX, c.height, c.arity)
                }
            }};
        }
        match op {
            0x00 => {
                code.push(I::Unreachable);
                dead = true;
                dead_depth = 0;
            }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let bt = r.sleb();
                let arity = if bt == -64 {
                    0
                } else if bt < 0 {
                    1
                } else {
                    panic!("multi-value block")
                };
                let mut else_patch = None;
                if op == 0x04 {
                    h -= 1;
                    else_patch = Some(code.len());
                    code.push(I::JmpZ(u32::MAX));
                }
                ctl.push(Ctl {
                    kind: op - 2,
                    height: h,
                    arity,
                    loop_pc: code.len() as u32,
                    patches: vec![],
                    tpatches: vec![],
                    else_patch,
                });
            }
            0x05 => {
                let idx = code.len();
                let c = ctl.last_mut().unwrap();
                if !dead {
                    code.push(I::Jmp(u32::MAX));
                    c.patches.push(idx);
                }
                let ep = c.else_patch.take().unwrap();
                code[ep] = I::JmpZ(code.len() as u32);
                h = c.height;
                dead = false;
            }
            0x0b => {
                let c = ctl.pop().unwrap();
                let pc = code.len() as u32;
                if let Some(ep) = c.else_patch {
                    code[ep] = I::JmpZ(pc);
                }
                for i in c.patches {
                    code[i] = match code[i] {
                        I::Br { h, ar, .. } => I::Br { pc, h, ar },
                        I::BrIf { h, ar, .. } => I::BrIf { pc, h, ar },
                        I::Jmp(_) => I::Jmp(pc),
                        x => panic!("patch {x:?}"),
                    };
                }
                for (a, b) in c.tpatches {
                    tables[a][b].0 = pc;
                }
                h = c.height + c.arity as u32;
                dead = false;
                if c.kind == 3 {
                    code.push(I::Return);
                    break;
                }
            }
            0x0c => {
                let l = r.u32();
                let idx = code.len();
                let (pc, hh, ar) = target!(l, idx, None::<(usize, usize)>);
                code.push(I::Br { pc, h: hh, ar });
                dead = true;
                dead_depth = 0;
            }
            0x0d => {
                let l = r.u32();
                h -= 1;
                let idx = code.len();
                let (pc, hh, ar) = target!(l, idx, None::<(usize, usize)>);
                code.push(I::BrIf { pc, h: hh, ar });
            }
            0x0e => {
                let n = r.u32();
                let ti = tables.len();
                tables.push(vec![]);
                for k in 0..=n {
                    let l = r.u32();
                    let x = target!(l, 0usize, Some((ti, k as usize)));
                    tables[ti].push(x);
                }
                h = h.saturating_sub(1);
                code.push(I::BrTable(ti as u32));
                dead = true;
                dead_depth = 0;
            }
            0x0f => {
                code.push(I::Return);
                dead = true;
                dead_depth = 0;
            }
            0x10 => {
                let f = r.u32();
                let ft = &m.types[m.functype[f as usize]];
                h = h - ft.params as u32 + ft.results as u32;
                code.push(I::Call(f));
            }
            0x11 => {
                let t = r.u32();
                r.u32();
                let ft = &m.types[t as usize];
                h = h - 1 - ft.params as u32 + ft.results as u32;
                code.push(I::CallIndirect(t));
            }
            0x1a => {
                h -= 1;
                code.push(I::Drop)
            }
            0x1b => {
                h -= 2;
                code.push(I::Select)
            }
            0x1c => {
                let n = r.u32();
                for _ in 0..n {
                    r.u8();
                }
                h -= 2;
                code.push(I::Select)
            }
            0x20 => {
                code.push(I::LocalGet(r.u32()));
                h += 1
            }
            0x21 => {
                code.push(I::LocalSet(r.u32()));
                h -= 1
            }
            0x22 => code.push(I::LocalTee(r.u32())),
            0x23 => {
                code.push(I::GlobalGet(r.u32()));
                h += 1
            }
            0x24 => {
                code.push(I::GlobalSet(r.u32()));
                h -= 1
            }
            0x28..=0x35 => {
                r.u32();
                let off = r.u32();
                let (n, sx, w) = match op {
                    0x28 | 0x2a => (4, false, 32),
                    0x29 | 0x2b => (8, false, 64),
                    0x2c => (1, true, 32),
                    0x2d => (1, false, 32),
                    0x2e => (2, true, 32),
                    0x2f => (2, false, 32),
                    0x30 => (1, true, 64),
                    0x31 => (1, false, 64),
                    0x32 => (2, true, 64),
                    0x33 => (2, false, 64),
                    0x34 => (4, true, 64),
                    0x35 => (4, false, 64),
                    _ => unreachable!(),
                };
                code.push(I::Load { n, sx, w, off });
            }
            0x36..=0x3e => {
                r.u32();
                let off = r.u32();
                let n = match op {
                    0x36 | 0x38 => 4,
                    0x37 | 0x39 => 8,
                    0x3a | 0x3c => 1,
                    0x3b | 0x3d => 2,
                    0x3e => 4,
                    _ => unreachable!(),
                };
                h -= 2;
                code.push(I::Store { n, off });
            }
            0x3f => {
                r.u8();
                h += 1;
                code.push(I::MemSize)
            }
            0x40 => {
                r.u8();
                code.push(I::MemGrow)
            }
            0x41 => {
                let v = r.sleb() as i32 as u32 as u64;
                h += 1;
                code.push(I::Const(v))
            }
            0x42 => {
                let v = r.sleb() as u64;
                h += 1;
                code.push(I::Const(v))
            }
            0x43 => {
                let v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64;
                h += 1;
                code.push(I::Const(v))
            }
            0x44 => {
                let v = u64::from_le_bytes(r.bytes(8).try_into().unwrap());
                h += 1;
                code.push(I::Const(v))
            }
            0x45..=0xc4 => {
                if is_unary(op) {
                    code.push(I::Un(op));
                } else {
                    h -= 1;
                    code.push(I::Bin(op));
                }
            }
            0xfc => {
                let s = r.u32();
                match s {
                    0..=7 => code.push(I::TruncSat(s as u8)),
                    10 => {
                        r.u8();
                        r.u8();
                        h -= 3;
                        code.push(I::MemCopy)
                    }
                    11 => {
                        r.u8();
                        h -= 3;
                        code.push(I::MemFill)
                    }
                    _ => panic!("op fc {s}"),
                }
            }
            _ => panic!("op {op:x}"),
        }
        maxh = maxh.max(h);
    }
    Func {
        ty: t,
        nparams: ty.params,
        nresults: ty.results,
        nlocals,
        code,
        br_tables: tables,
        max_stack: maxh as usize,
    }
}

pub fn is_unary(op: u8) -> bool {
    matches!(op, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4)
}

fn skip_imm(r: &mut R, op: u8) {
    match op {
        0x0c | 0x0d | 0x10 | 0x20..=0x24 => {
            r.u32();
        }
        0x0e => {
            let n = r.u32();
            for _ in 0..=n {
                r.u32();
            }
        }
        0x11 => {
            r.u32();
            r.u32();
        }
        0x1c => {
            let n = r.u32();
            for _ in 0..n {
                r.u8();
            }
        }
        0x28..=0x3e => {
            r.u32();
            r.u32();
        }
        0x3f | 0x40 => {
            r.u8();
        }
        0x41 | 0x42 => {
            r.sleb();
        }
        0x43 => {
            r.bytes(4);
        }
        0x44 => {
            r.bytes(8);
        }
        0xfc => {
            let s = r.u32();
            match s {
                10 => {
                    r.u8();
                    r.u8();
                }
                11 => {
                    r.u8();
                }
                _ => {}
            }
        }
        _ => {}
    }
}
