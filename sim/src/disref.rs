//! Reference disassembler, from the x/y/z/p/q decoding of the opcode matrix:
//! mnemonic and operands of the instruction in `b` (operand bytes included),
//! with the effective DD/FD prefix given apart.
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    S(&'static str),
    /// plain decimal in every format
    Num(u8),
    N8(u8),
    N16(u16),
    A16(u16),
    P8(u8),
    Idx(&'static str, i8),
}

/// Rendering formats of the library: `{}`, `{:x}`, `{:#x}`, `{:X}`, `{:#X}`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt {
    Dec,
    X,
    AltX,
    UpX,
    AltUpX,
}
pub const FMTS: [Fmt; 5] = [Fmt::Dec, Fmt::X, Fmt::AltX, Fmt::UpX, Fmt::AltUpX];

fn h8(v: u8, f: Fmt) -> String {
    match f {
        Fmt::Dec => format!("{}", v),
        Fmt::X => format!("{:02x}h", v),
        Fmt::AltX => format!("0x{:02x}", v),
        Fmt::UpX => format!("{:02X}h", v),
        Fmt::AltUpX => format!("0x{:02X}", v),
    }
}
pub fn h16(v: u16, f: Fmt) -> String {
    match f {
        Fmt::Dec => format!("{}", v),
        Fmt::X => format!("{:04x}h", v),
        Fmt::AltX => format!("0x{:04x}", v),
        Fmt::UpX => format!("{:04X}h", v),
        Fmt::AltUpX => format!("0x{:04X}", v),
    }
}

impl Arg {
    fn text(&self, f: Fmt) -> String {
        match *self {
            Arg::S(s) => s.to_string(),
            Arg::Num(n) => n.to_string(),
            Arg::N8(v) => h8(v, f),
            Arg::N16(v) => h16(v, f),
            Arg::A16(v) => format!("({})", h16(v, f)),
            Arg::P8(v) => format!("({})", h8(v, f)),
            Arg::Idx(r, d) => format!("({}{}{})", r, if d < 0 { "-" } else { "+" }, h8(d.unsigned_abs(), f)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ins {
    pub mnem: &'static str,
    pub args: Vec<Arg>,
    /// the DD/FD prefix belongs to this instruction
    pub uses: bool,
    /// bytes, without the prefix
    pub len: usize,
}

impl Ins {
    pub fn args_text(&self, f: Fmt) -> String {
        self.args.iter().map(|a| a.text(f)).collect::<Vec<_>>().join(", ")
    }
    /// The whole line.
    pub fn line(&self, pc: u16, code: &[u8], f: Fmt) -> String {
        let a = self.args_text(f);
        let w = if f == Fmt::Dec { 14 } else if f == Fmt::X || f == Fmt::UpX { 14 } else { 15 };
        let p = if f == Fmt::Dec { format!("{:>5}", pc) } else { h16(pc, f) };
        let c: Vec<String> = code
            .iter()
            .map(|b| match f {
                Fmt::Dec => format!("{}", b),
                Fmt::X | Fmt::AltX => format!("{:02x}", b),
                _ => format!("{:02X}", b),
            })
            .collect();
        format!("{} {:4} {:w$} [{}]", p, self.mnem, a, c.join(", "), w = w)
    }
}

const R: [&str; 8] = ["B", "C", "D", "E", "H", "L", "(HL)", "A"];
const RP: [&str; 4] = ["BC", "DE", "HL", "SP"];
const CC: [&str; 8] = ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"];
const ALU: [&str; 8] = ["ADD", "ADC", "SUB", "SBC", "AND", "XOR", "OR", "CP"];
const ROT: [&str; 8] = ["RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL"];

/// `at` is the address of the first byte of the instruction (after any prefix).
pub fn decode(prefix: u8, b: &[u8; 4], at: u16) -> Ins {
    let mut i = form(prefix, b, at);
    // a prefix without influence is not part of the instruction
    i.uses = prefix != 0 && (b[0] == 0xCB || i.args != form(0, b, at).args);
    i
}

fn form(prefix: u8, b: &[u8; 4], at: u16) -> Ins {
    use Arg::*;
    let ix: &'static str = match prefix {
        0xDD => "IX",
        0xFD => "IY",
        _ => "HL",
    };
    let px = prefix != 0;
    let op = b[0];
    let (x, y, z) = (op >> 6, (op >> 3 & 7) as usize, (op & 7) as usize);
    let (p, q) = (y >> 1, y & 1);
    let nn = b[1] as u16 | (b[2] as u16) << 8;
    let rel = at.wrapping_add(2).wrapping_add(b[1] as i8 as u16);
    let half = |r: usize| -> Arg {
        S(match (ix, r) {
            ("IX", 4) => "IXH",
            ("IX", 5) => "IXL",
            ("IY", 4) => "IYH",
            ("IY", 5) => "IYL",
            _ => R[r],
        })
    };
    let rp = |n: usize| S(if n == 2 { ix } else { RP[n] });
    let stk = |n: usize| S(if n == 3 { "AF" } else if n == 2 { ix } else { RP[n] });
    let mut len = 1;
    // an operand out of B..A or the memory cell
    macro_rules! rm {
        ($r:expr) => {
            if $r == 6 && px {
                len = 2;
                Idx(ix, b[1] as i8)
            } else {
                half($r)
            }
        };
    }
    let mut uses = px;
    let i = |mnem: &'static str, args: Vec<Arg>, len: usize, uses: bool| Ins { mnem, args, uses, len };
    match x {
        0 => match z {
            0 => match y {
                0 => i("NOP", vec![], 1, uses),
                1 => i("EX", vec![S("AF"), S("AF'")], 1, uses),
                2 => i("DJNZ", vec![N16(rel)], 2, uses),
                3 => i("JR", vec![N16(rel)], 2, uses),
                _ => i("JR", vec![S(CC[y - 4]), N16(rel)], 2, uses),
            },
            1 if q == 0 => i("LD", vec![rp(p), N16(nn)], 3, uses),
            1 => i("ADD", vec![S(ix), rp(p)], 1, uses),
            2 => {
                let (mem, reg, l) = match p {
                    0 => (S("(BC)"), S("A"), 1),
                    1 => (S("(DE)"), S("A"), 1),
                    2 => (A16(nn), S(ix), 3),
                    _ => (A16(nn), S("A"), 3),
                };
                i("LD", if q == 0 { vec![mem, reg] } else { vec![reg, mem] }, l, uses)
            }
            3 => i(if q == 0 { "INC" } else { "DEC" }, vec![rp(p)], 1, uses),
            4 | 5 => {
                let a = rm!(y);
                i(if z == 4 { "INC" } else { "DEC" }, vec![a], len, uses)
            }
            6 => {
                let a = rm!(y);
                i("LD", vec![a, N8(b[len])], len + 1, uses)
            }
            _ => i(["RLCA", "RRCA", "RLA", "RRA", "DAA", "CPL", "SCF", "CCF"][y], vec![], 1, uses),
        },
        1 if op == 0x76 => i("HALT", vec![], 1, uses),
        1 => {
            let (d, s) = if px && y == 6 {
                (Idx(ix, b[1] as i8), S(R[z]))
            } else if px && z == 6 {
                (S(R[y]), Idx(ix, b[1] as i8))
            } else {
                (half(y), half(z))
            };
            i("LD", vec![d, s], if px && (y == 6 || z == 6) { 2 } else { 1 }, uses)
        }
        2 => {
            let a = rm!(z);
            let v = if matches!(y, 0 | 1 | 3) { vec![S("A"), a] } else { vec![a] };
            i(ALU[y], v, len, uses)
        }
        _ => match z {
            0 => i("RET", vec![S(CC[y])], 1, uses),
            1 if q == 0 => i("POP", vec![stk(p)], 1, uses),
            1 => match p {
                0 => i("RET", vec![], 1, uses),
                1 => i("EXX", vec![], 1, uses),
                2 => i(
                    "JP",
                    vec![S(match ix {
                        "IX" => "(IX)",
                        "IY" => "(IY)",
                        _ => "(HL)",
                    })],
                    1,
                    uses,
                ),
                _ => i("LD", vec![S("SP"), S(ix)], 1, uses),
            },
            2 => i("JP", vec![S(CC[y]), N16(nn)], 3, uses),
            3 => match y {
                0 => i("JP", vec![N16(nn)], 3, uses),
                1 => {
                    let c = if px { b[2] } else { b[1] };
                    let (cx, cy, cz) = (c >> 6, (c >> 3 & 7), (c & 7) as usize);
                    let m = match cx {
                        0 => ROT[cy as usize],
                        1 => "BIT",
                        2 => "RES",
                        _ => "SET",
                    };
                    let mut v = Vec::new();
                    if cx != 0 {
                        v.push(Num(cy));
                    }
                    if px {
                        v.push(Idx(ix, b[1] as i8));
                        if cz != 6 && cx != 1 {
                            v.push(S(R[cz]));
                        }
                    } else {
                        v.push(S(R[cz]));
                    }
                    i(m, v, if px { 3 } else { 2 }, uses)
                }
                2 => i("OUT", vec![P8(b[1]), S("A")], 2, uses),
                3 => i("IN", vec![S("A"), P8(b[1])], 2, uses),
                4 => i("EX", vec![S("(SP)"), S(ix)], 1, uses),
                5 => i("EX", vec![S("DE"), S("HL")], 1, uses),
                6 => i("DI", vec![], 1, uses),
                _ => i("EI", vec![], 1, uses),
            },
            4 => i("CALL", vec![S(CC[y]), N16(nn)], 3, uses),
            5 if q == 0 => i("PUSH", vec![stk(p)], 1, uses),
            5 if p == 0 => i("CALL", vec![N16(nn)], 3, uses),
            5 if p == 2 => {
                uses = false;
                let (m, v, l) = decode_ed(b[1], b[2] as u16 | (b[3] as u16) << 8);
                i(m, v, l, uses)
            }
            5 => i("PREFIX", vec![], 1, false),
            6 => {
                let v = if matches!(y, 0 | 1 | 3) { vec![S("A"), N8(b[1])] } else { vec![N8(b[1])] };
                i(ALU[y], v, 2, uses)
            }
            _ => i("RST", vec![N8((y * 8) as u8)], 1, uses),
        },
    }
}

fn decode_ed(op: u8, nn: u16) -> (&'static str, Vec<Arg>, usize) {
    use Arg::*;
    let (x, y, z) = (op >> 6, (op >> 3 & 7) as usize, (op & 7) as usize);
    let (p, q) = (y >> 1, y & 1);
    match (x, z) {
        (1, 0) if y == 6 => ("IN", vec![S("(C)")], 2),
        (1, 0) => ("IN", vec![S(R[y]), S("(C)")], 2),
        (1, 1) if y == 6 => ("OUT", vec![S("(C)")], 2),
        (1, 1) => ("OUT", vec![S("(C)"), S(R[y])], 2),
        (1, 2) => (if q == 0 { "SBC" } else { "ADC" }, vec![S("HL"), S(RP[p])], 2),
        (1, 3) => ("LD", if q == 0 { vec![A16(nn), S(RP[p])] } else { vec![S(RP[p]), A16(nn)] }, 4),
        (1, 4) => ("NEG", vec![], 2),
        (1, 5) => (if y == 1 { "RETI" } else { "RETN" }, vec![], 2),
        (1, 6) => ("IM", vec![Num([0, 0, 1, 2][y & 3])], 2),
        (1, _) => match y {
            0 => ("LD", vec![S("I"), S("A")], 2),
            1 => ("LD", vec![S("R"), S("A")], 2),
            2 => ("LD", vec![S("A"), S("I")], 2),
            3 => ("LD", vec![S("A"), S("R")], 2),
            4 => ("RRD", vec![], 2),
            5 => ("RLD", vec![], 2),
            _ => ("NOP*", vec![], 2),
        },
        (2, z) if z < 4 && y >= 4 => {
            let t = [
                ["LDI", "CPI", "INI", "OUTI"],
                ["LDD", "CPD", "IND", "OUTD"],
                ["LDIR", "CPIR", "INIR", "OTIR"],
                ["LDDR", "CPDR", "INDR", "OTDR"],
            ];
            (t[y - 4][z], vec![], 2)
        }
        _ => ("NOP*", vec![], 2),
    }
}
