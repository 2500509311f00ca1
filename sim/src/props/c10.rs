//! C10: damaged snapshots.
use crate::cpu::Snap;
use crate::cpusc::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::{hash2, hash3, Rng};
use serde_json::Value;

pub struct C10;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    /// must be an error
    Refused,
    /// an error or a valid processor
    Either,
}

const MANDATORY: [&str; 14] = ["af", "afAlt", "regs", "regsAlt", "index", "pc", "sp", "lastEi", "ir", "im", "iff1", "iff2", "halt", "prefix"];
const ALIASED: [(&str, &str); 3] = [("afAlt", "af_alt"), ("regsAlt", "regs_alt"), ("lastEi", "last_ei")];

fn render(o: &[(String, Value)]) -> Vec<u8> {
    let mut s = String::from("{");
    for (i, (k, v)) in o.iter().enumerate() {
        s += &format!("{}{}:{}", if i > 0 { "," } else { "" }, Value::from(k.as_str()), v);
    }
    (s + "}").into_bytes()
}

/// Strings a damaged text snapshot may hold where a number or a name was.
fn junk_str(rng: &mut Rng) -> String {
    (0..rng.below(5)).map(|_| *rng.pick(&["$", "0x", "0X", "+", "-", " ", "FF", "1", "12345", "65536", "g", "é", "€", "\u{0}", "1", "Z80", "Mode1", "\u{1F600}", "_", "#"])).collect()
}

fn junk(rng: &mut Rng) -> Value {
    if rng.chance(1, 4) {
        return Value::from(junk_str(rng));
    }
    match rng.below(16) {
        0 => Value::Null,
        1 => Value::from(65536u64),
        2 => Value::from(u64::MAX),
        3 => Value::from(-32769i64),
        4 => Value::from(i64::MIN),
        5 => Value::from(256),
        6 => Value::from(-1),
        7 => serde_json::json!([1, 2, 3]),
        8 => serde_json::json!([1]),
        9 => serde_json::json!([256, 0]),
        10 => serde_json::json!({}),
        11 => Value::from("0x1FFFF"),
        12 => Value::from("+12"),
        13 => Value::from("Mode3"),
        14 => Value::from(1.5),
        _ => Value::from(rng.chance(1, 2)),
    }
}

/// One damaged snapshot: format, bytes, what must happen, what was done.
fn damage(rng: &mut Rng, json: &[u8], bin: &[u8], any: bool) -> (Snap, Vec<u8>, Want, &'static str) {
    if rng.chance(1, 2) {
        // binary
        let mut d = bin.to_vec();
        let n = d.len() as u64;
        match rng.below(6) {
            0 => {
                d.truncate(rng.below(n) as usize);
                return (Snap::Bincode, d, Want::Refused, "truncated binary");
            }
            1 => {
                let k = rng.below(n) as usize;
                d[k] ^= 1 << rng.below(8);
                return (Snap::Bincode, d, Want::Either, "bit flip in binary");
            }
            2 => {
                for _ in 0..rng.range(2, 8) {
                    let k = rng.below(n) as usize;
                    d[k] = rng.corner8();
                }
                return (Snap::Bincode, d, Want::Either, "overwritten binary");
            }
            3 => {
                let k = rng.below(n) as usize;
                d.remove(k);
                return (Snap::Bincode, d, Want::Either, "lost byte in binary");
            }
            4 => {
                // the tag: a length and a name
                let k = rng.below(12) as usize;
                d[k] = rng.corner8();
                let bad = d[..8] != 4u64.to_le_bytes()[..] && d[..8] != 3u64.to_le_bytes()[..];
                return (Snap::Bincode, d, if bad { Want::Refused } else { Want::Either }, "damaged tag in binary");
            }
            _ => {
                let k = rng.below(n + 1) as usize;
                d.insert(k, rng.corner8());
                return (Snap::Bincode, d, Want::Either, "inserted byte in binary");
            }
        }
    }
    let v: Value = serde_json::from_slice(json).expect("own json");
    let mut o: Vec<(String, Value)> = v.as_object().expect("object").iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let n = o.len() as u64;
    let text = if rng.chance(1, 3) { Snap::Tree } else { Snap::Json };
    match rng.below(11) {
        0 => {
            let f = *rng.pick(&MANDATORY);
            o.retain(|(k, _)| k != f);
            (text, render(&o), Want::Refused, "missing mandatory field")
        }
        1 => {
            let mut c = o[rng.below(n) as usize].clone();
            if rng.chance(1, 2) {
                let (k, a) = *rng.pick(&ALIASED);
                c = (a.to_string(), o.iter().find(|(x, _)| x == k).expect("field").1.clone());
            }
            o.insert(rng.below(n + 1) as usize, c);
            (Snap::Json, render(&o), Want::Refused, "repeated field")
        }
        2 => {
            // an unknown value of an enumerated field
            let f = *rng.pick(&["im", "prefix", "type"]);
            let w = *rng.pick(&["", "Mode3", "mode0", "Xed", "xdd", "nmos", "NEC", "0", "NMOS\u{0}"]);
            if let Some(e) = o.iter_mut().find(|(k, _)| k == f) {
                e.1 = Value::from(w);
            }
            // a statically typed processor does not look at the type
            (text, render(&o), if f == "type" && !any { Want::Either } else { Want::Refused }, "unknown value")
        }
        3 => {
            let k = rng.below(n) as usize;
            o[k].1 = junk(rng);
            (text, render(&o), Want::Either, "retyped field")
        }
        4 => {
            let f = *rng.pick(&["regs", "regsAlt", "index", "flavour"]);
            let e = o.iter_mut().find(|(k, _)| k == f).expect("field");
            let m = e.1.as_object_mut().expect("object");
            let keys: Vec<String> = m.keys().cloned().collect();
            let k = rng.pick(&keys).clone();
            if rng.chance(1, 4) {
                m.remove(&k);
            } else {
                m[&k] = junk(rng);
            }
            (text, render(&o), Want::Either, "damaged nested field")
        }
        5 => {
            // out of range numbers, written out
            let f = *rng.pick(&["af", "afAlt", "pc", "sp", "memptr", "ir"]);
            let e = o.iter_mut().find(|(k, _)| k == f).expect("field");
            e.1 = match rng.below(8) {
                0 => Value::from(65536 + rng.below(1 << 40)),
                1 => Value::from(-32769 - rng.below(1 << 40) as i64),
                2 => Value::from(format!("{:x}", 65536 + rng.below(1 << 20))),
                3 => serde_json::json!([256 + rng.below(100), 1]),
                4 => Value::from("$"),
                5 => Value::from(format!("{}{:x}{}", rng.pick(&["", "0x", "$"]), rng.u8(), rng.pick(&["h", " ", "_", "x", "\u{660}", "g", "."]))),
                6 => Value::from(format!("{}{:x}", rng.pick(&["0X", "$0x", "0x$", "$$", " ", "#", "&", "h"]), rng.u8())),
                _ => Value::from("12 "),
            };
            (text, render(&o), Want::Refused, "out of range")
        }
        6 => {
            let mut d = json.to_vec();
            d.truncate(rng.below(d.len() as u64) as usize);
            (Snap::Json, d, Want::Refused, "truncated text")
        }
        7 => {
            let mut d = json.to_vec();
            let k = rng.below(d.len() as u64) as usize;
            d[k] ^= 1 << rng.below(8);
            (Snap::Json, d, Want::Either, "bit flip in text")
        }
        8 => {
            let mut d = json.to_vec();
            let k = rng.below(d.len() as u64) as usize;
            d[k] = *rng.pick(b"{}[]\":,0919-+eE.nul \\x\xFF");
            (Snap::Json, d, Want::Either, "overwritten text")
        }
        9 => {
            let mut d = json.to_vec();
            let (x, y) = (rng.below(d.len() as u64) as usize, rng.below(d.len() as u64) as usize);
            let part = d[x.min(y)..x.max(y)].to_vec();
            if rng.chance(1, 2) {
                d.drain(x.min(y)..x.max(y));
            } else {
                d.splice(x..x, part);
            }
            (Snap::Json, d, Want::Either, "spliced text")
        }
        _ => {
            // sequence form, possibly too short or too long
            let order = ["type", "af", "afAlt", "regs", "regsAlt", "index", "pc", "sp", "memptr", "lastEi", "ir", "im", "iff1", "iff2", "halt", "prefix", "r", "flavour"];
            let mut a: Vec<Value> = order.iter().map(|k| v[*k].clone()).collect();
            match rng.below(4) {
                0 => {
                    a.truncate(rng.below(18) as usize);
                    (text, Value::from(a).to_string().into_bytes(), Want::Refused, "short sequence")
                }
                1 => {
                    a[0] = Value::from("Z80");
                    (text, Value::from(a).to_string().into_bytes(), Want::Refused, "unknown value in a sequence")
                }
                2 => {
                    let k = rng.below(18) as usize;
                    a[k] = junk(rng);
                    (text, Value::from(a).to_string().into_bytes(), Want::Either, "retyped element")
                }
                _ => {
                    let (x, y) = (rng.below(18) as usize, rng.below(18) as usize);
                    a.swap(x, y);
                    (Snap::Json, Value::from(a).to_string().into_bytes(), Want::Either, "swapped elements")
                }
            }
        }
    }
}

impl Prop for C10 {
    const ID: &'static str = "C10";
    crate::cpu_prop_common!();
    fn gen(rng: &mut Rng, _i: u64) -> CpuSc {
        let mut p = Profile::BASE;
        p.ops = (2, 14);
        p.slice = 4;
        gen_sc(rng, &p)
    }
    fn run(sc: &CpuSc, st: &mut Stats) -> Res {
        let mut s = Side::new(sc);
        let mut rng = Rng::new(sc.extra);
        for (i, op) in sc.ops.iter().enumerate() {
            exec_op(&mut s, op, &mut |_, _| {});
            s.clear_logs();
            let (json, bin) = (s.cpu.save(Snap::Json), s.cpu.save(Snap::Bincode));
            for _ in 0..3 {
                let (how, d, want, what) = damage(&mut rng, &json, &bin, s.any);
                st.fault(what, 1);
                st.eat(crate::rng::hash_bytes(&d));
                let show = || match how {
                    Snap::Json | Snap::Tree => String::from_utf8_lossy(&d).into_owned(),
                    _ => format!("{:02x?}", d),
                };
                let mut n = make(s.fl, s.any);
                let r = match guard(std::panic::AssertUnwindSafe(|| n.restore(how, &d))) {
                    Ok(r) => r,
                    Err(e) => return fail("panic", format!("op {}: loading a snapshot ({}) panicked: {}: {}", i, what, e, show())),
                };
                st.cover(hash3(crate::rng::hash_bytes(what.as_bytes()), r.is_ok() as u64, r.as_ref().err().map_or(0, |e| crate::rng::hash_bytes(e.split(' ').take(4).collect::<String>().as_bytes()))));
                match r {
                    Err(_) => st.probe("refused", 1),
                    Ok(()) => {
                        st.probe("loaded", 1);
                        ensure!(want == Want::Either, "accepted", "op {}: snapshot with {} was loaded: {}", i, what, show());
                        // it must be savable to an equivalent snapshot in every format
                        for k in [Snap::Json, Snap::Bincode, Snap::Tree] {
                            let d2 = n.save(k);
                            // the type may have been damaged into another variant
                            let mut m = make(s.fl, s.any);
                            if let Err(e) = m.restore(k, &d2) {
                                return fail("resave", format!("op {}: processor loaded from a snapshot ({}) saves as something that does not load: {}", i, what, e));
                            }
                            ensure!(m.same(&*n) && m.save(k) == d2, "resave", "op {}: processor loaded from a snapshot ({}) is not saved equivalently: {}", i, what, show());
                        }
                        // and run normally
                        let mut f = s.fork();
                        f.cpu = n;
                        for k in 0..6u64 {
                            let h = hash2(sc.extra, k);
                            let r = guard(std::panic::AssertUnwindSafe(|| match h % 8 {
                                0 => {
                                    f.cpu.nmi(&mut f.bus, &mut f.clk);
                                }
                                1 => {
                                    f.cpu.irq(&mut f.bus, &mut f.clk);
                                }
                                2 | 3 => {
                                    let l = f.clk.ts + h % 64;
                                    f.cpu.limit(&mut f.bus, &mut f.clk, l);
                                }
                                _ => {
                                    f.cpu.step(&mut f.bus, &mut f.clk);
                                }
                            }));
                            if let Err(e) = r {
                                return fail("panic", format!("op {}: processor loaded from a snapshot ({}) panicked when run: {}: {}", i, what, e, show()));
                            }
                            st.steps += 1;
                        }
                        st.eat(f.clk.ts);
                    }
                }
            }
        }
        s.end(st);
        st.nontrivial = true;
        Ok(())
    }
    fn runs(t: Tier) -> u64 {
        match t {
            Tier::Quick => 100_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn rule() -> &'static str {
        "a run drives a machine and at every operation damages its snapshots in several ways (truncation, bit flips, overwritten, lost, inserted and spliced bytes, missing, repeated, retyped, out of range and unknown fields), loads them, runs what was loaded and saves it again; distinct = different execution digests"
    }
    fn state_measure() -> &'static str {
        "distinct (kind of damage, loaded or error class), hashed into a bitmap"
    }
    fn assumptions() -> &'static [&'static str] {
        &["a statically typed processor ignores the type name in the map form, as its tests do", "binary snapshots are loaded from memory: from a stream, bincode itself trusts the length of the tag"]
    }
}
