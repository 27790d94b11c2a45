//! ooxffi: calls the exported C functions of rs_ffi as a C caller would and records one event per
//! call (status, message, out pointer). Built with AddressSanitizer; contains no oracle.
//!
//! usage: ooxffi run CASES.jsonl EVENTS.jsonl
extern crate draviavemal_openxml_office_ffi as _;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::ptr::{null, null_mut};

extern "C" {
    fn excel_create(f: *const c_char, b: *const u8, n: usize, o: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn word_create(f: *const c_char, b: *const u8, n: usize, o: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn power_point_create(f: *const c_char, b: *const u8, n: usize, o: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn excel_add_sheet(x: *const c_void, n: *const c_char, o: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn excel_get_sheet(x: *const c_void, n: *const c_char, o: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn excel_rename_sheet(x: *const c_void, a: *const c_char, b: *const c_char, e: *mut *const c_char) -> i8;
    fn excel_hide_sheet(x: *const c_void, n: *const c_char, e: *mut *const c_char) -> i8;
    fn get_style_id_mut(x: *const c_void, b: *const u8, n: usize, o: *mut *mut u32, e: *mut *const c_char) -> i8;
    fn excel_save_as(x: *const c_void, f: *const c_char, e: *mut *const c_char) -> i8;
    fn word_save_as(x: *const c_void, f: *const c_char, e: *mut *const c_char) -> i8;
    fn power_point_save_as(x: *const c_void, f: *const c_char, e: *mut *const c_char) -> i8;
}

/// Text argument: null, "text" or {"hex": ".."} (bytes that need not be UTF-8)
fn arg(v: &Value) -> Option<CString> {
    if let Some(t) = v.as_str() {
        return Some(CString::new(t).unwrap());
    }
    v["hex"].as_str().map(|h| {
        let bytes: Vec<u8> = (0..h.len() / 2)
            .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        CString::new(bytes).unwrap()
    })
}
fn ptr(a: &Option<CString>) -> *const c_char {
    a.as_ref().map_or(null(), |x| x.as_ptr())
}
/// Buffer argument: heap memory of exactly that size, so that any read beyond is seen
fn buffer(op: &Value, build: impl Fn(&mut flatbuffers::FlatBufferBuilder)) -> Option<Box<[u8]>> {
    match op["buf"].as_str().unwrap_or("ok") {
        "null" => None,
        "empty" => Some(Box::new([])),
        "ok" => {
            let mut b = flatbuffers::FlatBufferBuilder::new();
            build(&mut b);
            Some(b.finished_data().to_vec().into_boxed_slice())
        }
        "short" => {
            let mut b = flatbuffers::FlatBufferBuilder::new();
            build(&mut b);
            let d = b.finished_data();
            let n = op["keep"].as_u64().unwrap_or(4) as usize;
            Some(d[..n.min(d.len().saturating_sub(1))].to_vec().into_boxed_slice())
        }
        hex => Some(arg(&json!({ "hex": hex })).unwrap().into_bytes().into_boxed_slice()),
    }
}
fn build_props(b: &mut flatbuffers::FlatBufferBuilder, mem: bool, two: bool) {
    let t = b.start_table();
    b.push_slot::<bool>(4, mem, false);
    if two {
        b.push_slot::<bool>(6, true, false);
    }
    let t = b.end_table(t);
    b.finish_minimal(t);
}
fn build_style(b: &mut flatbuffers::FlatBufferBuilder, st: &Value) {
    let text = |b: &mut flatbuffers::FlatBufferBuilder, k: &str| st[k].as_str().map(|x| {
        let o = b.create_string(x);
        flatbuffers::WIPOffset::<&str>::new(o.value())
    });
    let custom = text(b, "custom_number_format");
    let family = text(b, "font_family");
    let bg = text(b, "background_color");
    let fg = text(b, "foreground_color");
    let t = b.start_table();
    b.push_slot::<u16>(4, st["number_format"].as_u64().unwrap_or(0) as u16, 0);
    if let Some(x) = custom { b.push_slot_always(6, x); }
    if let Some(x) = family { b.push_slot_always(18, x); }
    b.push_slot::<u8>(20, st["font_size"].as_u64().unwrap_or(0) as u8, 0);
    for (slot, k) in [(24, "is_bold"), (26, "is_italic"), (28, "is_underline"), (30, "is_double_underline"), (32, "is_wrap_text")] {
        b.push_slot::<bool>(slot, st[k].as_bool().unwrap_or(false), false);
    }
    if let Some(x) = bg { b.push_slot_always(34, x); }
    if let Some(x) = fg { b.push_slot_always(36, x); }
    let t = b.end_table(t);
    b.finish_minimal(t);
}

struct Out {
    obj: *mut c_void,
    err: *const c_char,
}
impl Out {
    fn new() -> Self {
        Out { obj: null_mut(), err: null() }
    }
    fn event(self, status: i8) -> Value {
        let msg = if self.err.is_null() {
            Value::Null
        } else {
            let c = unsafe { CString::from_raw(self.err as *mut c_char) };
            json!(c.to_string_lossy())
        };
        json!({"status": status, "err": msg, "out": !self.obj.is_null()})
    }
}

fn run_case(case: &Value, out: &mut impl Write) {
    let mut handles: HashMap<String, (String, *mut c_void)> = HashMap::new();
    for (i, op) in case["ops"].as_array().unwrap().iter().enumerate() {
        let name = op["op"].as_str().unwrap();
        let h = op["p"].as_str().unwrap_or("");
        let p: *const c_void = handles.get(h).map_or(null(), |x| x.1 as *const c_void);
        let mut o = Out::new();
        let mut extra = Value::Null;
        // The next call may end the process
        writeln!(out, "{}", json!({"c": case["id"], "i": i, "begin": name})).unwrap();
        out.flush().unwrap();
        let status = match name {
            "create" => {
                let kind = op["kind"].as_str().unwrap();
                let file = arg(&op["file"]);
                let mem = op["mem"].as_bool().unwrap_or(true);
                let buf = buffer(op, |b| build_props(b, mem, kind == "excel"));
                let (bp, bn) = buf.as_ref().map_or((null(), 0), |x| (x.as_ptr(), x.len()));
                let f = match kind {
                    "excel" => excel_create,
                    "word" => word_create,
                    _ => power_point_create,
                };
                let st = unsafe { f(ptr(&file), bp, bn, &mut o.obj, &mut o.err) };
                if !o.obj.is_null() {
                    handles.insert(h.to_string(), (kind.to_string(), o.obj));
                }
                st
            }
            "add_sheet" => {
                let n = arg(&op["name"]);
                unsafe { excel_add_sheet(p, ptr(&n), &mut o.obj, &mut o.err) }
            }
            "get_sheet" => {
                let n = arg(&op["name"]);
                unsafe { excel_get_sheet(p, ptr(&n), &mut o.obj, &mut o.err) }
            }
            "hide" => {
                let n = arg(&op["name"]);
                unsafe { excel_hide_sheet(p, ptr(&n), &mut o.err) }
            }
            "rename" => {
                let (a, b) = (arg(&op["old"]), arg(&op["new"]));
                unsafe { excel_rename_sheet(p, ptr(&a), ptr(&b), &mut o.err) }
            }
            "style" => {
                let buf = buffer(op, |b| build_style(b, &op["style"]));
                let (bp, bn) = buf.as_ref().map_or((null(), 0), |x| (x.as_ptr(), x.len()));
                let mut id: *mut u32 = null_mut();
                let st = unsafe { get_style_id_mut(p, bp, bn, &mut id, &mut o.err) };
                if !id.is_null() {
                    extra = json!(unsafe { *Box::from_raw(id) });
                }
                st
            }
            "save" => {
                let n = arg(&op["path"]);
                let kind = handles.get(h).map_or("excel".to_string(), |x| x.0.clone());
                let kind = op["kind"].as_str().unwrap_or(&kind).to_string();
                let f = match kind.as_str() {
                    "excel" => excel_save_as,
                    "word" => word_save_as,
                    _ => power_point_save_as,
                };
                // A save with both arguments consumes the handle
                if n.is_some() {
                    handles.remove(h);
                }
                unsafe { f(p, ptr(&n), &mut o.err) }
            }
            x => panic!("driver: unknown op {}", x),
        };
        let mut ev = o.event(status);
        ev["c"] = case["id"].clone();
        ev["i"] = json!(i);
        ev["op"] = json!(name);
        ev["style"] = extra;
        ev["ts"] = json!(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|x| x.as_secs_f64()).unwrap_or(0.0));
        writeln!(out, "{}", ev).unwrap();
    }
    // Handles never saved are leaked by design (no release call): keep them reachable
    for (_, (_, p)) in handles {
        std::mem::forget(p);
        LEFT.lock().unwrap().push(p as usize);
    }
    let _ = CStr::from_bytes_with_nul(b"\0");
}
static LEFT: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());

fn main() {
    let a: Vec<String> = std::env::args().collect();
    assert!(a.len() == 4 && a[1] == "run", "usage: ooxffi run CASES EVENTS");
    let mut out = File::create(&a[3]).unwrap();
    for line in BufReader::new(File::open(&a[2]).unwrap()).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        run_case(&case, &mut out);
        writeln!(out, "{}", json!({"c": case["id"], "end": true})).unwrap();
    }
    println!("left {}", LEFT.lock().unwrap().len());
}
