//! ooxdrv: executes scripted API histories against the real library and records
//! one event per call (call result, panic, heap) - it contains no oracle.
//!
//! usage: ooxdrv run CASES.jsonl EVENTS.jsonl
use draviavemal_openxml_office as ox;
use ox::document_2007::{Word, WordPropertiesModel};
use ox::global_2007::traits::Enum;
use ox::presentation_2007::{PowerPoint, PowerPointPropertiesModel};
use ox::spreadsheet_2007::models::*;
use ox::spreadsheet_2007::parts::WorkSheet;
use ox::spreadsheet_2007::{Excel, ExcelPropertiesModel};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};

struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
fn grew(n: isize) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grew(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size() as isize, Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            grew(n as isize - l.size() as isize);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

enum Doc {
    Xl(Excel),
    Wd(Word),
    Pp(PowerPoint),
}
#[derive(Default)]
struct World {
    docs: HashMap<String, Doc>,
    sheets: HashMap<String, WorkSheet>,
    styles: HashMap<String, StyleId>,
}

fn s(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}
fn os(v: &Value, k: &str) -> Option<String> {
    v[k].as_str().map(|x| x.to_string())
}
fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or(false)
}
fn ob(v: &Value, k: &str) -> Option<bool> {
    v[k].as_bool()
}

macro_rules! pick { ($v:expr, $t:ident, $($n:ident),+) => { match $v { $(stringify!($n) => $t::$n,)+ x => panic!("driver: unknown {} {}", stringify!($t), x) } } }

fn border_style(x: &str) -> BorderStyleValues {
    pick!(
        x,
        BorderStyleValues,
        None,
        Thin,
        Thick,
        Dotted,
        Double,
        Dashed,
        DashDot,
        DashDotDot,
        Medium,
        MediumDashed,
        MediumDashDot,
        MediumDashDotDot,
        SlantDashDot,
        Hair
    )
}
fn number_format(x: &str) -> NumberFormatValues {
    pick!(
        x,
        NumberFormatValues,
        General,
        Integer,
        DecimalTwoPlaces,
        ThousandsSeparator,
        ThousandsSeparatorTwoDecimals,
        CurrencyNoDecimals,
        CurrencyNoDecimalsRed,
        CurrencyTwoDecimals,
        CurrencyTwoDecimalsRed,
        Percentage,
        PercentageTwoDecimals,
        Scientific,
        FractionOneDigit,
        FractionTwoDigits,
        DateMMDDYY,
        DateDMmmYY,
        DateDMmm,
        DateMmmYY,
        Time12Hour,
        Time12HourWithSeconds,
        Time24Hour,
        Time24HourWithSeconds,
        DateTimeMMDDYY,
        AccountingNoDecimals,
        AccountingNoDecimalsRed,
        AccountingTwoDecimals,
        AccountingTwoDecimalsRed,
        AccountingNegativeInParentheses,
        AccountingTwoDecimalsNegativeInParentheses,
        AccountingAlignedSymbols,
        AccountingAlignedSymbolsTwoDecimals,
        TimeMinutesSeconds,
        TimeHoursMinutesSeconds,
        ElapsedTimeWithFractions,
        ScientificOneDecimal,
        TextFormat,
        Custom
    )
}
fn color_type(x: &str) -> ColorSettingTypeValues {
    pick!(x, ColorSettingTypeValues, Indexed, Theme, Rgb)
}
fn halign(x: &str) -> HorizontalAlignmentValues {
    pick!(
        x,
        HorizontalAlignmentValues,
        None,
        LEFT,
        CENTER,
        RIGHT,
        JUSTIFY
    )
}
fn valign(x: &str) -> VerticalAlignmentValues {
    pick!(x, VerticalAlignmentValues, None, Top, Middle, Bottom)
}
fn pattern(x: &str) -> PatternTypeValues {
    pick!(x, PatternTypeValues, None, Gray125, Solid)
}
fn cell_type(x: &str) -> CellDataType {
    pick!(
        x,
        CellDataType,
        Auto,
        Number,
        Boolean,
        String,
        ShareString,
        InlineString,
        Error
    )
}
fn color(v: &Value) -> ColorSetting {
    let mut c = ColorSetting::default();
    c.color_setting_type = color_type(v[0].as_str().unwrap());
    c.value = v[1].as_str().unwrap().to_string();
    c
}
fn border(v: &Value, k: &str) -> BorderSetting {
    let mut out = BorderSetting::default();
    if let Some(st) = v[k]["style"].as_str() {
        out.style = border_style(st);
    }
    if v[k]["color"].is_array() {
        out.border_color = Some(color(&v[k]["color"]));
    }
    out
}
fn style_setting(v: &Value) -> StyleSetting {
    let mut x = StyleSetting::default();
    if let Some(n) = v["number_format"].as_str() {
        x.number_format = number_format(n);
    }
    x.custom_number_format = os(v, "custom_number_format");
    x.border_left = border(v, "border_left");
    x.border_right = border(v, "border_right");
    x.border_top = border(v, "border_top");
    x.border_bottom = border(v, "border_bottom");
    x.border_diagonal = border(v, "border_diagonal");
    if let Some(n) = os(v, "font_family") {
        x.font_family = n;
    }
    if let Some(n) = v["font_size"].as_u64() {
        x.font_size = n as u8;
    }
    if v["text_color"].is_array() {
        x.text_color = color(&v["text_color"]);
    }
    x.is_bold = b(v, "is_bold");
    x.is_italic = b(v, "is_italic");
    x.is_underline = b(v, "is_underline");
    x.is_double_underline = b(v, "is_double_underline");
    x.is_wrap_text = b(v, "is_wrap_text");
    x.background_color = os(v, "background_color");
    x.foreground_color = os(v, "foreground_color");
    if let Some(n) = v["horizontal_alignment"].as_str() {
        x.horizontal_alignment = halign(n);
    }
    if let Some(n) = v["vertical_alignment"].as_str() {
        x.vertical_alignment = valign(n);
    }
    x
}

/// A number, also those JSON has no numeral for ("NaN", "inf", "1e39")
fn num(v: &Value) -> Option<f32> {
    v.as_f64()
        .map(|x| x as f32)
        .or_else(|| v.as_str().and_then(|x| x.parse().ok()))
}

#[repr(C)]
struct TimeSpec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, ts: *mut TimeSpec) -> i32;
}
/// CPU time of this thread in microseconds
fn cpu() -> i64 {
    let mut t = TimeSpec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec * 1_000_000 + t.nsec / 1000
}

type R = Result<Value, String>;
fn e<E: std::fmt::Debug>(x: E) -> String {
    let m = format!("{:?}", x);
    m.chars().take(400).collect()
}
fn ok<T, E: std::fmt::Debug>(r: Result<T, E>) -> R {
    r.map(|_| Value::Null).map_err(e)
}

fn fd_list() -> Vec<String> {
    let mut out = Vec::new();
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for x in d.flatten() {
            if let Ok(t) = std::fs::read_link(x.path()) {
                out.push(t.to_string_lossy().to_string());
            }
        }
    }
    out.retain(|x| !x.ends_with("/fd"));
    out.sort();
    out
}

impl World {
    fn excel(&mut self, v: &Value) -> &mut Excel {
        match self.docs.get_mut(v["doc"].as_str().unwrap_or("d")) {
            Some(Doc::Xl(x)) => x,
            _ => panic!("driver: no such workbook"),
        }
    }
    fn sheet(&mut self, v: &Value) -> &mut WorkSheet {
        self.sheets
            .get_mut(v["h"].as_str().unwrap_or("h"))
            .expect("driver: no such sheet handle")
    }
    fn style(&self, v: &Value, k: &str) -> Option<StyleId> {
        v[k].as_str()
            .map(|x| self.styles.get(x).expect("driver: no such style").clone())
    }
    fn cells(&self, v: &Value) -> Vec<CellProperties> {
        v["cells"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|c| {
                        let mut x = CellProperties::default();
                        x.value = os(c, "v");
                        x.formula = os(c, "f");
                        if let Some(t) = c["t"].as_str() {
                            x.data_type = cell_type(t);
                        }
                        x.style_id = self.style(c, "s");
                        x
                    })
                    .collect()
            })
            .unwrap_or_default()
    }
    fn precheck(&self, v: &Value) -> bool {
        // a call on something an earlier (failed) call did not produce is skipped
        let d = v["doc"].as_str().unwrap_or("d");
        let h = v["h"].as_str().unwrap_or("h");
        match v["op"].as_str().unwrap_or("") {
            "open" | "sample" | "fds" | "heap" | "enum_all" | "note" | "sleep" | "copy" | "remove"
            | "mkdir" | "ls" => true,
            "row_ref" | "row_idx" | "row_props" | "col_ref" | "col_idx" | "close"
            | "delete_sheet" => self.sheets.contains_key(h),
            "save" | "drop_doc" => self.docs.contains_key(d),
            _ => matches!(self.docs.get(d), Some(Doc::Xl(_))),
        }
    }
    /// Replaces `{"nth": i}` by the name the library lists at that position
    fn resolve(&mut self, op: &mut Value) -> Value {
        let mut out = serde_json::Map::new();
        for k in ["name", "old", "new"] {
            if let Some(n) = op[k]["nth"].as_u64() {
                let list = catch_unwind(AssertUnwindSafe(|| self.excel(op).list_sheet_names()));
                let name = match list {
                    Ok(Ok(l)) => l.get(n as usize).cloned().unwrap_or_default(),
                    _ => String::new(),
                };
                op[k] = json!(name);
                out.insert(k.into(), json!(name));
            }
        }
        Value::Object(out)
    }
    fn step(&mut self, v: &Value) -> R {
        let name = v["op"].as_str().unwrap_or("");
        match name {
            "open" => {
                let p = os(v, "path");
                let mem = v["mem"].as_bool().unwrap_or(true);
                let doc = match v["kind"].as_str().unwrap_or("excel") {
                    "excel" => {
                        let mut m = ExcelPropertiesModel::default();
                        m.is_in_memory = mem;
                        Excel::new(p, m).map(Doc::Xl).map_err(e)?
                    }
                    "word" => {
                        let m: WordPropertiesModel = Word::default();
                        Word::new(p, m).map(Doc::Wd).map_err(e)?
                    }
                    _ => {
                        let m: PowerPointPropertiesModel = PowerPoint::default();
                        PowerPoint::new(p, m).map(Doc::Pp).map_err(e)?
                    }
                };
                self.docs
                    .insert(v["doc"].as_str().unwrap_or("d").into(), doc);
                Ok(Value::Null)
            }
            "save" => {
                let path = s(v, "path");
                match self
                    .docs
                    .remove(v["doc"].as_str().unwrap_or("d"))
                    .expect("driver: no doc")
                {
                    Doc::Xl(x) => ok(x.save_as(&path)),
                    Doc::Wd(x) => ok(x.save_as(&path)),
                    Doc::Pp(x) => ok(x.save_as(&path)),
                }
            }
            "drop_doc" => {
                self.docs.remove(v["doc"].as_str().unwrap_or("d"));
                Ok(Value::Null)
            }
            "add_sheet" => {
                let n = os(v, "name");
                let h = self.excel(v).add_sheet_mut(n).map_err(e)?;
                self.keep(v, h)
            }
            "get_sheet" => {
                let n = s(v, "name");
                let h = self.excel(v).get_worksheet_mut(n).map_err(e)?;
                self.keep(v, h)
            }
            "rename" => {
                let (a, c) = (s(v, "old"), s(v, "new"));
                ok(self.excel(v).rename_sheet_name_mut(a, c))
            }
            "active" => {
                let n = s(v, "name");
                ok(self.excel(v).set_active_sheet_mut(n))
            }
            "hide" => {
                let n = s(v, "name");
                ok(self.excel(v).hide_sheet_mut(n))
            }
            "visibility" => ok(self.excel(v).set_visibility_mut(b(v, "on"))),
            "minimize" => ok(self.excel(v).minimize_workbook_mut(b(v, "on"))),
            "hide_tabs" => ok(self.excel(v).hide_sheet_tabs_mut(b(v, "on"))),
            "hide_vscroll" => ok(self.excel(v).hide_vertical_scroll_mut(b(v, "on"))),
            "hide_hscroll" => ok(self.excel(v).hide_horizontal_scroll_mut(b(v, "on"))),
            "list" => self
                .excel(v)
                .list_sheet_names()
                .map(|x| json!(x))
                .map_err(e),
            "style" => {
                let st = style_setting(&v["style"]);
                let id = self.excel(v).get_style_id_mut(st).map_err(e)?;
                let n = id.get_id();
                self.styles.insert(s(v, "id"), id);
                Ok(json!(n))
            }
            "row_ref" => {
                let c = self.cells(v);
                let r = s(v, "ref");
                ok(self.sheet(v).set_row_value_ref_mut(&r, c))
            }
            "row_idx" => {
                let c = self.cells(v);
                let (r, k) = (
                    v["row"].as_u64().unwrap() as u32,
                    v["col"].as_u64().unwrap() as u16,
                );
                ok(self.sheet(v).set_row_value_index_mut(r, k, c))
            }
            "row_props" => {
                let mut p = RowProperties::default();
                let q = &v["p"];
                p.height = num(&q["height"]);
                p.hidden = ob(q, "hidden");
                p.thick_top = ob(q, "thick_top");
                p.thick_bottom = ob(q, "thick_bottom");
                p.style_id = self.style(q, "style");
                let r = v["row"].as_u64().unwrap() as u32;
                ok(self.sheet(v).set_row_index_properties_mut(&r, p))
            }
            "col_ref" | "col_idx" => {
                let q = &v["p"];
                let p = if q.is_null() {
                    None
                } else {
                    let mut p = ColumnProperties::default();
                    p.width = num(&q["width"]);
                    p.hidden = ob(q, "hidden");
                    p.best_fit = ob(q, "best_fit");
                    p.style_id = self.style(q, "style");
                    Some(p)
                };
                if name == "col_ref" {
                    let r = s(v, "ref");
                    ok(self.sheet(v).set_column_ref_properties_mut(&r, p))
                } else {
                    let c = v["col"].as_u64().unwrap() as u16;
                    ok(self.sheet(v).set_column_index_properties_mut(&c, p))
                }
            }
            "close" => {
                self.sheets.remove(v["h"].as_str().unwrap_or("h"));
                Ok(Value::Null)
            }
            "delete_sheet" => {
                let h = self
                    .sheets
                    .remove(v["h"].as_str().unwrap_or("h"))
                    .expect("driver: no handle");
                ok(h.delete_sheet_mut())
            }
            "sample" => {
                let live = LIVE.load(Relaxed);
                let tasks = std::fs::read_dir("/proc/self/task").map_err(e)?.count();
                let fds = fd_list();
                Ok(json!({"threads": tasks, "fds": fds, "heap": live}))
            }
            "fds" => Ok(json!(fd_list())),
            "heap" => Ok(json!(LIVE.load(Relaxed))),
            "enum_all" => Ok(enum_all(&v["tokens"])),
            "note" => Ok(Value::Null),
            "sleep" => {
                std::thread::sleep(std::time::Duration::from_millis(v["ms"].as_u64().unwrap_or(0)));
                Ok(Value::Null)
            }
            "copy" => std::fs::copy(s(v, "from"), s(v, "to"))
                .map(|_| Value::Null)
                .map_err(e),
            "remove" => ok(std::fs::remove_file(s(v, "path"))),
            "mkdir" => ok(std::fs::create_dir_all(s(v, "path"))),
            "ls" => {
                let mut out: Vec<String> = std::fs::read_dir(s(v, "path"))
                    .map_err(e)?
                    .flatten()
                    .map(|x| x.file_name().to_string_lossy().to_string())
                    .collect();
                out.sort();
                Ok(json!(out))
            }
            x => panic!("driver: unknown op {}", x),
        }
    }
    fn keep(&mut self, v: &Value, h: WorkSheet) -> R {
        // an older handle under the same key is dropped after the new one was obtained
        let old = self.sheets.insert(v["h"].as_str().unwrap_or("h").into(), h);
        drop(old);
        Ok(Value::Null)
    }
    fn clear(&mut self) {
        self.sheets.clear();
        self.docs.clear();
        self.styles.clear();
    }
}

fn enum_all(tokens: &Value) -> Value {
    let mut out = serde_json::Map::new();
    macro_rules! fam { ($name:expr, $t:ident, $f:ident, [$($n:ident),+]) => {{
        let mut w = serde_json::Map::new();
        $( w.insert(stringify!($n).into(), json!($t::get_string($t::$n))); )+
        let mut rd = serde_json::Map::new();
        for tok in tokens[$name].as_array().map(|x| x.clone()).unwrap_or_default() {
            let tok = tok.as_str().unwrap().to_string();
            let x = $t::get_enum(&tok);
            rd.insert(tok, json!([format!("{:?}", x), $t::get_string(x)]));
        }
        let _ = $f;
        out.insert($name.into(), json!({"write": w, "read": rd}));
    }}}
    fam!(
        "cell",
        CellDataType,
        cell_type,
        [
            Auto,
            Number,
            Boolean,
            String,
            ShareString,
            InlineString,
            Error
        ]
    );
    fam!(
        "border",
        BorderStyleValues,
        border_style,
        [
            None,
            Thin,
            Thick,
            Dotted,
            Double,
            Dashed,
            DashDot,
            DashDotDot,
            Medium,
            MediumDashed,
            MediumDashDot,
            MediumDashDotDot,
            SlantDashDot,
            Hair
        ]
    );
    fam!(
        "halign",
        HorizontalAlignmentValues,
        halign,
        [None, LEFT, CENTER, RIGHT, JUSTIFY]
    );
    fam!(
        "valign",
        VerticalAlignmentValues,
        valign,
        [None, Top, Middle, Bottom]
    );
    fam!(
        "color",
        ColorSettingTypeValues,
        color_type,
        [Indexed, Theme, Rgb]
    );
    fam!(
        "pattern",
        PatternTypeValues,
        pattern,
        [None, Gray125, Solid]
    );
    fam!(
        "numfmt",
        NumberFormatValues,
        number_format,
        [
            General,
            Integer,
            DecimalTwoPlaces,
            ThousandsSeparator,
            ThousandsSeparatorTwoDecimals,
            CurrencyNoDecimals,
            CurrencyNoDecimalsRed,
            CurrencyTwoDecimals,
            CurrencyTwoDecimalsRed,
            Percentage,
            PercentageTwoDecimals,
            Scientific,
            FractionOneDigit,
            FractionTwoDigits,
            DateMMDDYY,
            DateDMmmYY,
            DateDMmm,
            DateMmmYY,
            Time12Hour,
            Time12HourWithSeconds,
            Time24Hour,
            Time24HourWithSeconds,
            DateTimeMMDDYY,
            AccountingNoDecimals,
            AccountingNoDecimalsRed,
            AccountingTwoDecimals,
            AccountingTwoDecimalsRed,
            AccountingNegativeInParentheses,
            AccountingTwoDecimalsNegativeInParentheses,
            AccountingAlignedSymbols,
            AccountingAlignedSymbolsTwoDecimals,
            TimeMinutesSeconds,
            TimeHoursMinutesSeconds,
            ElapsedTimeWithFractions,
            ScientificOneDecimal,
            TextFormat,
            Custom
        ]
    );
    Value::Object(out)
}

type Log = Arc<Mutex<File>>;
fn emit(log: &Log, v: Value) {
    let mut line = v.to_string();
    line.push('\n');
    let mut f = log.lock().unwrap();
    let _ = f.write_all(line.as_bytes());
}

/// Runs one list of operations; `t` tags the events of one thread.
fn run_ops(case: &Value, ops: &[Value], t: usize, log: &Log, barrier: Option<&Barrier>) {
    let mut w = World::default();
    let mut poisoned = false;
    for (i, op) in ops.iter().enumerate() {
        if op["op"] == "barrier" {
            if let Some(x) = barrier {
                x.wait();
            }
            continue;
        }
        if poisoned && op["op"] != "sample" {
            continue;
        }
        if !w.precheck(op) {
            emit(log, json!({"c": case, "t": t, "i": i, "r": "skip"}));
            continue;
        }
        let mut op = op.clone();
        let names = w.resolve(&mut op);
        let op = &op;
        let base = LIVE.load(Relaxed);
        PEAK.store(base, Relaxed);
        let now = || {
            std::time::SystemTime::now()
                .duration_since(std::time::UNIX_EPOCH)
                .map(|x| x.as_secs_f64())
                .unwrap_or(0.0)
        };
        let t0 = now();
        let start = cpu();
        let res = catch_unwind(AssertUnwindSafe(|| w.step(op)));
        let used = cpu() - start;
        let peak = PEAK.load(Relaxed) - base;
        let ts = now();
        let mut ev = match res {
            Ok(Ok(v)) => {
                json!({"c": case, "t": t, "i": i, "r": "ok", "v": v, "peak": peak, "t0": t0, "ts": ts})
            }
            Ok(Err(m)) => {
                json!({"c": case, "t": t, "i": i, "r": "err", "m": m, "peak": peak, "ts": ts})
            }
            Err(_) => {
                poisoned = true;
                let m = PANIC.with(|p| p.borrow().clone());
                json!({"c": case, "t": t, "i": i, "r": "panic", "m": m})
            }
        };
        ev["cpu"] = json!(used);
        if names.as_object().is_some_and(|x| !x.is_empty()) {
            ev["names"] = names;
        }
        emit(log, ev);
    }
    let res = catch_unwind(AssertUnwindSafe(|| w.clear()));
    if res.is_err() {
        let m = PANIC.with(|p| p.borrow().clone());
        emit(
            log,
            json!({"c": case, "t": t, "i": -1, "r": "panic", "m": m}),
        );
        std::mem::forget(w);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(info.payload().downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 || args[1] != "run" {
        eprintln!("usage: ooxdrv run CASES EVENTS");
        std::process::exit(64);
    }
    let cases = BufReader::new(File::open(&args[2]).expect("driver: cases"));
    File::create(&args[3]).expect("driver: events");
    // Every thread has a log of its own: a shared lock would order the calls of the threads and so hide races
    let open_log = || -> Log {
        Arc::new(Mutex::new(
            File::options()
                .append(true)
                .open(&args[3])
                .expect("driver: events"),
        ))
    };
    let log = open_log();
    for line in cases.lines() {
        let line = line.expect("driver: read case");
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("driver: parse case");
        let id = case["id"].clone();
        emit(&log, json!({"c": id, "begin": true}));
        if let Some(par) = case["parallel"].as_array() {
            let n = par.len();
            let barrier = Arc::new(Barrier::new(n));
            let mut js = Vec::new();
            for (t, ops) in par.iter().enumerate() {
                let (id, ops, log, barrier) = (
                    id.clone(),
                    ops.as_array().unwrap().clone(),
                    open_log(),
                    barrier.clone(),
                );
                js.push(
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn(move || {
                            barrier.wait();
                            run_ops(&id, &ops, t, &log, None);
                        })
                        .unwrap(),
                );
            }
            for j in js {
                let _ = j.join();
            }
        } else {
            let ops = case["ops"].as_array().cloned().unwrap_or_default();
            run_ops(&id, &ops, 0, &log, None);
        }
        emit(
            &log,
            json!({"c": id, "end": true, "heap": LIVE.load(Relaxed)}),
        );
    }
}
