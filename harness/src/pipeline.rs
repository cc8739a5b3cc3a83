//! Runs the real Driver over a processing graph made of the repository's own nodes
//! (filters, column deletion, merge, split) and of recording/transforming test nodes.
use crate::{inject, log, val};
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldValue, Header, Row, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use chopper::error::{CliResult, Error};
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use serde_json::{json, Value};

fn int(v: &Value) -> i64 {
    v.as_i64()
        .unwrap_or_else(|| panic!("HARNESS: integer expected, got {}", v))
}

pub struct Src {
    pub id: usize,
    pub header: Header,
    pub rows: Vec<Row>,
    pub pos: usize,
    pub fail_at: i64,
}

impl Source for Src {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.fail_at == self.pos as i64 {
            log::push(json!({"e": "read", "i": self.id, "r": "err"}));
            return Err(inject::err(format!("INJ-r{}-", self.id)));
        }
        if self.pos >= self.rows.len() {
            log::push(json!({"e": "read", "i": self.id, "r": "eof"}));
            return Ok(None);
        }
        self.pos += 1;
        log::push(json!({"e": "read", "i": self.id, "r": "row"}));
        Ok(Some(self.rows[self.pos - 1].clone()))
    }
}

struct Rec {
    s: i64,
    werr: i64,
    ferr: i64,
    herr: bool,
    writes: i64,
    flushes: i64,
    tsv: Vec<u64>,
    /// rows have no number
    plain: bool,
}

impl HeaderSink for Rec {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        let n: Vec<Value> = header.field_names().iter().map(|s| val::codes(s)).collect();
        let t: Vec<&str> = header.field_types().iter().map(val::typ_tag).collect();
        log::push(json!({"e": "hdr", "s": self.s, "n": n, "t": t}));
        if self.herr {
            return Err(inject::err(format!("INJ-h{}-", self.s)));
        }
        Ok(self)
    }
}

impl DataSink for Rec {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        let row = &io_rows[0];
        let v: Vec<Value> = row.field_values.iter().map(val::enc).collect();
        let ts = match self.tsv.binary_search(&row.timestamp) {
            Ok(i) => i as i64 + 1,
            Err(_) => -1,
        };
        let org = match v.get(1) {
            _ if self.plain => json!(ts),
            Some(x) => x[1].clone(),
            None => json!(-1),
        };
        let w = self.writes;
        self.writes += 1;
        if w == self.werr {
            log::push(json!({"e": "werr", "s": self.s, "o": org}));
            return Err(inject::err(format!("INJ-w{}-", self.s)));
        }
        log::push(
            json!({"e": "row", "s": self.s, "ts": ts, "o": org, "v": v, "n": io_rows.len()}),
        );
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        let f = self.flushes;
        self.flushes += 1;
        if f == self.ferr {
            log::push(json!({"e": "flush", "s": self.s, "r": "err"}));
            return Err(inject::err(format!("INJ-f{}-", self.s)));
        }
        log::push(json!({"e": "flush", "s": self.s, "r": "ok"}));
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// transformations on the first ("code") column, mirrored by Apply in Pipeline.tla
#[derive(Clone)]
enum Tr {
    Mut(i64),
    Dup(i64),
    Fan(i64),
    Rep(i64),
    /// copies, each of them a number of places further in the table of times
    Late(i64, i64, i64),
    Drop(i64),
    Add(FieldValue),
}

struct Transform {
    tr: Tr,
    tsv: Vec<u64>,
    col: Option<(String, chopper::chopper::types::FieldType)>,
}

impl HeaderSink for Transform {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        if let Some((n, t)) = &self.col {
            header.field_names_mut().push(n.clone());
            header.field_types_mut().push(*t);
        }
        Ok(self)
    }
}

fn code(row: &Row) -> i64 {
    match row.field_values[0] {
        FieldValue::Long(x) => x,
        ref v => panic!("the first column of a row is {:?}", v),
    }
}

impl DataSink for Transform {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        let row = io_rows[0].clone();
        let c = match &self.tr {
            Tr::Rep(_) | Tr::Late(..) | Tr::Add(_) => 0,
            _ => code(&row),
        };
        let copy = |k: i64| {
            let mut r = row.clone();
            r.field_values[0] = FieldValue::Long(k % 10007);
            r
        };
        match &self.tr {
            Tr::Mut(k) => io_rows[0].field_values[0] = FieldValue::Long((c * 7 + k) % 10007),
            Tr::Dup(n) => {
                io_rows.clear();
                for j in 1..=*n {
                    io_rows.push(copy(c * 5 + j));
                }
            }
            Tr::Fan(m) => {
                io_rows.clear();
                for j in 1..=(c % m) {
                    io_rows.push(copy(c * 5 + j));
                }
            }
            Tr::Rep(n) => {
                io_rows.clear();
                for _ in 1..=*n {
                    io_rows.push(row.clone());
                }
            }
            Tr::Late(n, by, top) => {
                io_rows.clear();
                let at = self.tsv.binary_search(&row.timestamp).unwrap() as i64 + 1;
                for j in 0..*n {
                    let mut r = row.clone();
                    r.timestamp = self.tsv[(at + by * j).min(*top).max(1) as usize - 1];
                    io_rows.push(r);
                }
            }
            Tr::Drop(m) => {
                if c % m == 0 {
                    io_rows.clear();
                }
            }
            Tr::Add(v) => io_rows[0].field_values.push(v.clone()),
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

fn header(src: &Value) -> Header {
    let mut names = vec![];
    let mut types = vec![];
    for c in src["cols"].as_array().unwrap() {
        names.push(val::name(&c["n"]));
        types.push(val::typ(c["t"].as_str().unwrap()));
    }
    Header::new(names, types)
}

pub fn node(nd: &Value, tsv: &Vec<u64>) -> HeaderNode {
    let tr = |tr: Tr| {
        HeaderNode::HeaderSink(Box::new(Transform { tr, tsv: tsv.clone(), col: None }) as Box<dyn HeaderSink>)
    };
    match nd["k"].as_str().unwrap() {
        "rec" => HeaderNode::HeaderSink(Box::new(Rec {
            s: int(&nd["s"]),
            werr: int(&nd["werr"]),
            ferr: int(&nd["ferr"]),
            herr: nd["herr"].as_bool().unwrap_or(false),
            writes: 0,
            flushes: 0,
            tsv: tsv.clone(),
            plain: nd["plain"].as_bool().unwrap_or(false),
        })),
        "mut" => tr(Tr::Mut(int(&nd["x"]))),
        "dup" => tr(Tr::Dup(int(&nd["x"]))),
        "rep" => tr(Tr::Rep(int(&nd["x"]))),
        "late" => tr(Tr::Late(int(&nd["x"]), int(&nd["by"]), int(&nd["top"]))),
        "fan" => tr(Tr::Fan(int(&nd["x"]))),
        "drop" => tr(Tr::Drop(int(&nd["x"]))),
        "add" => HeaderNode::HeaderSink(Box::new(Transform {
            tr: Tr::Add(val::value(&nd["val"])),
            tsv: vec![],
            col: Some((val::name(&nd["col"]), val::typ(nd["t"].as_str().unwrap()))),
        })),
        "eq" => HeaderNode::HeaderSink(RowFilterEqualValue::new(
            &val::name(&nd["col"]),
            val::value(&nd["val"]),
        )),
        "gt" => HeaderNode::HeaderSink(RowFilterGreaterValue::new(
            &val::name(&nd["col"]),
            val::value(&nd["val"]),
        )),
        "del" => HeaderNode::HeaderSink(ColumnFilterDelete::new(&val::name(&nd["col"]))),
        "merge" => HeaderNode::Merge(int(&nd["to"]) as usize - 1),
        "msink" => {
            let m = MergeJoin::new(int(&nd["x"]) as usize)
                .unwrap_or_else(|_| panic!("merge refused"));
            let t = m.get_new_header_count_tracker();
            HeaderNode::MergeHeaderSink(m, t)
        }
        "split" => {
            let ids = nd["to"].as_array().unwrap().iter();
            let s = Split::new(ids.map(|i| int(i) as usize - 1).collect());
            let t = s.get_new_header_count_tracker();
            HeaderNode::SplitHeaderSink(s, t)
        }
        k => panic!("HARNESS: node kind {}", k),
    }
}

/// the injected failure an error message carries, or "other"
pub fn inj_id(e: &Error) -> String {
    let s = e.to_string();
    match s.find("INJ-") {
        Some(i) => s[i + 4..].split('-').next().unwrap().to_string(),
        None => "other".to_string(),
    }
}

pub fn range(sc: &Value, tsv: &Vec<u64>) -> TimestampRange {
    let at = |k: &str| match int(&sc[k]) {
        0 => None,
        i => Some(tsv[i as usize - 1]),
    };
    TimestampRange {
        begin: at("begin"),
        end: at("end"),
    }
}

pub fn run(sc: &Value) -> Value {
    // ascending table of the time stamps that occur; everything else refers to it by position
    let tsv: Vec<u64> = sc["tsv"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| s.as_str().unwrap().parse().unwrap())
        .collect();
    let mut headers = vec![];
    let mut sources: Vec<Box<dyn Source>> = vec![];
    for (i, s) in sc["sources"].as_array().unwrap().iter().enumerate() {
        let h = header(s);
        headers.push(h.clone());
        let rows = s["rows"].as_array().unwrap().iter();
        sources.push(Box::new(Src {
            id: i + 1,
            header: h,
            rows: rows
                .map(|r| Row {
                    timestamp: tsv[int(&r["ts"]) as usize - 1],
                    field_values: r["v"].as_array().unwrap().iter().map(val::value).collect(),
                })
                .collect(),
            pos: 0,
            fail_at: int(&s["fail"]),
        }));
    }
    // as many headers as the scenario says
    if let Some(n) = sc["nh"].as_u64() {
        let h = headers.first().cloned();
        headers.resize(n as usize, h.unwrap_or(Header::new(vec![], vec![])));
    }
    let chains = sc["chains"].as_array().unwrap().iter();
    let graph = HeaderGraph::new(
        chains
            .map(|c| {
                let nodes = c.as_array().unwrap().iter();
                HeaderChain::new(nodes.map(|n| node(n, &tsv)).collect())
            })
            .collect(),
    );
    let res = match Driver::new(sources, graph, range(sc, &tsv), headers) {
        Ok(mut d) => ChopperDriver::drive(&mut d),
        Err(e) => Err(e),
    };
    match res {
        Ok(()) => log::push(json!({"e": "end", "r": "ok", "id": ""})),
        Err(e) => log::push(json!({"e": "end", "r": "err", "id": inj_id(&e)})),
    }
    Value::Null
}
