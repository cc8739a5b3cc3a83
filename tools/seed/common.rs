//! helpers of the demonstrations
#![allow(dead_code)]
pub use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, Source};
pub use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
pub use chopper::chopper::types::*;
pub use chopper::cli::util::YesNoAuto;
pub use chopper::driver::driver::Driver;
pub use chopper::driver::merge_join::MergeJoin;
pub use chopper::driver::split::Split;
pub use chopper::error::{CliResult, Error};
pub use chopper::input::input::{Input, InputFormat, InputType};
pub use chopper::input::input_factory::InputFactory;
pub use chopper::source::csv_configs::*;
pub use chopper::source::csv_timestamp::TimestampUnits;
pub use chopper::util::tz::ChopperTz;
pub use chopper::write::factory;

pub fn nanos_csv() -> CSVInputConfig {
    let ts = TimestampConfig::new(
        TimestampColConfig::Index(0),
        TimestampFmtConfig::Epoch(TimestampUnits::Nanos),
        ChopperTz::new_always_fails(),
    );
    CSVInputConfig::new(Some(","), YesNoAuto::Yes, ts).unwrap()
}
pub fn open(path: &str) -> CliResult<Box<dyn Source>> {
    InputFactory::new(nanos_csv(), None, None)?.create_source_from_path(path)
}
pub fn rows(s: &mut Box<dyn Source>) -> CliResult<Vec<(u64, Vec<String>)>> {
    let mut v = Vec::new();
    while let Some(r) = s.next_row()? {
        v.push((r.timestamp, r.field_values.iter().map(|f| format!("{:?}", f)).collect()));
    }
    Ok(v)
}
/// rows from memory
pub struct Mem {
    pub header: Header,
    pub rows: std::vec::IntoIter<Row>,
}
impl Source for Mem {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        Ok(self.rows.next())
    }
}
pub fn mem(col: &str, rows: &[(u64, i32)]) -> Box<dyn Source> {
    Box::new(Mem {
        header: Header::new(vec![col.to_string()], vec![FieldType::Int]),
        rows: rows
            .iter()
            .map(|(t, v)| Row { timestamp: *t, field_values: vec![FieldValue::Int(*v)] })
            .collect::<Vec<_>>()
            .into_iter(),
    })
}
pub type Seen = std::rc::Rc<std::cell::RefCell<Vec<String>>>;
/// records every row and flush
pub struct Rec(pub String, pub Seen);
impl HeaderSink for Rec {
    fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}
impl DataSink for Rec {
    fn write_row(&mut self, io: &mut Vec<Row>) -> CliResult<()> {
        assert_eq!(io.len(), 1);
        self.1.borrow_mut().push(format!("{}:{}:{:?}", self.0, io[0].timestamp, io[0].field_values));
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        self.1.borrow_mut().push(format!("{}:flush", self.0));
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}
pub fn rec(name: &str, seen: &Seen) -> HeaderNode {
    HeaderNode::HeaderSink(Box::new(Rec(name.to_string(), seen.clone())))
}
pub fn drive(sources: Vec<Box<dyn Source>>, chains: Vec<Vec<HeaderNode>>, range: TimestampRange) -> CliResult<()> {
    let headers = sources.iter().map(|s| s.header().clone()).collect();
    let graph = HeaderGraph::new(chains.into_iter().map(HeaderChain::new).collect());
    Driver::new(sources, graph, range, headers).and_then(|mut d| ChopperDriver::drive(&mut d))
}
