//! The real command line tool, linked against /repo's working tree.  A program of its own may give
//! it names of time zones, ways to open inputs, and readers of other formats: those in the file
//! CHOP_MORE names.
use chopper::chopper::chopper::Source;
use chopper::error::CliResult;
use chopper::source::dc_source::DCSource;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use chrono_tz::Tz;
use serde_json::Value;
use std::collections::HashMap;
use std::io::{self, Read};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

const MARK: &[u8] = b"UDC!";

fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

/// what was given for the paths that start so
#[derive(Clone)]
struct Given {
    prefix: Vec<u8>,
    data: Option<Vec<u8>>,
}
impl StreamingTransport for Given {
    fn can_open(&self, path: &Path) -> bool {
        path.as_os_str().as_bytes().starts_with(&self.prefix)
    }
    fn open(&self, _: &Path) -> io::Result<Box<dyn io::Read>> {
        match &self.data {
            Some(d) => Ok(Box::new(io::Cursor::new(d.clone()))),
            None => Err(io::Error::new(io::ErrorKind::Other, "not available")),
        }
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "given"
    }
}

/// dc behind a mark
#[derive(Clone)]
struct Marked;
impl SourceFactory for Marked {
    fn can_create_from_format(&self, format: &String) -> bool {
        format.ends_with(".udc")
    }
    fn can_create_from_previewer(&self, previewer: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        previewer.get_buf().starts_with(MARK)
    }
    fn create_source(&mut self, previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        let mut r = previewer.get_reader();
        let mut mark = [0; 4];
        r.read_exact(&mut mark)?;
        if mark != MARK {
            return Err(io::Error::new(io::ErrorKind::InvalidData, "there is no mark").into());
        }
        Ok(Box::new(DCSource::new(r)?))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

fn main() {
    let more: Option<Value> = std::env::var("CHOP_MORE").ok().map(|p| serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap());
    let (mut zones, mut ways, mut readers) = (None, None, None);
    let names: Vec<(String, Tz)>;
    if let Some(m) = &more {
        names = m["zones"].as_array().unwrap().iter().map(|z| (text(&z["name"]), z["tz"].as_str().unwrap().parse().unwrap())).collect();
        zones = Some(names.iter().map(|(n, z)| (n.as_str(), *z)).collect::<HashMap<&str, Tz>>());
        ways = Some(
            m["given"]
                .as_array()
                .unwrap()
                .iter()
                .map(|g| {
                    let h = g["file"].as_str().unwrap();
                    let data = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    let data = if g["fail"].as_bool().unwrap() { None } else { Some(data) };
                    Box::new(Given { prefix: text(&g["path"]).into_bytes(), data }) as Box<dyn StreamingTransport>
                })
                .collect(),
        );
        if m["user"].as_bool().unwrap() {
            readers = Some(vec![Box::new(Marked) as Box<dyn SourceFactory>]);
        }
    }
    chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(ways, readers, zones));
}
