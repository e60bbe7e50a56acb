//! what the harness needs to know of a generated type
use std::{
    any::Any,
    fmt::Debug,
    io::{Read, Write},
};

use xsd_parser::generator::validator::Validate;
use yaserde::{YaDeserialize, YaSerialize};

pub trait Peer {
    fn ser(&self, w: &mut dyn Write, indent: bool) -> Result<(), String>;
    fn same(&self, o: &dyn Peer) -> bool;
    fn show(&self) -> String;
    fn any(&self) -> &dyn Any;
}
impl<T: YaSerialize + PartialEq + Debug + 'static> Peer for T {
    fn ser(&self, w: &mut dyn Write, indent: bool) -> Result<(), String> {
        let cfg = yaserde::ser::Config { perform_indent: indent, ..Default::default() };
        yaserde::ser::serialize_with_writer(self, w, &cfg).map(|_| ())
    }
    fn same(&self, o: &dyn Peer) -> bool {
        o.any().downcast_ref::<T>() == Some(self)
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// the reader and writer generated for one global element
#[derive(Clone, Copy)]
pub struct Endpoint {
    pub schema: u64,
    pub global: usize,
    pub de: fn(&mut dyn Read) -> Result<Box<dyn Peer>, String>,
}
pub fn endpoint<T: YaDeserialize + YaSerialize + PartialEq + Debug + 'static>(schema: u64, global: usize) -> Endpoint {
    fn de<T: YaDeserialize + YaSerialize + PartialEq + Debug + 'static>(r: &mut dyn Read) -> Result<Box<dyn Peer>, String> {
        yaserde::de::from_reader::<_, T>(r).map(|v| Box::new(v) as Box<dyn Peer>)
    }
    Endpoint { schema, global, de: de::<T> }
}

/// the validator generated for one simple type
#[derive(Clone, Copy)]
pub struct Checker {
    pub schema: u64,
    pub simple: usize,
    pub check: fn(&mut dyn Read) -> Result<Result<(), String>, String>,
}
pub fn checker<T: YaDeserialize + Validate>(schema: u64, simple: usize) -> Checker {
    fn check<T: YaDeserialize + Validate>(r: &mut dyn Read) -> Result<Result<(), String>, String> {
        yaserde::de::from_reader::<_, T>(r).map(|v| v.validate())
    }
    Checker { schema, simple, check: check::<T> }
}

/// what generated clients need: the transport is the application's
pub mod transport {
    use std::{future::Future, io::Read, pin::Pin, rc::Rc};

    use yaserde::{YaDeserialize, YaSerialize};

    #[derive(Clone, Debug, PartialEq)]
    pub enum Error {
        Network(String),
        Serialization(String),
        Deserialization(String),
    }
    pub type Reply = Pin<Box<dyn Future<Output = Result<Box<dyn Read>, Error>>>>;
    pub trait Transport {
        fn call(&self, request: Vec<u8>) -> Reply;
    }
    /// the simulated network, as one call sees it
    #[derive(Clone)]
    pub struct Handle(pub Rc<dyn Fn(Vec<u8>) -> Reply>);
    impl Transport for Handle {
        fn call(&self, request: Vec<u8>) -> Reply {
            (self.0)(request)
        }
    }
    pub async fn request<T: Transport, Q: YaSerialize, R: YaDeserialize>(transport: &T, request: &Q) -> Result<R, Error> {
        let mut bytes = vec![];
        yaserde::ser::serialize_with_writer(request, &mut bytes, &Default::default()).map_err(Error::Serialization)?;
        let reply = transport.call(bytes).await?;
        yaserde::de::from_reader(reply).map_err(Error::Deserialization)
    }
}
pub fn load<T: YaDeserialize>(document: &[u8]) -> Result<T, String> {
    yaserde::de::from_reader(document)
}
pub fn store<T: YaSerialize>(value: &T) -> Result<Vec<u8>, String> {
    let mut bytes = vec![];
    yaserde::ser::serialize_with_writer(value, &mut bytes, &Default::default())?;
    Ok(bytes)
}
pub type Outcome = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Vec<u8>, String>>>>;
/// the client function generated for one operation: takes the request document, answers with the response document
#[derive(Clone, Copy)]
pub struct Operation {
    pub schema: u64,
    pub op: usize,
    pub call: fn(transport::Handle, Vec<u8>) -> Outcome,
}

#[derive(Default)]
pub struct Table {
    pub operations: Vec<Operation>,
    pub endpoints: Vec<Endpoint>,
    pub checkers: Vec<Checker>,
    /// readers of simple types; `global` is the index of the type
    pub values: Vec<Endpoint>,
}
