//! The generic functions of the code under test, at the types the checks use. This crate is compiled
//! with the instrumentation of `tools/rustc.sh`, so that callers can be preempted inside them too.

use objio::{ObjectReader, ObjectWriter};
use rdftk_core::error::Error;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::DotWriter;
use rdftk_io::json::{JsonReader, JsonWriter};
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter};
use rdftk_io::trig::TrigWriter;
use rdftk_io::turtle::TurtleWriter;
use rdftk_io::xml::{XmlReader, XmlWriter};
use std::io::{Read, Write};

pub trait Writes<T> {
    fn write_to(&self, out: &mut dyn Write, object: &T) -> Result<(), Error>;
    fn write_string(&self, object: &T) -> Result<String, Error>;
}

macro_rules! writes {
    ($($writer:ty, $object:ty;)*) => {$(
        impl Writes<$object> for $writer {
            #[inline(never)]
            fn write_to(&self, mut out: &mut dyn Write, object: &$object) -> Result<(), Error> {
                self.write(&mut out, object)
            }
            #[inline(never)]
            fn write_string(&self, object: &$object) -> Result<String, Error> {
                self.write_to_string(object)
            }
        }
    )*};
}

writes! {
    NTripleWriter, Graph;
    NQuadWriter, Graph;
    NQuadWriter, DataSet;
    TurtleWriter, Graph;
    TrigWriter, Graph;
    TrigWriter, DataSet;
    DotWriter, Graph;
    JsonWriter, Graph;
    XmlWriter, Graph;
}

pub trait Reads<T> {
    fn read_from(&self, r: &mut dyn Read) -> Result<T, Error>;
    fn read_string(&self, text: &str) -> Result<T, Error>;
}

macro_rules! reads {
    ($($reader:ty, $object:ty;)*) => {$(
        impl Reads<$object> for $reader {
            #[inline(never)]
            fn read_from(&self, mut r: &mut dyn Read) -> Result<$object, Error> {
                self.read(&mut r)
            }
            #[inline(never)]
            fn read_string(&self, text: &str) -> Result<$object, Error> {
                self.read_from_string(text)
            }
        }
    )*};
}

reads! {
    NTripleReader, Graph;
    NQuadReader, DataSet;
    JsonReader, Graph;
    XmlReader, Graph;
}
