//! Stand-in for any plugin binary: the simulator says which identity an image has.
use stuart_core::error::ProcessError;
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawFunction};
use stuart_core::plugins::{NodeParser, NodeProcessor, Plugin};
use stuart_core::process::{ProcessOutput, Scope};
use stuart_core::{Environment, Stuart, TracebackError};

use std::ffi::CStr;
use std::os::raw::c_char;
use std::path::Path;

extern "C" {
    fn sim_plugin_id() -> *const c_char;
}

#[no_mangle]
pub extern "C" fn _stuart_plugin_init() -> *mut Plugin {
    let id = unsafe { CStr::from_ptr(sim_plugin_id()) }.to_string_lossy().to_string();
    Box::into_raw(Box::new(Plugin {
        name: id.clone(),
        version: "1".to_string(),
        functions: vec![
            Box::new(SayParser { name: format!("say_{}", id), id: id.clone() }),
            Box::new(SayParser { name: "say".to_string(), id: id.clone() }),
            Box::new(SayParser { name: format!("say_{}", id.split('-').next().unwrap()), id: id.clone() }),
        ],
        parsers: vec![Box::new(XParser { id })],
    }))
}

struct SayParser {
    name: String,
    id: String,
}

#[derive(Debug)]
struct Say {
    name: String,
    text: String,
}

impl FunctionParser for SayParser {
    fn name(&self) -> &str {
        &self.name
    }

    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        let text = raw
            .positional_args
            .first()
            .and_then(|a| a.as_string())
            .ok_or(ParseError::InvalidArgument)?;
        Ok(Box::new(Say { name: self.name.clone(), text: format!("({}:{})", self.id, text) }))
    }
}

impl Function for Say {
    fn name(&self) -> &str {
        &self.name
    }

    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let token = scope.tokens.current().unwrap().clone();
        scope.output(&self.text).map_err(|e| token.traceback(e))
    }
}

struct XParser {
    id: String,
}

struct X {
    id: String,
    name: String,
    contents: Vec<u8>,
}

impl NodeParser for XParser {
    fn extensions(&self) -> Vec<&'static str> {
        vec!["simx"]
    }

    fn parse(&self, contents: &[u8], path: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        if contents.starts_with(b"BAD") {
            return Err("bad simx file\n".to_string());
        }
        Ok(Box::new(X {
            id: self.id.clone(),
            name: path.file_name().unwrap().to_string_lossy().to_string(),
            contents: contents.to_vec(),
        }))
    }
}

impl NodeProcessor for X {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        if self.contents.starts_with(b"FAIL") {
            return Err("simx processing failed\n".to_string());
        }
        let mut new_contents = format!("[{}]", self.id).into_bytes();
        new_contents.extend_from_slice(&self.contents);
        Ok(ProcessOutput {
            new_contents: Some(new_contents),
            new_name: Some(format!("{}.out", self.name)),
        })
    }
}
