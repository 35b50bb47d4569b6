//! Stand-in for the compiler's `proc_macro` diagnostics: records instead of printing.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq)]
#[non_exhaustive]
pub enum Level {
    Error,
    Warning,
    Note,
    Help,
}

#[derive(Clone, Copy, Debug)]
pub struct Span(pub usize, pub usize);

#[derive(Clone, Debug)]
pub struct Diagnostic {
    pub level: Level,
    pub message: String,
    pub spans: Vec<Span>,
    pub notes: Vec<String>,
}

thread_local! {
    pub static DIAGS: RefCell<Vec<Diagnostic>> = RefCell::new(vec![]);
}

pub fn take() -> Vec<Diagnostic> {
    DIAGS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}

impl Diagnostic {
    pub fn new(level: Level, m: impl Into<String>) -> Self {
        Diagnostic { level, message: m.into(), spans: vec![], notes: vec![] }
    }
    pub fn spanned(s: Vec<Span>, level: Level, m: impl Into<String>) -> Self {
        Diagnostic { level, message: m.into(), spans: s, notes: vec![] }
    }
    pub fn error(mut self, m: impl Into<String>) -> Self {
        self.notes.push(m.into());
        self
    }
    pub fn warning(self, m: impl Into<String>) -> Self {
        self.error(m)
    }
    pub fn note(self, m: impl Into<String>) -> Self {
        self.error(m)
    }
    pub fn help(self, m: impl Into<String>) -> Self {
        self.error(m)
    }
    pub fn span_note(self, _: Vec<Span>, m: impl Into<String>) -> Self {
        self.error(m)
    }
    pub fn span_help(self, _: Vec<Span>, m: impl Into<String>) -> Self {
        self.error(m)
    }
    pub fn emit(self) {
        DIAGS.with(|d| d.borrow_mut().push(self))
    }
}

impl Span {
    pub fn error(self, m: impl Into<String>) -> Diagnostic {
        Diagnostic::spanned(vec![self], Level::Error, m)
    }
    pub fn warning(self, m: impl Into<String>) -> Diagnostic {
        Diagnostic::spanned(vec![self], Level::Warning, m)
    }
    pub fn note(self, m: impl Into<String>) -> Diagnostic {
        Diagnostic::spanned(vec![self], Level::Note, m)
    }
    pub fn help(self, m: impl Into<String>) -> Diagnostic {
        Diagnostic::spanned(vec![self], Level::Help, m)
    }
}

pub trait Shim {
    fn shim(self) -> Span;
}

impl Shim for proc_macro2::Span {
    fn shim(self) -> Span {
        Span(self.start().line, self.start().column)
    }
}
