//! Entry points of the analysis: "most general clients" of the public API, with the conditions that
//! have to hold. This module is type checked and lowered together with the crate by the fact exporter
//! and then analysed; nothing in it is ever executed, and the crate itself never contains it.
use crate::common::core::msg::*;
use crate::common::core::*;

/// a condition that has to hold for every input
pub fn check(_name: &'static str, _cond: bool) {}
/// an arbitrary value
pub fn any<T>() -> T {
    loop {}
}
/// a value that the analysis looks at
pub fn observe<T>(_name: &'static str, _v: T) {}

// ------------------------------------------------------------------ messages

pub fn w01_parse(buf: &[u8]) {
    match Message::parse(buf) {
        Ok((msg, size)) => {
            check("message length at least 1", size >= 1);
            check("message length within buffer", size <= buf.len());
            let _ = msg.parsed_type();
            for arg in msg.arguments() {
                observe("arg", arg);
            }
        }
        Err(e) => {
            check("error offset within buffer", e.offset <= buf.len());
            check("error buffer is the input", e.buffer.len() == buf.len());
            if e.is_incomplete() {
                check("incomplete only at the end of the buffer", e.offset == buf.len());
            } else {
                observe("error", e.offset);
            }
        }
    }
}

pub fn w02_parse(buf: &[u8]) {
    match Message::parse(buf) {
        Ok((msg, size)) => {
            observe("type", msg.parsed_type());
            observe("accepted", size);
        }
        Err(e) => {
            if e.is_incomplete() {
                observe("incomplete", ());
            } else {
                observe("invalid", ());
            }
        }
    }
}

pub fn w04_arguments(buf: &[u8]) {
    if let Ok((msg, _)) = Message::parse(buf) {
        let mut it = msg.arguments();
        observe("len", it.len());
        observe("hint", it.size_hint());
        loop {
            match it.next() {
                Some(arg) => {
                    observe("arg", arg);
                    observe("len", it.len());
                    observe("hint", it.size_hint());
                }
                None => {
                    observe("end", ());
                    break;
                }
            }
        }
        for arg in msg.arguments() {
            observe("again", arg);
        }
        observe("end", ());
    }
}

pub fn w04_announced(buf: &[u8]) {
    if let Ok((msg, _)) = Message::parse(buf) {
        observe("len", msg.arguments().len());
    }
}

pub fn w04_iterate(buf: &[u8]) {
    if let Ok((msg, _)) = Message::parse(buf) {
        let mut it = msg.arguments();
        let again = msg.arguments();
        check("every iteration starts with the same number of items", again.len() == it.len());
        loop {
            let before = it.len();
            let hint = it.size_hint();
            check("size hint is the remaining length", hint.0 == before && hint.1 == Some(before));
            let mut copy = it.clone();
            check("a copy has the same number of items left", copy.len() == before);
            let x = copy.next();
            match it.next() {
                None => {
                    check("iteration ends only after the announced number of items", before == 0);
                    check("a copy ends at the same item", x.is_none());
                    break;
                }
                Some(arg) => {
                    check("an item is only returned while items remain", before >= 1);
                    check("the length decreases by one per item", it.len() + 1 == before);
                    check("a copy yields the same item", x == Some(arg));
                    observe("arg", arg);
                }
            }
        }
    }
}

/// restricts the inputs that are considered
pub fn assume(_cond: bool) {}

/// size of one rendered item
fn item(len: usize) -> usize {
    len.get_size() + 1 + len + 1
}

pub fn w05_format<T: EncodeArgument + ?Sized + 'static>(buf: &mut [u8], name: &str, n: usize) {
    //sizes beyond this do not fit in any address space
    assume(n < 1 << 60);
    assume(name.len() < 1 << 60);
    let cap = if buf.len() < 1024 { buf.len() } else { 1024 };
    let mut total = 1 + (n + 1).get_size() + 1 + item(name.len());
    let mut f = MessageFormatter::new(buf, name, n);
    let mut left = n;
    while left > 0 {
        let arg: &'static T = any();
        assume(total < 1 << 62);
        assume(arg.get_size() < 1 << 60);
        total += item(arg.get_size());
        f.add_argument(arg);
        left -= 1;
    }
    assume(total < 1 << 62);
    total += 1;
    match f.finalize() {
        Ok(size) => {
            check("the reported size is the size of the message", size == total);
            check("a message that does not fit is not reported as rendered", total <= cap);
            check("no message is longer than 1024 bytes", size <= 1024);
        }
        Err(e) => {
            check("a message that fits is rendered", total > cap);
            check("the error says how many bytes are missing", e.0 == total - cap);
        }
    }
}

pub fn w06_format0(buf: &mut [u8], name: &str) -> Result<usize, BufferTooSmallError> {
    assume(name.len() < 1 << 60);
    let f = MessageFormatter::new(buf, name, 0);
    f.finalize()
}

pub fn w06_format2<T: EncodeArgument + ?Sized, U: EncodeArgument + ?Sized>(
    buf: &mut [u8],
    name: &str,
    a: &T,
    b: &U,
) -> Result<usize, BufferTooSmallError> {
    assume(name.len() < 1 << 60);
    assume(a.get_size() < 1 << 60);
    assume(b.get_size() < 1 << 60);
    let mut f = MessageFormatter::new(buf, name, 2);
    f.add_argument(a);
    f.add_argument(b);
    f.finalize()
}

/// the beginning of a message with any number of arguments
pub fn w06_header(buf: &mut [u8], name: &str, n: usize) {
    assume(n < 1 << 60);
    assume(name.len() < 1 << 60);
    let _ = MessageFormatter::new(buf, name, n);
}

/// fewer or more arguments than announced
pub fn w06_none(buf: &mut [u8], name: &str, n: usize) -> Result<usize, BufferTooSmallError> {
    assume(n < 1 << 60);
    assume(name.len() < 1 << 60);
    let f = MessageFormatter::new(buf, name, n);
    f.finalize()
}

pub fn w06_one<T: EncodeArgument + ?Sized>(
    buf: &mut [u8],
    name: &str,
    n: usize,
    a: &T,
) -> Result<usize, BufferTooSmallError> {
    assume(n < 1 << 60);
    assume(name.len() < 1 << 60);
    assume(a.get_size() < 1 << 60);
    let mut f = MessageFormatter::new(buf, name, n);
    f.add_argument(a);
    f.finalize()
}

// --------------------------------------------------------------- identifiers

pub fn i02_client_id(s: &str) {
    if let Some(x) = ClientID::parse(s) {
        check("ClientID: the text is the parsed text", x.as_str() == s);
        check("ClientID: encoded as the parsed text", x.encoded() == s.as_bytes());
    }
}

pub fn i02_identifier(s: &str) {
    if let Some(x) = Identifier::parse(s) {
        check("Identifier: the text is the parsed text", x.as_str() == s);
        check("Identifier: encoded as the parsed text", x.encoded() == s.as_bytes());
    }
}

pub fn i02_module_identifier(s: &str, minor: u16) {
    if let Some(x) = ModuleIdentifier::parse(s) {
        check("ModuleIdentifier: the text is the parsed text", x.as_str() == s);
        check("ModuleIdentifier: encoded as the parsed text", x.encoded() == s.as_bytes());
        let name = x.name();
        let n = name.as_str().len();
        check("ModuleIdentifier: the name is a part of the text", n < s.len());
        check("ModuleIdentifier: the name is the beginning of the text", name.as_str() == &s[..n]);
        observe("major", (s, n, x.major_version()));
        let v = x.with_minor_version(minor);
        check("ModuleVersion: made of the given module", v.module().as_str() == s);
        check("ModuleVersion: made of the given major version", v.module().major_version() == x.major_version());
        check("ModuleVersion: made of the given module name", v.module().name().as_str() == x.name().as_str());
        check("ModuleVersion: made of the given minor version", v.minor_version() == minor);
    }
}

/// a module version is encoded as its module, a dot and its minor version
pub fn i02_encoded_version<'a>(m: &'a ModuleIdentifier<'a>, minor: u16, buf: &mut [u8]) -> &'a str {
    assume(m.as_str().len() < 1 << 60);
    let v = m.with_minor_version(minor);
    assume(v.get_size() == buf.len());
    v.encode(buf);
    m.as_str()
}

pub fn i02_show_client_id<'s>(s: &'s str, f: &mut core::fmt::Formatter) -> (bool, &'s str) {
    assume(s.len() < 1 << 60);
    match ClientID::parse(s) {
        Some(x) => (core::fmt::Display::fmt(&x, f).is_ok(), s),
        None => (false, s),
    }
}

pub fn i02_show_identifier<'s>(s: &'s str, f: &mut core::fmt::Formatter) -> (bool, &'s str) {
    assume(s.len() < 1 << 60);
    match Identifier::parse(s) {
        Some(x) => (core::fmt::Display::fmt(&x, f).is_ok(), s),
        None => (false, s),
    }
}

pub fn i02_show_module_identifier<'s>(s: &'s str, f: &mut core::fmt::Formatter) -> (bool, &'s str) {
    assume(s.len() < 1 << 60);
    match ModuleIdentifier::parse(s) {
        Some(x) => (core::fmt::Display::fmt(&x, f).is_ok(), s),
        None => (false, s),
    }
}

pub fn i02_show_scoped_identifier<'s>(s: &'s str, f: &mut core::fmt::Formatter) -> (bool, &'s str) {
    assume(s.len() < 1 << 60);
    match ScopedIdentifier::parse(s) {
        Some(x) => (core::fmt::Display::fmt(&x, f).is_ok(), s),
        None => (false, s),
    }
}

pub fn i02_show_message_type<'s>(s: &'s str, f: &mut core::fmt::Formatter) -> (bool, &'s str) {
    assume(s.len() < 1 << 60);
    match MessageType::parse(s) {
        Some(x) => (core::fmt::Display::fmt(&x, f).is_ok(), s),
        None => (false, s),
    }
}

pub fn i02_show_module_version<'s>(s: &'s str, minor: u16, f: &mut core::fmt::Formatter) -> (bool, &'s str) {
    assume(s.len() < 1 << 60);
    match ModuleIdentifier::parse(s) {
        Some(x) => {
            observe("module", x.clone());
            (core::fmt::Display::fmt(&x.with_minor_version(minor), f).is_ok(), s)
        }
        None => (false, s),
    }
}

pub fn i02_module_version(s: &str) {
    if let Some(x) = ModuleVersion::parse(s) {
        let module = x.module();
        let n = module.as_str().len();
        check("ModuleVersion: the module is a part of the text", n < s.len());
        check("ModuleVersion: the module is the beginning of the text", module.as_str() == &s[..n]);
        check("ModuleVersion: a dot follows the module", s.as_bytes()[n] == b'.');
        let k = module.name().as_str().len();
        check("ModuleVersion: the name is a part of the module", k < n);
        check("ModuleVersion: the name is the beginning of the text", module.name().as_str() == &s[..k]);
        observe("minor", (s, n + 1, x.minor_version()));
        observe("major2", (&s[..n], k, module.major_version()));
    }
}

pub fn i02_scoped_identifier(s: &str) {
    if let Some(x) = ScopedIdentifier::parse(s) {
        check("ScopedIdentifier: the text is the parsed text", x.as_str() == s);
        check("ScopedIdentifier: encoded as the parsed text", x.encoded() == s.as_bytes());
        let module = x.module();
        let n = module.as_str().len();
        check("ScopedIdentifier: the module is a part of the text", n < s.len());
        check("ScopedIdentifier: the module is the beginning of the text", module.as_str() == &s[..n]);
        check("ScopedIdentifier: a dot follows the module", s.as_bytes()[n] == b'.');
        check("ScopedIdentifier: the member is the rest of the text", x.member().as_str() == &s[n + 1..]);
        let k = module.name().as_str().len();
        check("ScopedIdentifier: the name is a part of the module", k < n);
        check("ScopedIdentifier: the name is the beginning of the text", module.name().as_str() == &s[..k]);
        observe("major2", (&s[..n], k, module.major_version()));
    }
}

pub fn i02_message_type(s: &str) {
    if let Some(x) = MessageType::parse(s) {
        check("MessageType: the text is the parsed text", x.as_str() == s);
        check("MessageType: encoded as the parsed text", x.encoded() == s.as_bytes());
        match x {
            MessageType::Want => check("MessageType: want", s == "want"),
            MessageType::Have => check("MessageType: have", s == "have"),
            MessageType::Nope => check("MessageType: nope", s == "nope"),
            MessageType::Scoped(y) => check("MessageType: scoped", y.as_str() == s),
        }
    }
}

#[cfg(feature = "use_std")]
pub fn i02_owned(s: &str) {
    if let Some(x) = ClientID::parse(s) {
        let o = OwnedClientID::from(&x);
        check("OwnedClientID: the text is the parsed text", o.as_ref().as_str() == s);
        check("OwnedClientID: a copy has the same text", o.clone().as_ref().as_str() == s);
    }
}

// --------------------------------------------------------------- basic types

pub fn w11_bool(v: bool, buf: &mut [u8]) {
    assume(buf.len() == v.get_size());
    v.encode(buf);
    if v {
        check("true is encoded as t", buf == b"t");
    } else {
        check("false is encoded as f", buf == b"f");
    }
}

pub fn w11_bool_decode(arg: &[u8]) {
    match bool::decode_argument(arg) {
        Some(true) => check("only t decodes to true", arg == b"t"),
        Some(false) => check("only f decodes to false", arg == b"f"),
        None => check("t and f are decoded", arg != b"t" && arg != b"f"),
    }
}

pub fn w11_bytes(v: &[u8], buf: &mut [u8]) {
    check("byte strings are encoded verbatim: size", v.get_size() == v.len());
    assume(buf.len() == v.get_size());
    v.encode(buf);
    check("byte strings are encoded verbatim", buf == v);
    match <&[u8]>::decode_argument(v) {
        Some(x) => check("byte strings are decoded verbatim", x == v),
        None => check("every byte string is decoded", false),
    }
}

pub fn w11_str(v: &str, buf: &mut [u8]) {
    check("text is encoded verbatim: size", v.get_size() == v.len());
    assume(buf.len() == v.get_size());
    v.encode(buf);
    check("text is encoded verbatim", buf == v.as_bytes());
}

pub fn w11_str_decode(arg: &[u8]) {
    match <&str>::decode_argument(arg) {
        Some(x) => check("text is decoded verbatim", x.as_bytes() == arg),
        None => check("every valid text is decoded", core::str::from_utf8(arg).is_err()),
    }
}

#[cfg(feature = "use_std")]
pub fn w11_path(v: &std::path::Path, arg: &[u8], buf: &mut [u8]) {
    use std::os::unix::ffi::OsStrExt;
    check("paths are encoded verbatim: size", v.get_size() == v.as_os_str().as_bytes().len());
    assume(buf.len() == v.get_size());
    v.encode(buf);
    check("paths are encoded verbatim", buf == v.as_os_str().as_bytes());
    match <&std::path::Path>::decode_argument(arg) {
        Some(x) => check("paths are decoded verbatim", x.as_os_str().as_bytes() == arg),
        None => check("every path is decoded", false),
    }
}

pub fn w11_option<'a, T: EncodeArgument + ?Sized>(v: Option<&'a T>, buf: &mut [u8], same: &mut [u8]) {
    match v {
        None => {
            check("an absent value has an empty encoding", v.get_size() == 0);
            assume(buf.len() == 0);
            v.encode(buf);
        }
        Some(x) => {
            check("a present value is encoded like the value: size", v.get_size() == x.get_size());
            assume(buf.len() == x.get_size() && same.len() == x.get_size());
            v.encode(buf);
            x.encode(same);
            check("a present value is encoded like the value", buf == same);
        }
    }
}

pub fn w11_option_decode<'a, T: DecodeArgument<'a>>(arg: &'a [u8]) {
    let inner = T::decode_argument(arg);
    match Option::<T>::decode_argument(arg) {
        Some(None) => check("only the empty string decodes to an absent value", arg.len() == 0),
        Some(Some(x)) => {
            check("the empty string decodes to an absent value", arg.len() != 0);
            check("a present value is decoded as the inner type", inner.is_some());
            observe("inner", (inner, x));
        }
        None => {
            check("the empty string is decoded", arg.len() != 0);
            check("a value that the inner type decodes is decoded", inner.is_none());
        }
    }
}

// ------------------------------------------------------------------- server

#[cfg(feature = "use_std")]
mod server_entries {
    use super::*;
    use crate::server::*;

    pub fn s06_below(x: &str, y: &str) {
        if let (Some(x), Some(y)) = (ClientID::parse(x), ClientID::parse(y)) {
            let at_or_below = ClientSelector::AtOrBelow(x).contains(y);
            let below = y.as_str().as_bytes().starts_with(x.as_str().as_bytes());
            check("AtOrBelow selects exactly the IDs with this prefix", at_or_below == below);
        }
    }

    pub fn s06_strictly(x: &str, y: &str) {
        if let (Some(x), Some(y)) = (ClientID::parse(x), ClientID::parse(y)) {
            let strictly = ClientSelector::StrictlyBelow(x).contains(y);
            let below = y.as_str().as_bytes().starts_with(x.as_str().as_bytes());
            let same = x.as_str() == y.as_str();
            check("StrictlyBelow selects exactly the other IDs with this prefix", strictly == (below && !same));
        }
    }

    pub fn s06_self(x: &str) {
        if let Some(x) = ClientID::parse(x) {
            check("AtOrBelow selects the ID itself", ClientSelector::AtOrBelow(x).contains(x));
            check("StrictlyBelow does not select the ID itself", !ClientSelector::StrictlyBelow(x).contains(x));
        }
    }

    pub fn s11_new(id: ClientID<'_>) {
        let i = ClientIdentity::new(&id);
        check("new identity: client ID", i.client_id().as_str() == id.as_str());
        check("new identity: no stdin screen", i.stdin_screen_id().is_none());
        check("new identity: no stdout screen", i.stdout_screen_id().is_none());
        check("new identity: no stderr screen", i.stderr_screen_id().is_none());
    }

    fn same(a: Option<&str>, b: Option<&str>) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b,
            _ => false,
        }
    }

    fn is(a: Option<&str>, s: &str) -> bool {
        match a {
            Some(a) => a == s,
            None => false,
        }
    }

    fn base(id: ClientID<'_>, a: &str, b: &str, c: &str) -> ClientIdentity {
        let mut i = ClientIdentity::new(&id);
        if any::<bool>() {
            i = i.with_stdin(a);
        }
        if any::<bool>() {
            i = i.with_stdout(b);
        }
        if any::<bool>() {
            i = i.with_stderr(c);
        }
        i
    }

    pub fn s11_stdin(id: ClientID<'_>, a: &str, b: &str, c: &str, s: &str) {
        let old = base(id, a, b, c);
        let new = old.clone().with_stdin(s);
        check("with_stdin sets the stdin screen", is(new.stdin_screen_id(), s));
        check("with_stdin keeps the client ID", new.client_id().as_str() == id.as_str());
        check("with_stdin keeps the stdout screen", same(new.stdout_screen_id(), old.stdout_screen_id()));
        check("with_stdin keeps the stderr screen", same(new.stderr_screen_id(), old.stderr_screen_id()));
    }

    pub fn s11_stdout(id: ClientID<'_>, a: &str, b: &str, c: &str, s: &str) {
        let old = base(id, a, b, c);
        let new = old.clone().with_stdout(s);
        check("with_stdout sets the stdout screen", is(new.stdout_screen_id(), s));
        check("with_stdout keeps the client ID", new.client_id().as_str() == id.as_str());
        check("with_stdout keeps the stdin screen", same(new.stdin_screen_id(), old.stdin_screen_id()));
        check("with_stdout keeps the stderr screen", same(new.stderr_screen_id(), old.stderr_screen_id()));
    }

    pub fn s11_stderr(id: ClientID<'_>, a: &str, b: &str, c: &str, s: &str) {
        let old = base(id, a, b, c);
        let new = old.clone().with_stderr(s);
        check("with_stderr sets the stderr screen", is(new.stderr_screen_id(), s));
        check("with_stderr keeps the client ID", new.client_id().as_str() == id.as_str());
        check("with_stderr keeps the stdin screen", same(new.stdin_screen_id(), old.stdin_screen_id()));
        check("with_stderr keeps the stdout screen", same(new.stdout_screen_id(), old.stdout_screen_id()));
    }

    pub fn s11_screen(s: &str) {
        check("a screen identity reports its ID", ScreenIdentity::new(s).screen_id() == s);
    }
}
#[cfg(feature = "use_std")]
pub use server_entries::*;

// ------------------------------------------------------------------ derived client IDs

pub fn i03_below(base: ClientID, suffix: crate::client::core::ClientIDSuffix, buf: &mut [u8]) {
    use crate::client::core::ClientIDSuffix::*;
    let id = suffix.below(base);
    if buf.len() != id.get_size() {
        return;
    }
    id.encode(buf);
    observe("base", base.as_str());
    match suffix {
        Own => observe("own", ()),
        Local(i) => observe("local", i),
        Job(i) => observe("job", i),
        Child(i, j) => {
            observe("child", i);
            observe("child", j);
        }
    }
    observe("text", buf);
}

#[cfg(feature = "use_std")]
pub mod env {
    use super::*;
    use crate::client::{Environment, EnvironmentError::*};

    /// what a program learns from the descriptor: 0 I/O error, 1 no terminal, 2 syntax error, 3 another message, 4 a path
    pub fn g03_discover() -> u8 {
        match Environment::discover() {
            Err(e) => {
                observe("error", e);
                0
            }
            Ok(env) => match env.parse() {
                Err(NoVT6Terminal) => 1,
                Err(CorruptParentHello(_)) => 2,
                Err(InvalidParentHello(_)) => 3,
                Ok(r) => {
                    observe("path", r.server_socket_path());
                    4
                }
            },
        }
    }
}
